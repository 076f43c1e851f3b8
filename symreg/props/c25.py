"""Invalid arguments are rejected."""
import warnings

import numpy as np

from .. import common as K
from .. import exact as X
from .. import heur as H
from .. import maxp as M
from .. import reps as R
from . import c10, c12

OPTIONS = dict(path_seconds=60, validate=2)
ALGOS = ("azp", "basic", "reactive", "sa")
VIAS = ("csr", "fit", "dict", "w", "graph", "gdf")
METRICS = ("cityblock", "cosine", "euclidean", "l1", "l2", "manhattan", None)
BAD_METRICS = ("", "precomputed", "Euclid", "minkowsk", "manhattan ", 5, 1.5, ["euclidean"], ("l1",), {})
SOLVERS = ("cbc", "cplex", "glpk", "gurobi", "CBC", "Glpk")
BAD_SOLVERS = ("", "scip", "cbc ", "gurob", None, 3, ["cbc"])
BAD_CONT = ("", "bishop", "rook ", "queens", None, 1, ["rook"], "None")
CONT = ("rook", "queen", "Rook", "QUEEN")
BAD_ATTR = (5, None, 2.5)


def cubes(tier, seed):
    T = tier == "thorough"
    out = []

    def add(**k):
        if "edges" in k:
            k["edges"] = H.norm(k["edges"])
        out.append(k)
    for j, a in enumerate(ALGOS):
        for n in (2, 3, 4) if not T else (2, 3, 4, 5):
            for s in (0, 4) if n < 4 or T else ((0, 4)[j % 2],):
                add(kind="init", est=a, n=n, style=s)
        for n in (1, 2, 3) if not T else (1, 2, 3, 4):
            add(kind="count", est=a, n=n, win=(1, 1))
        add(kind="length", est=a)
    for i, es in enumerate(K.classes(3, False)):
        for q in range(2):
            add(kind="maxp", n=3, edges=es, sp=(None, None, (None, 1)[q]), th=None if q else 3,
                win=(1 + q, 2 + q), pol=i % 3, free=0, flat=False, max_it=1 + q, smin=0)
    for i, es in enumerate(K.classes(4, False)):
        add(kind="maxp", n=4, edges=K.shuffled(es, 4, seed), sp=(None, 1, None, 2), th=3,
            win=(1, 1), pol=i % 4, free=0, max_it=1, smin=0)
        if T or i % 2:
            add(kind="maxp", n=4, edges=K.shuffled(es, 4, seed + 1), free=0, max_it=1, smin=0,
                sp=((2, None), (1, 1), (None, 1), (0, 3)), th=(3, 2), win=(1, 1), pol=i % 4)
    for v in VIAS:
        add(kind="cooling", via=v)
        add(kind="values", via=v)
        add(kind="exactargs", via=v)
        for a in ALGOS:
            if v in ("dict", "w", "graph", "gdf"):
                add(kind="passed", est=a, via=v)
    for est in ("exact", "maxpexact", "maxp", "azp", "sa"):
        add(kind="dict", est=est)
        add(kind="graph", est=est)
        add(kind="gdf", est=est)
    add(kind="metric")
    add(kind="solver")
    add(kind="strategy")
    add(kind="skater")
    return out


class Started(Exception):
    """The arguments have been accepted: the algorithm has begun."""


def start(*a, **k):
    raise Started


def outcome(c, f, what):
    """True: accepted, otherwise the exception."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            f()
        return True
    except Started:
        return True
    except Exception as e:
        return e


def judge(c, valid, got, model, what, kind=ValueError):
    """valid may be symbolic."""
    if got is True:
        c.check(valid, "%s: accepted" % what)
        c.reach("accepted")
    else:
        c.check(c.neg(valid), "%s: rejected, %s: %s" % (what, type(got).__name__, got))
        c.check(isinstance(got, kind), "%s: %s instead of ValueError: %s" % (
            what, type(got).__name__, got))
        c.check(getattr(model, "labels_", None) is None, "%s: labels_ is set" % what)
        c.reach("rejected")
    c.record(got is True)


def harness(c, cube):
    globals()["h_" + cube["kind"]](c, cube)


def objective(c, rows):
    """Says so when the algorithm begins to evaluate solutions."""
    m = K.Metric(c, rows, fixed=K.fix_all_but(len(rows), 0, 1))
    return K.spy_objective(c, m, hook=start, update_hook=start)


def h_init(c, cube):
    """Initial labels are taken if and only if they are feasible."""
    n = cube["n"]
    adj, present = K.unknown_graph(c, n)
    parts = K.partitions(n)
    part = parts[c.choose(len(parts), "partition")]
    k = max(part) + 1
    p = (k, k + 1, k - 1)[c.choose(3, "n_regions")]
    lab = np.array(c10.names_of(part, cube["style"]))
    l0 = lab.copy()
    rows = K.ids(n, 1)
    m = H.make(cube["est"])
    got = outcome(c, lambda: m.fit_from_scipy_sparse_matrix(
        adj, rows, p, initial_labels=lab, objective_func=objective(c, rows)), "fit")
    valid = c.both(p == k, *[K.connected_formula(c, b, present) for b in K.blocks(part)])
    judge(c, valid, got, m, "initial labels %s for %d regions" % (l0.tolist(), p))
    c.check(np.array_equal(lab, l0), "initial labels modified")


def h_count(c, cube):
    """A number of regions is taken iff there is such a partition."""
    n = cube["n"]
    c.window = tuple(cube["win"])
    adj, present = K.unknown_graph(c, n)
    p = c.choose(n + 3, "p") - 1
    rows = K.ids(n, 1)
    m = H.make(cube["est"])
    got = outcome(c, lambda: m.fit_from_scipy_sparse_matrix(
        adj, rows, p, objective_func=objective(c, rows)), "fit")
    valid = c.both(0 < p <= n, c12.at_most(c, n, present, p)) if 0 < p <= n else False
    judge(c, valid, got, m, "%d regions of %d areas" % (p, n))


def h_length(c, cube):
    """Labels for more or fewer areas than there are."""
    n = 4
    rows = K.ids(n, 1)
    adj, present = K.unknown_graph(c, n, pairs=[(0, 1), (1, 2), (2, 3)])
    lab = np.array(([0, 0, 1], [0, 0, 1, 1, 1], [0, 1], [0, 0, 0, 0, 1, 1])[c.choose(4, "lab")])
    m = H.make(cube["est"])
    # refused anywhere on the way will do here
    obj = K.spy_objective(c, K.Metric(c, rows, fixed=K.fix_all_but(n, 0, 1)))
    got = outcome(c, lambda: m.fit_from_scipy_sparse_matrix(
        adj, rows, 2, initial_labels=lab, objective_func=obj), "fit")
    judge(c, False, got, m, "%d initial labels for %d areas" % (len(lab), n), Exception)


def h_maxp(c, cube):
    """The max-p heuristic takes a threshold iff every island reaches it."""
    n = cube["n"]
    edges = tuple(map(tuple, cube["edges"]))
    c.window, c.policy = tuple(cube["win"]), cube["pol"]
    from region.max_p_regions.heuristics import MaxPRegionsHeu
    sp, th, reaches = X.spatial(c, cube)
    rows = K.ids(n, 1)
    comp = K.components(n, edges)
    valid = c.both(*[reaches([i for i in range(n) if comp[i] == q]) for q in set(comp)])
    m = MaxPRegionsHeu(random_state=1)
    got = outcome(c, lambda: m.fit_from_scipy_sparse_matrix(
        M.real_csr(n, edges), rows, sp, th, max_it=cube["max_it"],
        objective_func=objective(c, rows)), "fit")
    judge(c, valid, got, m, "threshold")


class Entry:
    """The same problem for every entry point."""

    def __init__(self, c, v=1):
        self.c, self.v = c, v
        c.window = (1, 1)
        self.cells = ((0, 0), (1, 0), (2, 0), (2, 1))
        self.n, rook, self.queen = R.polyomino(self.cells)
        self.m = R.Map(self.n, rook, self.cells)
        self.rows = K.ids(self.n, 1)
        self.obj = objective(c, self.rows)

    def args(self, via):
        v, m, col = self.v, self.m, {"x": self.rows[:, 0].tolist()}
        return {"csr": lambda: (m.csr(), self.rows), "fit": lambda: (m.csr(), self.rows),
                "dict": lambda: (m.dict(v), m.values(self.rows, v)),
                "w": lambda: (m.w(v), self.rows), "graph": lambda: (m.graph(v, **col), "x"),
                "gdf": lambda: (m.gdf(v, **col), "x")}[via]()

    def call(self, model, via):
        return getattr(model, {"csr": "fit_from_scipy_sparse_matrix", "fit": "fit",
                               "dict": "fit_from_dict", "w": "fit_from_w",
                               "graph": "fit_from_networkx",
                               "gdf": "fit_from_geodataframe"}[via], None)

    def initial(self, via, lab):
        if via == "dict":
            return self.m.values(np.array(lab), self.v, flat=True)
        return np.array(lab)


def h_cooling(c, cube):
    """Any cooling factor."""
    e = Entry(c)
    f = c.real("cooling")
    c.assume(f >= -2)
    c.assume(f <= 3)
    m = H.make("sa")
    call = e.call(m, cube["via"])
    if call is None:
        c.reach("accepted")
        return
    got = outcome(c, lambda: call(*e.args(cube["via"]), 2, cooling_factor=f,
                                  objective_func=e.obj), "fit")
    judge(c, c.both(f > 0, f < 1), got, m, "cooling factor")


def h_values(c, cube):
    """Parameters of the algorithms."""
    from region.p_regions import azp as A
    e = Entry(c)
    case = c.choose(3, "case")
    if case == 0:
        v = (-3, -1, 0, 1, 2, 7)[c.choose(6, "maxit")]
        what, valid = "max_iterations=%r" % v, v > 0

        def new():
            return A.AZPReactiveTabu(max_iterations=v, k1=1, k2=1, random_state=1)
    elif case == 1:
        v = (-1, 0, 1, 5, 1.5, "1", None, np.int64(2))[c.choose(8, "term")]
        what = "sa_moves_term=%r" % (v,)
        valid = isinstance(v, (int, np.integer)) and v >= 1

        def new():
            return A.AZPSimulatedAnnealing(init_temperature=1, sa_moves_term=v, random_state=1)
    else:
        v = (-1, 0, 1, 5, None)[c.choose(5, "tabu")]
        what, valid = "tabu_length=%r" % v, v is None or v >= 0

        def new():
            return A.AZPBasicTabu(tabu_length=v, random_state=1)
    box = []

    def run():
        box.append(new())
        call = e.call(box[0], cube["via"])
        if call is None:
            call = box[0].fit_from_scipy_sparse_matrix
            return call(*e.args("csr"), 2, objective_func=e.obj)
        call(*e.args(cube["via"]), 2, objective_func=e.obj)
    judge(c, valid, outcome(c, run, "fit"), box[0] if box else None, what)


def h_passed(c, cube):
    """Every entry point checks the initial labels and the number of regions."""
    e = Entry(c, c.choose(3, "v"))
    via = cube["via"]
    m = H.make(cube["est"])
    call = e.call(m, via)
    if call is None:
        return
    lab, p = (([0, 0, 1, 1], 2), ([0, 1, 0, 1], 2), ([0, 0, 1, 1], 3), ([0, 0, 1, 2], 3),
              ([0, 0, 1, 0], 2), (None, 0), (None, 5), (None, 4))[c.choose(8, "lab")]
    kw = {}
    args = e.args(via)
    if lab is not None:
        if via == "graph":
            ks = R.keys(e.n, e.v)
            kw["initial_labels"] = {ks[i]: lab[i] for i in range(e.n)}
            if c.flag("by_name"):
                import networkx as nx
                nx.set_node_attributes(args[0], kw["initial_labels"], "lab")
                kw["initial_labels"] = "lab"
        else:
            kw["initial_labels"] = e.initial(via, lab)
    got = outcome(c, lambda: call(*args, p, objective_func=e.obj, **kw), "fit")
    valid = 1 <= p <= 4 if lab is None else (
        len(set(lab)) == p and K.contiguous(lab, e.m.adj))
    judge(c, valid, got, m, "%s: initial labels %s for %d regions" % (via, lab, p))


def estimator(c, e, est):
    """(model, call(via, *spatial arguments...))"""
    from region.max_p_regions.exact import MaxPRegionsExact
    from region.max_p_regions.heuristics import MaxPRegionsHeu
    from region.p_regions.exact import PRegionsExact
    if est == "exact":
        return PRegionsExact(), dict(metric=start), False
    if est == "maxpexact":
        return MaxPRegionsExact(), dict(metric=start), True
    if est == "maxp":
        return MaxPRegionsHeu(random_state=1), dict(objective_func=e.obj), True
    return H.make(est), dict(objective_func=e.obj), False


def h_dict(c, cube):
    """Dictionaries with other keys, or no dictionaries."""
    est = cube["est"]
    v = c.choose(3, "v")
    e = Entry(c, v)
    m, kw, maxp = estimator(c, e, est)
    ks = R.keys(e.n, v)
    nb, at = e.m.dict(v), e.m.values(e.rows, v)
    sp = {k: 1 for k in ks}
    case = c.choose(11, "case")
    who = ks[c.choose(e.n, "who")]
    other = ("new",) if isinstance(who, tuple) else "zz" if isinstance(who, str) else 99
    strict = est in ("exact", "maxpexact", "maxp")
    kind, valid = ValueError if strict else Exception, False
    if case == 0:
        valid = True
    elif case == 1:
        del at[who]
    elif case == 2:
        at[other] = at[who]
        valid = None if not strict else False
    elif case == 3:
        del nb[who]
        kind = Exception
    elif case in (4, 5):
        if not strict:      # nothing is documented
            return
        at, nb = (at, [nb[k] for k in ks]) if case == 5 else ([at[k] for k in ks], nb)
    elif case == 6:
        at[who] = [1.0, 2.0] if len(np.atleast_1d(at[who])) == 1 else [1.0]
        kind = Exception
    elif case == 7:
        if not maxp:
            return
        del sp[who]
    elif case == 8:
        if not maxp:
            return
        sp = [1] * e.n
    elif case == 9:
        at[other] = at.pop(who)
    else:
        if not maxp:
            return
        sp[other] = sp.pop(who)
    args = (nb, at, sp, 2) if maxp else (nb, at, 2)
    got = outcome(c, lambda: m.fit_from_dict(*args, **kw), "fit_from_dict")
    if valid is None:
        return
    judge(c, valid, got, m, "fit_from_dict, case %d" % case, kind)


def h_graph(c, cube):
    """Attributes that nodes lack, or no names."""
    est = cube["est"]
    v = c.choose(2, "v")
    e = Entry(c, v)
    m, kw, maxp = estimator(c, e, est)
    ks = R.keys(e.n, v)
    g = e.m.graph(v, x=e.rows[:, 0].tolist(), y=[3.0, 1.0, 4.0, 1.5], s=[1, 1, 1, 1],
                  lab=[0, 0, 1, 1])
    who = ks[c.choose(e.n, "who")]
    case = c.choose(9, "case")
    attr, sp, valid, kind = "x", "s", False, Exception
    if case == 0:
        valid, attr = True, ("x", ["x"])[v]
    elif case == 1:
        attr = "unknown"
    elif case == 2:
        attr = ("x", "unknown")
    elif case == 3:
        attr = BAD_ATTR[c.choose(len(BAD_ATTR), "attr")]
        kind = ValueError
    elif case == 4:
        del g.nodes[who]["x"]
    elif case == 5:
        attr = ["y", "x"]
        del g.nodes[who]["x"]
        del g.nodes[ks[(ks.index(who) + 1) % e.n]]["y"]
    elif case == 6:
        attr = {k: 1.0 for k in ks if k != who}
        if not isinstance(attr, dict):
            return
    elif case == 7:
        if not maxp:
            return
        del g.nodes[who]["s"]
    else:
        if maxp or est == "exact":
            return
        kw["initial_labels"] = ("lab", "nolab")[c.choose(2, "lab")]
        valid = kw["initial_labels"] == "lab"
    args = (g, attr, sp, 2) if maxp else (g, attr, 2)
    got = outcome(c, lambda: m.fit_from_networkx(*args, **kw), "fit_from_networkx")
    judge(c, valid, got, m, "fit_from_networkx, case %d (%r)" % (case, attr), kind)


def h_gdf(c, cube):
    est = cube["est"]
    e = Entry(c, 1)
    m, kw, maxp = estimator(c, e, est)
    gdf = e.m.gdf(c.choose(2, "v"), x=e.rows[:, 0].tolist(), y=[3.0, 1.0, 4.0, 1.5],
                  s=[1, 1, 1, 1])
    case = c.choose(5, "case")
    attr, sp, valid, kind = "x", "s", False, ValueError
    if case == 0:
        kw["contiguity"] = CONT[c.choose(len(CONT), "contiguity")]
        valid = True
    elif case == 1:
        kw["contiguity"] = BAD_CONT[c.choose(len(BAD_CONT), "contiguity")]
    elif case == 2:
        attr = BAD_ATTR[c.choose(len(BAD_ATTR), "attr")]
    elif case == 3:
        attr = (["x", 1], [2], ["y", None])[c.choose(3, "attr")]
    else:
        attr, kind = ("unknown", ["x", "unknown"])[c.choose(2, "attr")], Exception
    args = (gdf, attr, sp, 2) if maxp else (gdf, attr, 2)
    got = outcome(c, lambda: m.fit_from_geodataframe(*args, **kw), "fit_from_geodataframe")
    judge(c, valid, got, m, "fit_from_geodataframe, %r, %r" % (attr, kw.get("contiguity")), kind)


N_REGIONS = (1, 2, 4, np.int64(3), np.int8(1), 0, -1, 5, 7, 2.0, 1.5, "2", None, [2])
METHODS = ("flow", "order", "tree", "Flow", "ORDER", "tRee", "", "flows", "flow ", "relax", None, 1,
           ["flow"])


def h_exactargs(c, cube):
    """Numbers of regions, methods and solvers of the exact formulations."""
    from region.max_p_regions.exact import MaxPRegionsExact
    from region.p_regions.exact import PRegionsExact
    via = cube["via"]
    e = Entry(c, 1)
    case = c.choose(4, "case")
    p, kw, valid = 2, dict(metric=start), True
    m = MaxPRegionsExact() if case == 3 else PRegionsExact()
    if case == 0:
        p = N_REGIONS[c.choose(len(N_REGIONS), "n_regions")]
        valid = isinstance(p, (int, np.integer)) and 1 <= p <= 4
    elif case == 1:
        kw["method"] = METHODS[c.choose(len(METHODS), "method")]
        valid = str(kw["method"]).lower() in ("flow", "order", "tree")
    else:
        kw["solver"] = (SOLVERS + BAD_SOLVERS)[c.choose(len(SOLVERS + BAD_SOLVERS), "solver")]
        valid = kw["solver"] in SOLVERS
    args = e.args(via)
    if case == 3:
        sp = {"dict": lambda: e.m.values(np.ones((4, 1)), 1), "graph": lambda: "s",
              "gdf": lambda: "s"}.get(via, lambda: np.ones((4, 1)))()
        if via == "graph":
            for node in args[0]:
                args[0].nodes[node]["s"] = 1
        if via == "gdf":
            args[0]["s"] = 1
        args += (sp,)
    got = outcome(c, lambda: e.call(m, via)(*args, p, **kw), "fit")
    judge(c, valid, got, m, "%s: n_regions=%r, %r" % (via, p, kw))


def h_metric(c, cube):
    """Names of metrics, wherever one is given."""
    from region.max_p_regions.exact import MaxPRegionsExact
    from region.objective_function import ObjectiveFunctionPairwise
    from region.p_regions.exact import PRegionsExact
    from region.util import get_metric_function
    names = METRICS + BAD_METRICS
    q = c.choose(len(names), "metric")
    where = c.choose(4, "where")
    e = Entry(c)
    m = None
    if where == 0:
        def f():
            c.check(callable(get_metric_function(names[q])), "no metric")
    elif where == 1:
        def f():
            c.check(callable(ObjectiveFunctionPairwise(names[q]).metric), "no metric")
    else:
        if names[q] is None:
            return
        m = (PRegionsExact if where == 2 else MaxPRegionsExact)()

        def f():
            a = (e.m.csr(), e.rows) + ((2,) if where == 2 else (np.ones((4, 1)), 2))
            if q < len(METRICS):
                c.notes["status"] = -1      # it is enough to see the solver called
                try:
                    m.fit_from_scipy_sparse_matrix(*a, metric=names[q])
                except ValueError as x:
                    if "metric" in str(x):
                        raise
            else:
                m.fit_from_scipy_sparse_matrix(*a, metric=names[q])
    judge(c, q < len(METRICS), outcome(c, f, "metric"), m, "metric %r" % (names[q],))


def h_solver(c, cube):
    from region.util import check_solver
    names = SOLVERS + BAD_SOLVERS
    q = c.choose(len(names), "solver")
    judge(c, q < len(SOLVERS), outcome(c, lambda: check_solver(names[q]), "solver"), None,
          "solver %r" % (names[q],))


def h_strategy(c, cube):
    """Only strategies guide AZP; only functions are told about moves."""
    from region.p_regions.azp import AZP
    from region.p_regions.azp_util import AllowMoveAZP, AllowMoveAZPSimulatedAnnealing
    case = c.choose(3, "case")
    if case == 0:
        v = (None, AllowMoveAZP(), "AZP", 3, AllowMoveAZP, start)[c.choose(6, "strategy")]
        got = outcome(c, lambda: AZP(allow_move_strategy=v), "AZP")
        judge(c, v is None or isinstance(v, AllowMoveAZP), got, None, "strategy %r" % (v,))
    else:
        v = (start, "start", None, 4, print)[c.choose(5, "observer")]
        s = AllowMoveAZPSimulatedAnnealing(1.0, 3)
        f = s.register_move_made if case == 1 else s.register_sa_moves_term
        judge(c, callable(v), outcome(c, lambda: f(v), "register"), None, "observer %r" % (v,))


def h_skater(c, cube):
    """Scores and cuts that ask for what is not there."""
    from region.skater.skater import Spanning_Forest
    from scipy.sparse import csr_matrix
    sf = Spanning_Forest()
    data = K.ids(3, 1)
    forest = csr_matrix(np.array([[0, 1., 0], [0, 0, 1.], [0, 0, 0]]))
    case = c.choose(4, "case")
    lab = np.array([0, 0, 0])
    f = [lambda: sf.score(data),
         lambda: sf.find_cut(forest.copy(), data, labels=lab),
         lambda: sf.find_cut(forest.copy(), data, target_label=0),
         lambda: sf.find_cut(forest.copy(), data, labels=lab, target_label=0)][case]
    judge(c, case == 3, outcome(c, f, "skater"), None, "case %d" % case)


FUNCS = ["AZP, AZPSimulatedAnnealing, AZPBasicTabu, AZPReactiveTabu, MaxPRegionsHeu, PRegionsExact, "
         "MaxPRegionsExact (constructors, fit_from_*)", "assert_feasible", "generate_initial_sol",
         "get_metric_function", "check_solver", "w_from_gdf", "array_from_graph_or_dict",
         "array_from_df_col", "array_from_dict_values", "dict_from_graph_attr",
         "Spanning_Forest.score, find_cut"]
BOUNDS = {
    "quick": "initial labels: every graph on 2-4 areas (one symbolic bit per pair), every partition, "
             "n_regions right or one off; number of regions: every graph on up to 3 areas; "
             "thresholds: arbitrary nonnegative attributes and thresholds, graphs on 3-4 areas up "
             "to isomorphism; every cooling factor in [-2, 3]; listed names and values otherwise, "
             "through each entry point",
    "thorough": "as quick with up to 5 areas for initial labels and 4 for numbers of regions",
}
ASSUME = ["an argument counts as accepted once the algorithm evaluates a solution or a "
          "dissimilarity", "real arithmetic instead of floating point"]
REACH = ["accepted", "rejected"]
