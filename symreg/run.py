"""python -m symreg.run <PROPERTY-ID>: decide one property on /repo's tree."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
PY = sys.executable
NPROC = int(os.environ.get("SYMREG_PROCS", "8"))

_prop = None
_cubes = None
_budget = None


def load(pid):
    return importlib.import_module("symreg.props." + pid.lower())


def _worker(i):
    from symreg import engine, env
    stats = engine.Stats()
    t = time.time()
    out = []
    err = None
    weak = None
    samples = []
    opts = dict(getattr(_prop, "OPTIONS", {}))
    opts.update(_cubes[i].get("_opts", {}))
    opts["budget"] = _budget
    try:
        out = engine.explore(_prop.harness, _cubes[i], stats, samples=samples, **opts)
    except engine.Control as e:
        weak = "%s: %s" % (type(e).__name__, e)
        if isinstance(e, engine.Unsupported):
            weak += " @ " + " < ".join(
                "%s:%d" % (os.path.basename(f.filename), f.lineno)
                for f in reversed(traceback.extract_tb(e.__traceback__)[-6:]))
    except Exception:
        err = "harness error: " + traceback.format_exc(limit=-8)
    if weak:
        out, err = _degraded(i, stats, weak)
    return i, out, dict(stats), err, time.time() - t, samples, weak


def _value(seed):
    mod = (9, 3, 2)[seed % 3]       # many ties in some of them

    def f(name):
        from fractions import Fraction
        h = hashlib.sha1(repr((seed, name)).encode()).digest()
        return Fraction(h[0] % mod + 1)
    return f


def _degraded(i, stats, weak):
    """The code does something to a symbolic number that the encoding cannot
    follow: decide the cube for seeded numbers only (all choices and draws stay
    arbitrary).  The evidence says so."""
    from symreg import engine, env
    opts = dict(getattr(_prop, "OPTIONS", {}))
    opts.update(_cubes[i].get("_opts", {}), validate=0, max_paths=400)
    if weak.startswith("Unsupported: float()"):
        # new arrays of floats become arrays of objects (a fresh stats: the
        # paths above do not count)
        try:
            again = engine.Stats()
            env.object_arrays(True)
            out = engine.explore(_prop.harness, _cubes[i], again,
                                 **dict(opts, budget=_budget))
            stats.merge(again)
            return out, None
        except Exception:
            pass
        except engine.Control:
            pass
        finally:
            env.object_arrays(False)
    stats["degraded"] = stats.get("degraded", 0) + 1
    for seed in range(3):
        try:
            out = engine.explore(_prop.harness, _cubes[i], stats, pin_default=_value(seed), **opts)
        except engine.Control:
            continue
        except Exception:
            return [], "harness error: " + traceback.format_exc(limit=-8)
        if out:
            return out, None
    return [], None


def _pinned(i, asg):
    """A counterexample that does not happen on the real code, because exp() is
    an uninterpreted function or because the code treats proxies unlike floats:
    decide the cube again at its numbers, with plain floats."""
    from fractions import Fraction
    from symreg import engine
    pin = {k: Fraction(*v) for k, v in asg["vals"].items() if not k.startswith("u")}
    opts = dict(getattr(_prop, "OPTIONS", {}))
    opts.update(_cubes[i].get("_opts", {}), pin=pin, validate=0, max_paths=3000)
    out = sys.stdout
    r = []
    try:
        _init()
        for numbers, default in ((pin, None), (pin, _value(0)), ({}, _value(0)),
                                 ({}, _value(1)), ({}, _value(2))):
            opts.update(pin=numbers, budget=20)
            try:
                r = engine.explore(_prop.harness, _cubes[i], engine.Stats(), pin_default=default,
                                   **opts)
            except BaseException:
                r = []
            if r:
                break
    finally:
        sys.stdout = out
    return r[0] if r else None


def _init():
    from symreg import env
    env.silence()
    os.chdir(tempfile.gettempdir())


def replay_file(pid, cube, asg, msg, info):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": pid, "cube": cube, "assignment": asg, "message": msg, "info": info}
    h = hashlib.sha1(json.dumps(body, sort_keys=True).encode()).hexdigest()[:10]
    p = os.path.join(d, "%s-%s.json" % (pid, h))
    with open(p, "w") as f:
        json.dump(body, f, indent=1)
    return p


def replay(path, timeout=90):
    """Run the recorded counterexample on the real code in a fresh process."""
    try:
        r = subprocess.run([PY, "-W", "ignore", "-m", "symreg.replay", path], cwd=ROOT,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True)
    except subprocess.TimeoutExpired:
        return None, "timeout"
    lines = [x for x in r.stdout.splitlines() if x.startswith("REPLAY ")]
    return (r.returncode == 1 and bool(lines) and lines[-1].startswith("REPLAY violated")), \
        (lines[-1] if lines else r.stdout[-600:])


def known(pid):
    out = []
    p = os.path.join(ROOT, "known_findings.jsonl")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if not line or line.startswith("fixed:"):
                    continue
                e = json.loads(line)
                if e.get("property") == pid and e.get("status") == "finding":
                    out.append(e)
    return out


def matches(entry, cube, msg):
    m = entry["match"]
    if m.get("message") and m["message"] not in msg:
        return False
    return all(cube.get(k) == v for k, v in m.get("cube", {}).items())


def main():
    global _prop, _cubes, _budget
    t0 = time.time()
    pid = sys.argv[1].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    from symreg import engine, env
    env.install(True)
    _prop = load(pid)
    _cubes = _prop.cubes(tier, seed)
    order = sorted(range(len(_cubes)), key=lambda i: -_weight(_cubes[i]))
    limit = float(os.environ.get("SYMREG_LIMIT", "720" if tier == "quick" else "7200"))
    _budget = limit / 4
    stats = engine.Stats()
    errors, weaker, unrepro, found, knownhits = [], [], [], None, {}
    partial = []
    samples, times = [], []
    done = 0
    mp.set_start_method("fork")
    pool = mp.Pool(min(NPROC, max(1, len(order))), initializer=_init, maxtasksperchild=64)
    ents = known(pid)
    nrep = 0
    try:
        it = pool.imap_unordered(_worker, order)
        while done < len(order):
            try:
                left = limit - (time.time() - t0)
                if left <= 0:
                    raise mp.TimeoutError()
                i, out, st, err, dt, smp, weak = it.next(timeout=left)
            except mp.TimeoutError:
                partial.append("time limit of %.0f s reached with %d of %d cubes done"
                              % (limit, done, len(order)))
                break
            done += 1
            stats.merge(st)
            if st.get("incomplete"):
                partial.append("cube %s: not all paths within %.0f s (%d explored)"
                               % (json.dumps(_short(_cubes[i])), _budget, st["paths"]))
            times.append((dt, i, st["paths"]))
            if smp and len(samples) < 6:
                samples.append({"cube": _short(_cubes[i]), "path": smp[0]})
            if weak:
                weaker.append("cube %s: %s" % (json.dumps(_short(_cubes[i])), weak))
            if err:
                errors.append("cube %s: %s" % (json.dumps(_short(_cubes[i])), err))
            for asg, msg, info in out:
                p = replay_file(pid, _cubes[i], asg, msg, info)
                nrep += 1
                ok, detail = replay(p)
                if ok:
                    ent = next((e for e in ents if matches(e, _cubes[i], msg)), None)
                    if ent is not None:
                        knownhits.setdefault(ent["what"], p)
                        continue
                    found = (p, msg, detail)
                    break
                again = _pinned(i, asg) if len(unrepro) < 8 else None
                if again:
                    p = replay_file(pid, _cubes[i], *again)
                    ok, detail = replay(p)
                    if ok:
                        found = (p, again[1], detail)
                        break
                unrepro.append((p, msg, detail))
            if found or len(unrepro) > 25:
                break
    finally:
        pool.terminate()
        pool.join()
    wall = time.time() - t0
    write_evidence(pid, tier, seed, stats, done, len(order), wall, found, errors, weaker,
                   unrepro, samples, knownhits, partial)
    times.sort(reverse=True)
    sys.stdout.write("%s %s: cubes %d/%d paths %d (cut %d) decisions %d choices %d queries %d "
                     "obligations %d discharged %d solver %.1fs validated %d (skipped %d, "
                     "mismatch %d) wall %.1fs slowest %s\n" % (
                         pid, tier, done, len(order), stats["paths"], stats["paths_cut"],
                         stats["decisions"], stats["choices"], stats["queries"],
                         stats["obligations"], stats["discharged"], stats["solver_s"],
                         stats["validated"], stats["validated_skipped"], stats["mismatch"],
                         wall, [(round(t, 1), _short(_cubes[i])) for t, i, _ in times[:2]]))
    if os.environ.get("SYMREG_VERBOSE"):
        print("cpu in cubes %.0f s" % sum(t for t, _, _ in times))
        for t, i, n in times[:int(os.environ["SYMREG_VERBOSE"])]:
            print("  %.1fs %d paths %s" % (t, n, json.dumps(_short(_cubes[i]))))
        for k, v in sorted(stats["reach"].items(), key=str)[:40]:
            print("  reach", k, v)
    for what in knownhits:
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    if found:
        print("violated: %s" % found[1])
        print("replay on the real code: %s" % found[2])
        print("VIOLATION property=%s replay=%s" % (pid, found[0]))
        return 1
    for e in errors[:8]:
        print("INCONCLUSIVE: %s" % e)
    for e in partial[:8]:
        print("NOT EXPLORED COMPLETELY: %s" % e)
    for e in weaker[:8]:
        print("DECIDED FOR SEEDED NUMBERS ONLY: %s" % e)
    for p, m, d in unrepro[:8]:
        print("NOT REPRODUCED: %s %s (%s)" % (m, p, d))
    need = getattr(_prop, "REACH", [])
    missing = [r for r in need if not stats["reach"].get(r)]
    partial = partial or weaker or unrepro or errors      # then something may well not be reached
    if missing and not errors and not partial:
        print("VACUOUS: never reached: %s" % missing)
    strict = os.environ.get("SYMREG_STRICT")
    if len(errors) > (0 if strict else len(order) // 2) or (missing and not partial) or stats["obligations"] == 0 or \
            (strict and (weaker or unrepro or partial)):
        return 2
    return 0


def _weight(c):
    """Start the cubes that are likely to take long first."""
    if "w" in c:
        return c["w"]
    return 3 * len(c.get("edges", ())) + c.get("n", 0) + (4 if "abstract" in c else 0)


def _short(c):
    s = {k: v for k, v in c.items() if not k.startswith("_")}
    return s


def write_evidence(pid, tier, seed, stats, done, total, wall, found, errors, weaker, unrepro,
                   samples, knownhits, partial):
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    bounds = _prop.BOUNDS
    if isinstance(bounds, dict):
        bounds = bounds.get(tier)
    reach = {str(k): v for k, v in stats["reach"].items() if not str(k).startswith("mismatch")}
    cov = {
        "states": stats["paths"] + stats["decisions"] + stats["choices"],
        "transitions": stats["decisions"] + stats["choices"],
        "traces_validated_against_impl": stats["validated"],
        "samples": samples[:4] or [{"note": "no completed path"}],
        "obligations": stats["obligations"],
        "discharged": stats["discharged"],
        "explanation": _prop.EXPLAIN if hasattr(_prop, "EXPLAIN") else
        "forking symbolic execution of the real functions; every obligation is a z3 query "
        "asking for a violating assignment under the path condition",
        "exhaustive": bool(done == total and not errors and not weaker and not unrepro and
                           not found and not partial),
        "functions_encoded": _prop.FUNCS,
        "bounds": bounds,
        "symbolic_paths": stats["paths"],
        "paths_leaving_bounds": stats["paths_cut"],
        "solver_decided_branches": stats["decisions"],
        "nondeterministic_forks": stats["choices"],
        "solver_queries": stats["queries"],
        "solver_seconds": round(stats["solver_s"], 2),
        "obligations_constant_true": stats["const_discharged"],
        "cubes_done": done,
        "cubes_total": total,
        "concrete_validation_skipped": stats["validated_skipped"],
        "concrete_validation_mismatches": stats["mismatch"],
        "reachability_witnesses": dict(sorted(reach.items())[:40]),
        "inconclusive": errors[:5],
        "not_explored_completely": partial[:5],
        "decided_for_seeded_numbers_only": weaker[:5],
        "unreproduced": [m for _, m, _ in unrepro[:5]],
        "known_findings_seen": sorted(knownhits),
    }
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick",
          "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": list(_prop.ASSUME), "wall_s": round(wall, 2),
          "violations": 1 if found else 0}
    p = os.path.join(d, pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(p + ".tmp", p)


if __name__ == "__main__":
    sys.exit(main())
