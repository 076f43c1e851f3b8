"""Developer aid: python -m symreg.dbg PROPERTY cube-index-or-range."""
import faulthandler
import sys
import time

from symreg import env, engine, run


def main():
    env.install(True)
    prop = run.load(sys.argv[1])
    tier = sys.argv[3] if len(sys.argv) > 3 else "quick"
    cubes = prop.cubes(tier, 1)
    a = sys.argv[2].split(":")
    idx = range(int(a[0]), int(a[1])) if len(a) == 2 else [int(a[0])]
    faulthandler.dump_traceback_later(int(sys.argv[4]) if len(sys.argv) > 4 else 60, exit=True)
    run._prop, run._cubes = prop, cubes
    out = sys.stdout
    for i in idx:
        env.silence()
        r = run._worker(i)
        sys.stdout = out
        st = r[2]
        print(i, run._short(cubes[i]), "viol", [(m, inf) for _, m, inf in r[1]], "err", r[3],
              {k: v for k, v in st.items() if v}, "t=%.2f" % r[4], flush=True)


main()
