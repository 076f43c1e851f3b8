"""Replay one recorded counterexample on the real, unpatched code: only the
random draws are scripted.  Exit 1 and 'REPLAY violated' when the property is
broken by it, exit 0 when it is not."""
import json
import os
import sys
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)


def run_once(engine, prop, body, hang, scripted):
    import signal
    c = engine.ConcCtx(body["assignment"], strict=not hang)
    c.mip_scripted = scripted
    engine.set_ctx(c)
    signal.signal(signal.SIGALRM, engine._alarm)
    signal.setitimer(signal.ITIMER_REAL, 40)
    msg, rc = "holds", 0
    try:
        prop.harness(c, body["cube"])
    except engine.Violation as e:
        msg, rc = "violated: %s" % e, 1
    except engine.Hang:
        msg, rc = ("violated: the call does not return", 1) if hang else ("timeout", 3)
    except engine.Diverged as e:
        msg, rc = "diverged: %s" % e, 0
    except (engine.Control,) as e:
        msg, rc = "control: %s" % e, 0
    except Exception:
        msg, rc = "harness error: " + traceback.format_exc(limit=-4).replace("\n", " | "), 3
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        engine.set_ctx(None)
    return msg, rc


def plain(x):
    """Cubes hold tuples; JSON has lists only."""
    if isinstance(x, list):
        return tuple(plain(y) for y in x)
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    return x


def main():
    with open(sys.argv[1]) as f:
        body = json.load(f)
    body["cube"] = plain(body["cube"])
    from symreg import engine, env, run
    env.install(False)
    prop = run.load(body["property"])
    hang = "hang" in body["info"]
    out = sys.stdout
    env.silence()
    msg, rc = run_once(engine, prop, body, hang, False)
    if rc == 0 and body["assignment"].get("mip"):
        # another optimal solution of the same model
        msg, rc = run_once(engine, prop, body, hang, True)
    raw = body["assignment"].get("raw")
    if rc == 0 and raw and not hang:
        # without scaling the numbers to integers
        body["assignment"].update(vals=raw, scales={})
        msg, rc = run_once(engine, prop, body, hang, False)
    out.write("REPLAY " + msg + "\n")
    out.flush()
    return rc


if __name__ == "__main__":
    sys.exit(main())
