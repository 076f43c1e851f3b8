"""Load the z3 Python bindings of the tooling venv into the interpreter that
has the repository's dependencies (/opt/venv), without putting any other
package of the tooling venv on the path."""
import glob
import importlib.util
import os
import sys

_CANDIDATES = ["/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"]
_CANDIDATES += sorted(glob.glob(
    "/opt/veriftools/pyvenv/lib/python3*/site-packages/z3"))


def load():
    if "z3" in sys.modules:
        return sys.modules["z3"]
    try:
        import z3
        return z3
    except ImportError:
        pass
    for d in _CANDIDATES:
        init = os.path.join(d, "__init__.py")
        if os.path.exists(init):
            spec = importlib.util.spec_from_file_location(
                "z3", init, submodule_search_locations=[d])
            mod = importlib.util.module_from_spec(spec)
            sys.modules["z3"] = mod
            spec.loader.exec_module(mod)
            return mod
    raise RuntimeError("z3 bindings not found")


z3 = load()
