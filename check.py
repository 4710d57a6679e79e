#!/opt/venv/bin/python
"""Decide one property by deterministic simulation: check.py C01 [--tier quick|thorough] [--seed N] [--runs N]
[--replay FILE]. Exit 0: it held on everything explored. Exit 1: a VIOLATION line names the replay file.
Exit 2: no answer (the tree does not build, or the harness itself failed)."""

import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


def main():
    sys.path.insert(0, HERE)
    sys.dont_write_bytecode = True
    import time
    t0 = time.time()
    from sim import build
    prop = sys.argv[1]
    parts = {"C11": ["io", "fortran"], "C12": ["io", "fortran"], "C20": ["io", "fortran", "probe"], "C13": ["io", "batch"]}.get(prop, ["io", "py"])
    try:
        built = {p: build.ensure(p) for p in parts if p != "probe"}
    except Exception as e:
        print("BUILD FAILED: %s" % e, file=sys.stderr)
        return 2
    if "probe" in parts:
        try:
            built["probe"] = build.ensure("probe")
        except Exception as e:  # the probe knows the names of the program's module data, which are not ours to hold fast
            print("the probe does not build against this tree, the program itself is run instead: %s" % e, file=sys.stderr)
    env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "OMP_", "LD_"))}
    env.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               MKL_NUM_THREADS="1", LC_ALL="C.UTF-8", LANG="C.UTF-8", TZ="UTC", HDF5_USE_FILE_LOCKING="FALSE",
               LD_PRELOAD=os.path.join(built["io"], "simio.so"), SIM_BUILT=repr(built), SIM_T0=repr(t0))
    os.execve(PY, [PY, "-W", "ignore", os.path.join(HERE, "sim", "runner.py")] + sys.argv[1:], env)


if __name__ == "__main__":
    sys.exit(main())
