"""Builds what the simulator runs from /repo's working tree, into a content-addressed folder under /verif/.work/.

The repository is Python 2. As the sandbox's own build does, the Python parts are mirrored through the standard library's
lib2to3 into a Python 3 tree, the two Cython extensions are compiled, and the Fortran program is built with CMake. Nothing
in /repo is written. Only Python and standard library here: this runs before anything else."""

import fcntl
import hashlib
import multiprocessing
import os
import shutil
import subprocess
import sys
import sysconfig
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
WORK = os.path.join(VERIF, ".work")
NAMES = ["harmonisation_eiv", "tools", "harmonisation_meiv_demo"]
SKIP_DIRS = {"build", "__pycache__", ".pytest_cache", ".ipynb_checkpoints", "tests", "docs", "data", ".git"}
SKIP_EXT = (".pyc", ".pyd", ".so", ".c", ".o", ".ipynb", ".png", ".pdf", ".log")
PART_OF = {"harmonisation_eiv": "py", "tools": "py", "harmonisation_meiv_demo": "fortran"}


def sources(part):
    for name in NAMES:
        if PART_OF[name] != {"probe": "fortran"}.get(part, part):
            continue
        for folder, dirs, files in os.walk(os.path.join(REPO, name)):
            dirs[:] = sorted(d for d in dirs if d not in SKIP_DIRS and not d.endswith(".egg-info"))
            for file in sorted(files):
                if not file.endswith(SKIP_EXT):
                    yield os.path.relpath(os.path.join(folder, file), REPO)


def digest(part):
    h = hashlib.sha256()
    if part in ("io", "batch"):
        for f in ({"io": "simio.c", "batch": "batchstub.c"}[part],):
            h.update(open(os.path.join(VERIF, "sim", f), "rb").read())
        return h.hexdigest()[:20]
    h.update(open(os.path.abspath(__file__), "rb").read())
    if part == "probe":
        h.update(open(os.path.join(VERIF, "sim", "probe.F90"), "rb").read())
    for rel in sources(part):
        h.update(rel.encode() + b"\0")
        with open(os.path.join(REPO, rel), "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


_tool = None


def _convert(args):
    """One .py file through lib2to3; returns an error text or None."""
    global _tool
    path, out = args
    warnings.simplefilter("ignore")
    from lib2to3 import refactor
    from lib2to3.fixes import fix_asserts, fix_import
    if _tool is None:
        if "assertItemsEqual" not in fix_asserts.NAMES:
            fix_asserts.NAMES["assertItemsEqual"] = "assertCountEqual"
            fix_asserts.FixAsserts.PATTERN = fix_asserts.FixAsserts.PATTERN.replace("meth=(", "meth=('assertItemsEqual'|", 1)

        def local_import(self, name):
            folder, name = os.path.dirname(self.filename), name.split(".", 1)[0]
            if not name or not os.path.exists(os.path.join(folder, "__init__.py")):
                return False
            return any(os.path.exists(os.path.join(folder, name + ext)) for ext in (".py", ".pyx", os.sep))

        fix_import.FixImport.probably_a_local_import = local_import
        _tool = refactor.RefactoringTool(refactor.get_fixers_from_package("lib2to3.fixes") + ["lib2to3.fixes.fix_asserts"],
                                         {}, explicit=["lib2to3.fixes.fix_asserts"])
    err = None
    with open(path, "rb") as f:
        data = f.read()
    try:
        text = data.decode("utf-8").replace("\r\n", "\n")
        if text.strip():
            text = str(_tool.refactor_string(text if text.endswith("\n") else text + "\n", path))
        compile(text, path, "exec")
    except Exception as e:
        err = "%s: %s: %s" % (path, type(e).__name__, e)
        text = "raise SyntaxError(%r)\n" % err
    with open(out, "w", encoding="utf-8") as f:
        f.write(text)
    return err


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise RuntimeError("%s failed:\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))


def _cython(pyx):
    import numpy
    base = pyx[:-4]
    run([os.path.join(os.path.dirname(sys.executable), "cython"), "-2", "-o", base + ".c", pyx])
    run(["gcc", "-O1", "-w", "-fPIC", "-shared", "-o", base + sysconfig.get_config_var("EXT_SUFFIX"), base + ".c",
         "-I" + sysconfig.get_paths()["include"], "-I" + numpy.get_include()])
    os.remove(base + ".c")


def build_py(dst):
    jobs, pyx = [], []
    for rel in sources("py"):
        out = os.path.join(dst, rel)
        os.makedirs(os.path.dirname(out), exist_ok=True)
        if rel.endswith(".py"):
            jobs.append((os.path.join(REPO, rel), out))
        else:
            shutil.copyfile(os.path.join(REPO, rel), out)
            shutil.copymode(os.path.join(REPO, rel), out)
            if rel.endswith(".pyx") and "sensor_data" not in rel:
                pyx.append(out)
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with multiprocessing.Pool(min(8, os.cpu_count() or 1)) as pool:
        a = pool.map_async(_convert, jobs, chunksize=1)
        b = pool.map_async(_cython, pyx, chunksize=1)
        bad = [e for e in a.get() if e]
        b.get()
    if bad:
        raise RuntimeError("\n".join(bad))


def build_fortran(dst):
    src = os.path.join(dst, "src")
    for rel in sources("fortran"):
        out = os.path.join(src, os.path.relpath(rel, "harmonisation_meiv_demo"))
        os.makedirs(os.path.dirname(out), exist_ok=True)
        shutil.copyfile(os.path.join(REPO, rel), out)
    env = dict(os.environ, FC="gfortran", CC="gcc")
    run(["cmake", "-S", src, "-B", os.path.join(dst, "bin"), "-DNETCDF_Fortran_MODULE=/usr/include/netcdf.mod"], env=env)
    run(["cmake", "--build", os.path.join(dst, "bin")], env=env)


def build_probe(dst):
    """The demonstration's own objects with another main program: sim/probe.F90."""
    bin_ = os.path.join(ensure("fortran"), "bin")
    objects, mods = [], bin_
    for folder, dirs, files in os.walk(bin_):
        if any(f == "mod_reader.mod" for f in files):
            mods = folder
        if "harmonisation-demo.dir" in folder:
            objects += [os.path.join(folder, f) for f in sorted(files) if f.endswith(".o")]
    out = os.path.join(dst, "bin")
    os.makedirs(out)
    mine = []
    for k, o in enumerate(objects):
        c = os.path.join(out, "%d.o" % k)
        run(["objcopy", "--redefine-sym", "MAIN__=demo_MAIN__", "--redefine-sym", "main=demo_main", o, c])
        mine.append(c)
    run(["gfortran", "-O1", "-w", "-ffree-line-length-none", "-I" + mods, "-J" + out, "-o", os.path.join(out, "probe"),
         os.path.join(VERIF, "sim", "probe.F90")] + mine + ["-lnetcdff", "-lnetcdf"])
    for c in mine:
        os.remove(c)


def build_batch(dst):
    out = os.path.join(dst, "bin")
    os.makedirs(out, exist_ok=True)
    run(["gcc", "-O1", "-w", "-o", os.path.join(out, "stub"), os.path.join(VERIF, "sim", "batchstub.c")])


def build_io(dst):
    os.makedirs(dst, exist_ok=True)
    run(["gcc", "-O1", "-g", "-w", "-fPIC", "-shared", "-o", os.path.join(dst, "simio.so"),
         os.path.join(VERIF, "sim", "simio.c"), "-ldl", "-lpthread"])


def ensure(part):
    """The folder holding the built part for the tree as it is now."""
    os.makedirs(WORK, exist_ok=True)
    name = "%s-%s" % (part, digest(part))
    final = os.path.join(WORK, name)
    with open(os.path.join(WORK, "lock-" + part), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(final, ".done")):
            shutil.rmtree(final, ignore_errors=True)
            os.makedirs(final)
            {"py": build_py, "fortran": build_fortran, "io": build_io, "probe": build_probe, "batch": build_batch}[part](final)
            open(os.path.join(final, ".done"), "w").close()
            old = sorted((d for d in os.listdir(WORK) if d.startswith(part + "-") and d != name),
                         key=lambda d: os.path.getmtime(os.path.join(WORK, d)))
            for d in old[:-6]:
                shutil.rmtree(os.path.join(WORK, d), ignore_errors=True)
    return final


if __name__ == "__main__":
    for p in sys.argv[1:] or ["io", "py", "fortran"]:
        print(ensure(p))
