"""C11 The Fortran harmonisation reports every I/O failure."""

import copy
import os
import shutil

from sim import faulty, fortran, world

ID = "C11"
LEVEL = "exploration"
RUNS = {"quick": 600, "thorough": 20000}
RULE = ("One case is one job of one to six generated match-up files, run undisturbed and then through a history of executions in "
        "the same folder, each with its own disk faults, crash, full disk, damaged input or clock. Non-trivial: at least one "
        "execution whose fault fired or whose input was damaged; distinct by (operation and fault, how it ended, shape of the job).")
REAL = ["the Fortran program (demo.F90 with its readers, writers, configuration and error handling), libgfortran, netCDF-Fortran/HDF5"]
STUB = ["the match-up data: synthetic", "the four sensors are the demonstration's own"]
ASSUMPTIONS = ["A process crash or failed call, not a crash of the machine: what was handed to the kernel stays.",
               "File existence tests (stat, access) are answered truthfully.",
               "The Fortran run-time library does not report a failed read within a namelist (it does report a premature end).",
               "A library that ends the process with a signal after a failed call counts as a failure status."]


def gen(rng, i, tier):
    case = fortran.gen(rng, big=rng.random() < 0.1)
    for d in case["ds"]:  # the netCDF library itself reads what is missing of a classic file as zeros
        if d["format"].startswith("NETCDF3"):
            d["format"] = "NETCDF4"
    steps = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        s = {"faults": [], "damage": None, "clock": None, "out": "/dev/null"}
        r = rng.random()
        if r < 0.3:
            s["faults"] = [faulty.write_error(rng)]
        elif r < 0.5:
            s["faults"] = [faulty.read_error(rng)]
        elif r < 0.6:
            s["faults"] = [faulty.crash_point(rng, late=rng.choice([None, 0.4]))]
        elif r < 0.68:
            s["faults"] = [faulty.read_error(rng), faulty.write_error(rng)]
        elif r < 0.9:
            s["damage"] = {"pick": rng.random(), "how": rng.choice(["cut", "cut", "cut", "empty", "gone", "byte"]), "at": rng.random()}
        else:
            s["out"] = rng.choice(["/dev/null", "/dev/full"])
        if rng.random() < 0.4:
            s["clock"] = {"start": rng.randrange(0, 4 * 10 ** 18), "step": rng.choice([1000, 10 ** 9, 86400 * 10 ** 9]),
                          "jumps": [[rng.randrange(40), rng.randrange(-10 ** 18, 10 ** 18)] for _ in range(rng.choice([0, 1, 2]))]}
        steps.append(s)
    return {"case": case, "steps": steps, "stale": rng.choice([None, None, "torn", "other"]), "again": rng.random() < 0.7}


def shrink(p):
    for k in range(len(p["steps"])):
        if len(p["steps"]) > 1:
            q = copy.deepcopy(p)
            del q["steps"][k]
            yield q
        if len(p["steps"][k]["faults"]) > 1:
            for f in range(len(p["steps"][k]["faults"])):
                q = copy.deepcopy(p)
                del q["steps"][k]["faults"][f]
                yield q
        if p["steps"][k]["clock"]:
            q = copy.deepcopy(p)
            q["steps"][k]["clock"] = None
            yield q
    if p["stale"]:
        yield dict(copy.deepcopy(p), stale=None)
    for c in fortran.shrink(p["case"]):
        yield dict(copy.deepcopy(p), case=c)


def damage(folder, files, d):
    """Cut short, empty or remove one input; returns (name, how to put it back)."""
    rel = files[int(d["pick"] * len(files))]
    path = os.path.join(folder, rel)
    with open(path, "rb") as f:
        data = f.read()
    n = {"cut": int(d["at"] * len(data)), "byte": len(data) - 1, "empty": 0, "gone": 0}[d["how"]]
    if d["how"] == "gone":
        os.remove(path)
    else:
        with open(path, "wb") as f:
            f.write(data[:n])
    left = data[:n].decode("latin1") if rel.endswith(".nml") and d["how"] != "gone" else None
    return rel, data, left


def run(p, w):
    c = fortran.Case(p["case"])
    exe = fortran.program(w)
    clean = w.fresh()
    files, stdin = c.lay(clean)
    inputs = [os.path.basename(f) for f in files]

    def judge(folder, e, what, must, key):
        """Success means one complete result, equal to an undisturbed run's; and success there must be if nothing went wrong."""
        if e.hung:
            w.violate("never-ends", what, key=key)
            return False
        if must and not e.success:
            w.violate("fails-undisturbed", "%s: %s" % (what, e), key=key)
            return False
        if e.success:
            out = [f for f in fortran.results(folder, inputs) if f not in others]
            bad = "it wrote %s" % [os.path.basename(f) for f in out] if len(out) != 1 else fortran.differs(out[0], c)
            if bad:
                w.violate("success-without-result", "%s: %s" % (what, bad), key=key)
                return False
        return True

    def before(folder):
        """Results of other names that lie there, from other jobs."""
        others[:] = [f for f in fortran.results(folder, inputs) if os.path.basename(f) != name]

    others = []
    folder = w.copy(clean)
    e, dry = fortran.run(w, exe, folder, stdin, clock=10 ** 18, seed=1)
    if not judge(folder, e, "undisturbed", True, "plain"):
        return
    name = os.path.basename(fortran.results(folder, inputs)[0])
    w.schedules.add(hash(world.log_shape(dry)))
    good = os.path.join(folder, name)
    folder = w.copy(clean)
    if p["stale"] == "torn":
        with open(good, "rb") as f, open(os.path.join(folder, name), "wb") as g:
            b = f.read()
            g.write(b[:len(b) // 2])
    elif p["stale"] == "other":
        shutil.copyfile(good, os.path.join(folder, "harm_" + name))

    for k, s in enumerate(p["steps"]):
        if os.path.exists(os.path.join(folder, name)) and k % 2:
            os.remove(os.path.join(folder, name))
        faults = [f for f in (world.resolve(f, dry) for f in s["faults"]) if f]
        hurt = damage(folder, files, s["damage"]) if s["damage"] else None
        ck = s["clock"]
        before(folder)
        e, log = fortran.run(w, exe, folder, stdin, out=s["out"], faults=faults, seed=k + 2,
                             **(dict(clock=ck["start"], step=ck["step"], jumps=ck["jumps"]) if ck else {}))
        fired = tuple((x[0], x[6]) for x in log if x[6])
        what = ", ".join(["%s of %s (%s)" % (faulty.kind(x), x[1], faulty.act(x)) for x in log if x[6]] + (["%s: %s" % (hurt[0], s["damage"]["how"])] if hurt else [])
                         + (["output to " + s["out"]] if s["out"] != "/dev/null" else []) + (["clock"] if ck else []))
        # a fault that fired may have been one the program has to bear (an interrupted or short transfer)
        must = not fired and not hurt and s["out"] == "/dev/null"
        key = "%s%s" % (fired[0] if fired else s["damage"]["how"] if hurt else s["out"], "+" if len(fired) > 1 else "")
        if hurt and harmless(hurt, c):
            must = not fired and s["out"] == "/dev/null"
        elif hurt and e.success:
            if hurt[0].endswith(".nml") and s["damage"]["how"] == "gone" and changes(hurt[0], files):
                w.note(k, "another job")  # without that file this is another job, and not this one's failure
            else:
                w.violate("missing-input-ignored", "%s: exit 0" % what, key=s["damage"]["how"])
                return
        elif e.success and faulty.config_read_failed(log):
            w.note(k, "configuration read failed")
        elif not judge(folder, e, what, must, key):
            return
        if hurt:
            with open(os.path.join(folder, hurt[0]), "wb") as f:
                f.write(hurt[1])
        w.state(fired, key, repr(e), len(c.ds), p["case"]["via"])
        w.note(k, repr(e), fired, key)
        if p["again"] and not e.success:
            before(folder)
            e, _ = fortran.run(w, exe, folder, stdin, seed=99)
            if not judge(folder, e, "again after %s" % what, True, "again"):
                return


def harmless(hurt, c):
    """A configuration cut behind its end says all it has to say."""
    return hurt[2] is not None and "\n/" in hurt[2]


def changes(rel, files):
    """Optional inputs: without one, the program has another configuration."""
    return rel in ("run.nml", "preferences.nml")
