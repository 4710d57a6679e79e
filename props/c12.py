"""C12 The Fortran harmonisation refuses corrupt input data."""

import copy
import os

import numpy as np

from sim import faulty, fortran, world

ID = "C12"
LEVEL = "exploration"
RUNS = {"quick": 1000, "thorough": 30000}
RULE = ("One case is one job of one to six generated match-up files: run as it is, then with one or two elements of one variable corrupted "
        "on the way to the disk (and sometimes with short, interrupted or failing reads on top), then repaired and run again. "
        "Non-trivial: every case; distinct by (variable, kind of corruption, which element, log level, shape of the job, outcome).")
REAL = ["the Fortran program (demo.F90 with its reader, assertions, configuration, logger and error handling), libgfortran, netCDF-Fortran/HDF5"]
STUB = ["the match-up data: synthetic", "the four sensors are the demonstration's own"]
ASSUMPTIONS = ["The Fortran run-time library does not report a failed read within a namelist.",
               "A value counts as huge when its magnitude exceeds the square root of the largest number of the type the program holds it in "
               "(single precision, double precision for times); values within a thousandth of that limit are not tried."]

LIMIT = {"f": fortran.BIG, "t": float(np.sqrt(np.finfo(np.float64).max))}


def gen(rng, i, tier):
    case = fortran.gen(rng, big=rng.random() < 0.1, rename=0.05)
    bad = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        bad.append({"ds": rng.random(), "var": rng.random(), "at": rng.choice(["first", "last", "any", "any", "skipped"]), "pick": rng.random(),
                    "kind": rng.random(), "bits": rng.random()})
    f = []
    if rng.random() < 0.3:
        f = [faulty.read_error(rng)]
    return {"case": case, "bad": bad, "faults": f, "first": rng.random() < 0.5}


def shrink(p):
    if len(p["bad"]) > 1:
        for k in range(len(p["bad"])):
            q = copy.deepcopy(p)
            del q["bad"][k]
            yield q
    if p["faults"]:
        yield dict(copy.deepcopy(p), faults=[])
    for c in fortran.shrink(p["case"]):
        yield dict(copy.deepcopy(p), case=c)


def corrupt(c, b):
    """Corrupts one element of the case; returns (data set, variable, kind, element) and how to undo it."""
    k = int(b["ds"] * len(c.ds))
    d, v = c.c["ds"][k], c.ds[k]
    names = [n for n in ("X1", "X2", "Ur1", "Ur2", "Us1", "Us2", "K", "Kr", "Ks") if n not in d["absent"]] + ["time1", "time2"]
    if d["matrices"]:
        names += ["U", "W", "nnz"]
    name = names[int(b["var"] * len(names))]
    if name == "nnz":  # the number of non-zero elements of one matrix and its last row pointer no longer agree
        n = np.zeros(d["nw"], dtype=np.int32)
        at = {"first": 0, "last": len(n) - 1}.get(b["at"], int(b["pick"] * len(n)))
        by = [x for x in (-2, -1, 1, 2, 3) if len(n) > 1 or d["base"] - x not in (0, 1)]
        n[at] = by[int(b["kind"] * len(by))]
        v["nnz"] = n
        return (k, name, "not that of the row pointers", b["at"]), lambda: v.pop("nnz", None)
    kinds = ["nan", "inf", "huge"] + {"Kr": ["zero"] * 2, "U": ["zero"] * 2, "W": ["zero", "negative"] * 2}.get(name, [])
    kind = kinds[int(b["kind"] * len(kinds))]
    if name in ("U", "W"):
        arrays = v["U"] if name == "U" else v["W"][2]
        sizes = np.cumsum([a.size for a in arrays])
        at = {"first": 0, "last": sizes[-1] - 1}.get(b["at"], int(b["pick"] * sizes[-1]))
        which = int(np.searchsorted(sizes, at, side="right"))
        a, at = arrays[which], int(at - (sizes[which] - arrays[which].size))
    else:
        a = v[name]
        at = {"first": 0, "last": a.size - 1}.get(b["at"], int(b["pick"] * a.size))
        if b["at"] == "skipped":  # of a match-up the sampling leaves out, if it leaves out any
            wide = a.size // len(a)
            rows = [r for r in range(len(a)) if r % d["s"]]
            if rows:
                at = rows[at // wide * len(rows) // len(a)] * wide + at % wide
    big = LIMIT["t" if name.startswith("time") else "f"]
    sign = -1 if b["bits"] < 0.5 else 1
    top = np.log10(np.finfo(np.float64 if name.startswith("time") else np.float32).max) - np.log10(big) - 0.1
    x = {"nan": sign * np.nan, "inf": sign * np.inf, "huge": sign * big * 1.001 * 10 ** ((b["bits"] * 4 % 1) ** 2 * top), "zero": sign * 0.0,
         "negative": -b["bits"] - 1e-6}[kind]
    old = a.flat[at]
    a.flat[at] = x

    def undo():
        a.flat[at] = old
    return (k, name, kind, b["at"]), undo


def run(p, w):
    c = fortran.Case(p["case"])
    exe = fortran.program(w)
    folder = w.fresh()
    files, stdin = c.lay(folder)
    inputs = [os.path.basename(f) for f in files]

    def good(what, key):
        e, log = fortran.run(w, exe, folder, stdin, seed=1)
        if not e.success:
            w.violate("refuses-valid-data", "%s: %s" % (what, e), key=key)
            return None
        out = fortran.results(folder, inputs)
        bad = "it wrote %d files" % len(out) if len(out) != 1 else fortran.differs(out[0], c)
        if bad:
            w.violate("wrong-result", "%s: %s" % (what, bad), key=key)
            return None
        os.remove(out[0])
        return log

    dry = None
    if p["first"] or p["faults"]:
        dry = good("valid data", "valid")
        if dry is None:
            return
        w.schedules.add(hash(world.log_shape(dry)))
    done = [corrupt(c, b) for b in p["bad"]]
    where = c.c["sub"] and "in" or "."
    paths = sorted({x[0][0] for x in done})
    for k in paths:
        c.write(k, os.path.join(folder, where, c.name_of(k)))
    faults = [f for f in (world.resolve(f, dry) for f in p["faults"]) if f]
    e, log = fortran.run(w, exe, folder, stdin, seed=2, faults=faults)
    what = ", ".join("%s in %s of data set %d" % (x[0][2], x[0][1], x[0][0] + 1) for x in done)
    key = "%s:%s" % done[0][0][1:3]
    out = [os.path.basename(f) for f in fortran.results(folder, inputs)]
    level = p["case"]["log"]
    w.state(tuple(x[0][1:] for x in done), level, repr(e), len(c.ds))
    w.note(key, repr(e), [(faulty.kind(x), x[1], faulty.act(x)) for x in log if x[6]])
    if e.hung:
        w.violate("never-ends", what, key=key)
    elif faulty.config_read_failed(log):
        pass  # what was run may have been another job
    elif e.success:
        w.violate("corruption-accepted", "%s: exit 0" % what, key=key)
    elif e.status is None and not any(x[6] for x in log):
        w.violate("crashes", "%s: %s" % (what, e), key=key)
    elif out:
        w.violate("result-of-corrupt-data", "%s: %s, yet there is %s" % (what, e, out[0]), key=key)
    else:
        for x in reversed(done):
            x[1]()
        for k in paths:
            c.write(k, os.path.join(folder, where, c.name_of(k)))
        good("repaired data", "repaired")
