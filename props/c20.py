"""C20 The Fortran program works on exactly what it is given and writes what it has."""

import copy
import os
import random
import struct

import numpy as np

from sim import faulty, fortran, world

ID = "C20"
LEVEL = "exploration"
RUNS = {"quick": 700, "thorough": 30000}
RULE = ("One case is one job of one to six generated match-up files. The program's own reader and writers run in a probe executable that dumps what "
        "the reader left in memory and writes seeded results; then again with a failing, short or interrupted read, a failing write or a crash. "
        "Non-trivial: every case whose memory was compared; distinct by (shape of each data set, selected columns, fault, outcome).")
REAL = ["the program's reader, writers, configuration, matrix, match-up and sensor modules (objects of the built program)", "libgfortran",
        "netCDF-Fortran/HDF5"]
STUB = ["the main program: sim/probe.F90, which calls the demonstration's read and write with seeded results",
        "the match-up data: synthetic", "the four sensors are the demonstration's own"]
ASSUMPTIONS = ["Files in a netCDF classic format are not cut short: the netCDF library itself reads what is missing as zeros.",
               "The Fortran run-time library does not report a failed read within a namelist.",
               "The probe needs the names and components of the program's module data; if it does not build against the tree, the check runs the "
               "program itself only and says so."]
S80, S36 = 80, 36


def gen(rng, i, tier):
    case = fortran.gen(rng, big=rng.random() < 0.15, rename=0.4)
    if rng.random() < 0.25:
        case["called"] = rng.choice(["result", "my_parameters", "a.b"])
    if rng.random() < 0.25:
        case["called_res"] = rng.choice(["residuals", "res_2019"])
    f = []
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        r = rng.random()
        f.append(faulty.read_error(rng) if r < 0.7 else faulty.write_error(rng) if r < 0.9 else faulty.crash_point(rng))
    return {"case": case, "faults": f, "seed": rng.randrange(1 << 30),
            "res": [{"m": rng.choice([1, 2, 5, 30]), "begin": rng.choice(["", "20010101"]), "end": rng.choice(["", "20101231"]),
                     "i": "%d" % k, "j": rng.choice(["n19", "m02", "x"])} for k in range(rng.choice([0, 1, 2]))]}


def shrink(p):
    if p["faults"]:
        for k in range(len(p["faults"])):
            q = copy.deepcopy(p)
            del q["faults"][k]
            yield q
    if p["res"]:
        yield dict(copy.deepcopy(p), res=[])
    for k in ("called", "called_res"):
        if p["case"][k]:
            q = copy.deepcopy(p)
            q["case"][k] = None
            yield q
    for c in fortran.shrink(p["case"]):
        yield dict(copy.deepcopy(p), case=c)


# ------------------------------------------------------------------------------------------------ memory
class Reader(object):
    def __init__(self, path):
        with open(path, "rb") as f:
            self.b = f.read()
        self.p = 0

    def ints(self, n=1):
        x = struct.unpack_from("<%di" % n, self.b, self.p)
        self.p += 4 * n
        return list(x)

    def text(self, n):
        x = self.b[self.p:self.p + n].decode("latin1")
        self.p += n
        return x.rstrip(" \0")

    def doubles(self, n):
        x = np.frombuffer(self.b, dtype="<f8", count=n, offset=self.p)
        self.p += 8 * n
        return x

    def row(self):
        n = self.ints()[0]
        return None if n < 0 else self.doubles(n)

    def irow(self):
        n = self.ints()[0]
        return None if n < 0 else np.array(self.ints(n), dtype=int)

    def table(self):
        m, n = self.ints(2)
        return None if m < 0 else self.doubles(m * n).reshape((n, m)).T


def memory(path):
    r = Reader(path)
    n, nm, nb, nd, nv, nw = r.ints(6)
    out = {"n": n, "matchups": [], "B": [], "D": [], "V": [], "W": [], "sensors": []}
    for _ in range(nm):
        q = {"name": r.text(S80), "uuid": r.text(S36)}
        q.update(zip(("i", "j", "m", "ri", "rj", "start", "final"), r.ints(7)))
        for k, f in (("qi", r.table), ("qj", r.table), ("hi", r.row), ("hj", r.row), ("vhi", r.row), ("vhj", r.row), ("ti", r.row), ("tj", r.row),
                     ("pi", r.irow), ("pj", r.irow), ("ui", r.irow), ("uj", r.irow), ("ic", r.irow), ("jc", r.irow), ("iv", r.irow), ("jv", r.irow),
                     ("iw", r.irow), ("jw", r.irow)):
            q[k] = f()
        out["matchups"].append(q)
    out["B"] = [(r.ints()[0], r.row(), r.row()) for _ in range(nb)]
    out["D"] = [(r.ints()[0], r.row()) for _ in range(nd)]
    out["V"] = [(r.ints()[0], r.row()) for _ in range(nv)]
    out["W"] = [tuple(r.ints(2)) + (r.irow(), r.irow(), r.row()) for _ in range(nw)]
    for _ in range(4):
        out["sensors"].append({"name": r.text(S80), "ints": r.ints(6), "y": r.row()})
    if r.ints() != [4711] or r.p != len(r.b):
        raise ValueError("the dump is not what it should be")
    return out


def same(x, want, rel=0.0):
    x, want = np.asarray(x, dtype=np.float64), np.asarray(want, dtype=np.float64)
    return x.shape == want.shape and bool(np.all(np.abs(x - want) <= rel * np.abs(want)))


def matrix_wrong(got, want, rel=2e-7):
    """What is wrong with one column's matrices; got maps the kinds to what memory holds."""
    for k, w in want.items():
        g = got.get(k)
        if g is None:
            return "has no %s matrix" % k
        if k == "D" or k == "V":
            if g[0] != len(w) or not same(g[1], w, rel):
                return "has another %s matrix" % k
        elif k == "B":
            if g[0] != len(w[0]) or not same(g[1], w[0], rel) or not same(g[2], w[1]):
                return "has another B matrix"
        else:
            m, n, ia, ja, a = g
            cols, rows = w
            if m != len(rows) or n != cols or len(ia) != m + 1 or len(ja) != m or ia[0] != 1 or ia[-1] != len(a) + 1:
                return "has a W matrix of another shape (%d x %d for %d x %d)" % (m, n, len(rows), cols)
            for y, row in enumerate(rows):
                have = {int(ja[y] - 1 + e): float(a[ia[y] - 1 + e]) for e in range(ia[y + 1] - ia[y])}
                if {k: v for k, v in have.items() if v} != {k: float(v) for k, v in row.items() if v}:
                    return "has another W matrix in row %d" % (y + 1)
    if set(got) - set(want):
        return "has %s matrices" % sorted(set(got) - set(want))
    return None


def wrong(mem, c):
    """What memory holds that is not in the files, or None."""
    job = c.c
    if mem["n"] != 9 or len(mem["matchups"]) != len(c.ds):
        return "%d parameters and %d data sets" % (mem["n"], len(mem["matchups"]))
    end = 0
    for k, q in enumerate(mem["matchups"]):
        want = c.memory(k)
        of = "data set %d: " % (k + 1)
        for f in ("name", "uuid", "i", "j", "m", "ri", "rj"):
            if q[f] != want[f]:
                return of + "%s is %r, not %r" % (f, q[f], want[f])
        if (q["start"], q["final"]) != (end + 1, end + want["m"]):
            return of + "it is at %d to %d" % (q["start"], q["final"])
        end += want["m"]
        for f in ("qi", "qj", "hj", "ti", "tj", "pi", "pj"):
            if q[f] is None or not same(q[f], want[f]):
                return of + "%s is %s, not %s" % (f, str(q[f])[:80], str(want[f])[:80])
        if not same(q["vhj"], want["vhj"], 2e-7):
            return of + "vhj is %s, not %s" % (str(q["vhj"])[:80], str(want["vhj"])[:80])
        if np.any(q["hi"]) or np.any(q["vhi"]) or len(q["hi"]) != want["m"] or len(q["vhi"]) != want["m"]:
            return of + "there is an adjustment of the first sensor"
        for s in ("i", "j"):
            kinds = [x[0] for x in want["u" + s]]
            if list(q["u" + s]) != kinds:
                return of + "u%s is %s, not %s" % (s, list(q["u" + s]), kinds)
            for x, (kind, mats) in enumerate(want["u" + s]):
                at = {"C": int(q[s + "c"][x]), "V": int(q[s + "v"][x]), "W": int(q[s + "w"][x])}
                if job["matrix"]:
                    got = {}
                    for g, n in at.items():
                        if n:
                            g = {1: "D", 2: "B"}.get(kind, g) if g == "C" else g
                            if not 0 < n <= len(mem.get(g, ())):
                                return of + "column %d of %s has a matrix number %d" % (x + 1, s, n)
                            got[g] = mem[g][n - 1]
                    bad = matrix_wrong(got, mats)
                else:  # the matrices themselves are removed after each data set
                    need = {"C": kind in (1, 2), "V": kind == 3, "W": kind == 3}
                    bad = "has matrices %s" % at if any(bool(at[g]) != need[g] for g in at) else None
                if bad:
                    return of + "column %d of %s %s" % (x + 1, s, bad)
    for g in "BDVW":
        if not job["matrix"] and mem[g]:
            return "%d %s matrices are left" % (len(mem[g]), g)
    at = 1
    for k, s in enumerate(mem["sensors"]):
        sensor = k + 1
        n, r = fortran.N[sensor], fortran.R[sensor]
        o = 0 if sensor == 1 else 7
        y = [0.0, 1.0, 0.0, 1e-2, 0.0, 1e-6, sensor + 0.5] if job["config"] and sensor > 1 else [0.0] * o
        if s["name"] != str(k) or s["ints"] != [fortran.EQ[sensor], n, r, o, at, at + n - 1] or not same(s["y"], y):
            return "sensor %d is %s" % (sensor, s)
        at += n
    return None


# ------------------------------------------------------------------------------------------------ results
ROWS = [("k_res", "k_res"), ("k_res_unc", "k_res_unc"), ("k_res_weights", "k_res_weights")]
MEAS = [("measurand1", "The measurand (e.g. radiance) of the first sensor"), ("measurand2", "The measurand (e.g. radiance) of the other sensor"),
        ("measurand1_uncertainty_tel", "The uncertainty of the measurand of the first sensor due to the uncertainty of telemetry"),
        ("measurand2_uncertainty_tel", "The uncertainty of the measurand of the other sensor due to the uncertainty of telemetry"),
        ("measurand1_uncertainty_cal", "The uncertainty of the measurand of the first sensor due to the uncertainty of calibration"),
        ("measurand2_uncertainty_cal", "The uncertainty of the measurand of the other sensor due to the uncertainty of calibration")]


def make_results(p, c, path):
    """Seeded results for the probe to write; returns (x, covariance, [(residual data set, what its file must hold)])."""
    r = np.random.RandomState(p["seed"])
    x = r.randn(9) * 10.0 ** r.randint(-8, 8, 9)
    a = r.randn(9, 9)
    s = 10.0 ** r.randint(-4, 4, 9)
    xc = (a.dot(a.T) + np.eye(9)) * np.outer(s, s)
    pad = lambda t, n: t.encode().ljust(n)
    b = struct.pack("<i", 9) + x.tobytes() + xc.tobytes(order="F") + struct.pack("<i", len(p["res"]))
    out = []
    for k, d in enumerate(p["res"]):
        m = d["m"]
        rows = [np.sort(r.rand(m)) * 2e9] + [r.randn(m) for _ in range(9)]
        own, of = "%08x-1111-4000-8000-%012x" % (p["seed"], k), "%08x-2222-4000-8000-%012x" % (p["seed"], k)
        b += struct.pack("<i", m) + pad(d["begin"], 8) + pad(d["end"], 8) + pad(d["i"], S80) + pad(d["j"], S80) + pad(of, S36) + pad(own, S36)
        b += b"".join(v.tobytes() for v in rows)
        V, A = {}, {}
        unit = c.c["unit"]
        name, desc = c.var("time")
        V[name], A[name] = rows[0], {"description": desc, "units": TIME}
        for (key, _), v in zip(ROWS, rows[1:4]):
            name, desc = c.var(key)
            V[name], A[name] = v.astype(np.float32), {"description": desc}
            if unit:
                A[name]["units"] = "1 / " + unit if key == "k_res_weights" else unit
        for (name, desc), v in zip(MEAS, rows[4:]):
            V[name], A[name] = v.astype(np.float32), dict({"description": desc}, **({"units": unit} if unit else {}))
        g = c.common({"matchup_dataset_id": c.c["ds_id"], "matchup_dataset_begin": d["begin"], "matchup_dataset_end": d["end"],
                      "matchup_dataset_uuid": of, "sensor_i": d["i"], "sensor_j": d["j"], "uuid": own})
        out.append((d, (V, A, g)))
    with open(path, "wb") as f:
        f.write(b)
    return x, xc, out


TIME = "seconds since 1970-1-1 0:0:0"


def run(p, w):
    c = fortran.Case(p["case"])
    clean = w.fresh()
    files, stdin = c.lay(clean)
    inputs = [os.path.basename(f) for f in files]
    x, xc, res = make_results(p, c, os.path.join(clean, "results.bin"))
    probe = w.ns.built.get("probe")
    shape = tuple((d["i"], d["j"], min(d["M"], 20), d["s"], tuple(d["types1"]), tuple(d["types2"]), d["format"], tuple(d["absent"])) for d in p["case"]["ds"])

    def outputs(folder, complete):
        want = [(c.output(x, xc) if probe else c.output(), "", ())] + [(g, "res", (d["i"], d["j"])) for d, g in res if probe]
        out = fortran.results(folder, inputs)
        left = set(out)
        for (V, A, g), kind, who in want:
            d = [d for d, _ in res if who and (d["i"], d["j"]) == who]
            made = [f for f in out if named(c, f, kind, who, d[0] if d else None)]
            if len(made) != 1:
                return "no file named %s of %s" % (("for " + kind) if kind else "for the parameters", [os.path.basename(f) for f in out])
            bad = fortran.differs(made[0], c, (V, A, g), kind, who, dates=(d[0]["begin"], d[0]["end"]) if d else ("", ""))
            if bad:
                return "%s: %s" % (os.path.basename(made[0]), bad)
            left -= {made[0]}
        return "also wrote %s" % sorted(map(os.path.basename, left)) if left else None

    def once(folder, faults, seed):
        exe = fortran.program(w, "probe", "probe") if probe else fortran.program(w)
        dump = os.path.join(folder, "memory.bin")
        for f in [dump] + fortran.results(folder, inputs):
            if os.path.exists(f):
                os.remove(f)
        return fortran.run(w, exe, folder, stdin, faults=faults, seed=seed) + (dump,)

    def judge(e, folder, dump, must, what):
        if e.hung or must and not e.success:
            w.violate("fails", "%s: %s" % (what, e))
            return False
        if not e.success:
            return True
        if probe:
            bad = wrong(memory(dump), c)
            if bad:
                w.violate("other-data", "%s: %s" % (what, bad), key=what == "undisturbed")
                return False
        bad = outputs(folder, True)
        if bad:
            w.violate("other-result", "%s: %s" % (what, bad), key=what == "undisturbed")
            return False
        return True

    folder = w.copy(clean)
    e, dry, dump = once(folder, (), 1)
    w.schedules.add(hash(world.log_shape(dry)))
    if not judge(e, folder, dump, True, "undisturbed"):
        return
    w.state(shape, tuple(sorted(p["case"]["select"].items())) and str(p["case"]["select"]), p["case"]["common"], p["case"]["matrix"])
    for k, f in enumerate(p["faults"]):
        fs = [g for g in (world.resolve(f, dry),) if g]
        e, log, dump = once(folder, fs, k + 2)
        hit = [y for y in log if y[6]]
        what = ", ".join("%s of %s (%s)" % (faulty.kind(y), y[1], faulty.act(y)) for y in hit) or "undisturbed again"
        if e.success and faulty.config_read_failed(log):
            continue
        if any("memory.bin" in y[1] or "results.bin" in y[1] for y in hit):
            continue  # the probe's own files
        w.state(shape, [(y[0], y[6]) for y in hit], repr(e))
        w.note(k, [(y[0], y[6]) for y in hit], repr(e))
        if not judge(e, folder, dump, not hit, what):
            return


def named(c, path, kind, who, d):
    """Is this file meant to be that result?"""
    n = os.path.basename(path)
    if kind:
        return n.endswith("_%s_%s.nc" % who) and (not c.c["called_res"] or n.startswith(c.c["called_res"] + "_"))
    return (n == c.c["called"] + ".nc") if c.c["called"] else "_res_" not in n and not (c.c["called_res"] and n.startswith(c.c["called_res"] + "_"))
