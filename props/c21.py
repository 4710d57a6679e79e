"""C21 The input checker passes conforming files and no others."""

import contextlib
import copy
import hashlib
import io
import os
import runpy
import shutil
import sys

import numpy as np
from netCDF4 import Dataset

from props import c07
from sim import conversion, convert, data, faulty, world

ID = "C21"
LEVEL = "exploration"
RUNS = {"quick": 1000, "thorough": 30000}
RULE = ("One case is one match-up file, conforming or with one or two deviations, and the checks made of it: undisturbed, with a read fault or a burst "
        "of them, or with the file truncated, emptied, replaced by junk or missing. Non-trivial: the checker gave a verdict; distinct by (shape, deviations, "
        "fault, verdict).")
REAL = ["tools/harmonisation_input_checker, run as a program", "MatchUpWriter, tools/W_matrix_functions and tools/MW_add_W_matrices (which wrote some of the files)",
        "netCDF4/HDF5"]
STUB = ["the files' contents: synthetic"]
ASSUMPTIONS = ["A conforming file may be refused when a read failed; HDF5 may crash or loop on a damaged file, which is no verdict that it conforms."]

FORMS = ["X1", "X2", "Ur1", "Ur2", "Us1", "Us2", "K", "Kr", "Ks", "time1", "time2", "uncertainty_type1", "uncertainty_type2"]
W_FORMS = ["w_matrix_nnz", "w_matrix_row", "w_matrix_col", "w_matrix_val", "w_matrix_use1", "w_matrix_use2", "u_matrix_row_count", "u_matrix_val",
           "u_matrix_use1", "u_matrix_use2"]
INTS = {"uncertainty_type1", "uncertainty_type2", "w_matrix_nnz", "w_matrix_row", "w_matrix_col", "w_matrix_use1", "w_matrix_use2", "u_matrix_row_count",
        "u_matrix_use1", "u_matrix_use2"}
ANY = ["missing", "missing", "dims", "dtype", "attr", "names", "kr", "ks", "nan", "k0", "ur", "us", "type", "type", "type", "ur0", "us0", "us1", "range", "many"]
WITH_W = ["w_missing", "w_missing", "w_few", "u_move", "u_move", "w_dims", "w_dtype", "w_count", "u_count", "w_rows", "w_nnz", "u_rows", "w_gap", "u_gap", "use_neg", "w_no_u", "u_no_w", "w_cols", "u_0", "w_neg"]


def setup(ns):
    convert.load_tools(ns)
    c07.setup(ns)


def gen(rng, i, tier):
    spec = data.gen_spec(rng, **dict(dict(n_sensors=rng.choice([1, 2]), max_M=9, types=rng.choice([(1,), (1, 2), (1, 2, 3, 4), (1, 3), (3, 4)])), **data.outsize(rng, many=0, large=0.006)))
    w = any(t > 2 for t in sum(spec["series"][0]["t"], []))
    devs = [] if rng.random() < 0.25 else [(rng.choice(WITH_W if w and rng.random() < 0.5 else ANY), rng.randrange(1 << 20))]
    if devs and rng.random() < 0.2:  # a second that can not undo the first
        devs.append((rng.choice(["missing", "dtype", "attr", "kr"]), rng.randrange(1 << 20)))
    trials = []
    for _ in range(rng.choice([1, 2, 3])):
        if rng.random() < 0.65:
            trials.append({"read": faulty.read_error(rng), "burst": rng.choice([1, 1, 1, 2, 5, 40])})
        else:
            trials.append({"damage": rng.choice(["truncate", "truncate", "tail", "empty", "junk", "missing"]), "frac": rng.random()})
    by = rng.choice(["plain", "plain", "writer", "writer", "tools", "mw", "avhrr"])
    case = conversion.gen(rng, by) if by in ("mw", "avhrr") else None
    return {"case": case, "spec": spec, "devs": devs, "by": by, "f4": rng.random() < 0.3, "trials": trials, "dir": rng.randrange(1 << 20)}


def shrink(p):
    for k in range(len(p["trials"])):
        q = copy.deepcopy(p)
        del q["trials"][k]
        yield q
    for k in range(len(p["devs"])):
        q = copy.deepcopy(p)
        del q["devs"][k]
        yield q
    if p["by"] in ("writer", "tools"):
        yield dict(p, by="plain")
    for s in data.shrink_spec(p["spec"]) if p["by"] == "plain" else ():
        yield dict(p, spec=s)


# ------------------------------------------------------------------------------------------------ files as plain dictionaries
def conforming(ser):
    """A series whose uncertainties bear out its types: nothing random beside averaged quantities."""
    ser = copy.deepcopy(ser)
    for side in (0, 1):
        for c, t in enumerate(ser["type"][side]):
            if t > 2:
                ser["Ur"][side][:, c] = 0
    return ser


def load(path):
    with Dataset(path) as d:
        d.set_auto_mask(False)
        return {"attrs": {a: d.getncattr(a) for a in d.ncattrs()}, "dims": {n: len(x) for n, x in d.dimensions.items()},
                "vars": {n: (v.dimensions, v[:]) for n, v in d.variables.items()}}


def store(path, f):
    with Dataset(path, "w") as d:
        for a, v in f["attrs"].items():
            d.setncattr(a, v)
        for n, k in f["dims"].items():
            d.createDimension(n, k)
        for n, (dims, v) in f["vars"].items():
            d.createVariable(n, v.dtype, dims)[:] = v


def deviate(f, kind, k):
    """One deviation from the specification in a file; what it is, or None where the file has no place for it."""
    v, r = f["vars"], np.random.RandomState(k)

    def pick(x):
        x = list(x)
        return x[k % len(x)] if x else None

    def put(name, at, value):
        dims, x = v[name]
        x = x.copy()
        x[at] = value
        v[name] = (dims, x)

    if kind not in ANY and not all(n in v for n in W_FORMS):
        return None
    if kind in ("missing", "w_missing"):
        n = pick(n for n in (FORMS if kind == "missing" else W_FORMS) if n in v)
        del v[n]
        return "%s is not there" % n
    if kind == "w_few":
        keep = r.choice(W_FORMS, 1 + k % 9, replace=False)
        for n in W_FORMS:
            if n not in keep:
                del v[n]
        return "of the matrix variables there are only %s" % sorted(keep)
    if kind in ("dims", "w_dims"):
        n = pick(n for n in (FORMS if kind == "dims" else W_FORMS) if n in v)
        dims, x = v[n]
        if len(dims) == 2 and k // 16 % 2:
            v[n] = (dims[::-1], x.T)
        else:
            d = "other_%s" % dims[-1]
            f["dims"][d] = x.shape[-1]
            v[n] = (dims[:-1] + (d,), x)
        return "%s has dimensions %s" % (n, v[n][0])
    if kind in ("dtype", "w_dtype"):
        n = pick(n for n in (FORMS if kind == "dtype" else W_FORMS) if n in v)
        dims, x = v[n]
        v[n] = (dims, x.astype(["f8", "f4", "i8", "i2"][k // 16 % 4] if n in INTS else ["i4", "i8"][k // 16 % 2]))
        return "%s is of type %s" % (n, v[n][1].dtype)
    if kind == "attr":
        n = pick(n for n in ("sensor_1_name", "sensor_2_name") if n in f["attrs"])
        if n is None:
            return None
        del f["attrs"][n]
        return "%s is not there" % n
    if kind == "names":
        if "sensor_1_name" not in f["attrs"]:
            return None
        f["attrs"]["sensor_2_name"] = f["attrs"]["sensor_1_name"]
        return "both sensors have one name"
    need = {"kr": ["Kr", "Ks"], "ks": ["Kr", "Ks"], "k0": ["Kr", "Ks"]}.get(kind, FORMS if kind in ANY else FORMS + W_FORMS)
    if not all(n in v for n in need) or any(x.size == 0 for _, x in v.values()):
        return None
    if any(v[n][1].dtype.kind != ("i" if n in INTS else "f") or len(v[n][0]) != (2 if n[0] in "XU" or n == "w_matrix_row" else 1) or v[n][0][0][:5] == "other" for n in need):
        return None
    M = f["dims"]["M"]
    if kind in ("kr", "ks"):
        n = {"kr": "Kr", "ks": "Ks"}[kind]
        put(n, k % M, -float(r.uniform(1e-3, 1)))
        return "%s is negative at %d" % (n, k % M)
    if kind == "nan":
        n = pick(["Kr", "Ks", "Ur1", "Ur2", "Us1", "Us2"] + ["u_matrix_val"] * ("u_matrix_val" in v))
        if v[n][1].dtype.kind != "f":
            return None
        put(n, tuple(int(r.randint(q)) for q in v[n][1].shape), np.nan)
        return "%s holds a NaN" % n
    if kind == "k0":
        put("Kr", k % M, 0)
        put("Ks", k % M, 0)
        return "Kr and Ks are zero at %d" % (k % M)
    side = str(1 + k % 2)
    m = v["X" + side][1].shape[1]
    c, types = k // 2 % m, v["uncertainty_type" + side][1]
    t = int(types[c])
    at = (k // 32 % M, c)
    if kind in ("ur", "us"):
        n = {"ur": "Ur", "us": "Us"}[kind] + side
        put(n, at, -float(r.uniform(1e-3, 1)))
        return "%s is negative at %s" % (n, at)
    if kind == "type":
        put("uncertainty_type" + side, c, pick(x for x in (1, 2, 3, 4) if x != t))
        return "type %d of column %d of side %s is now %d" % (t, c, side, v["uncertainty_type" + side][1][c])
    if kind == "range":
        put("uncertainty_type" + side, c, [0, 5, -1, 7][k // 64 % 4])
        return "a type of side %s is out of range" % side
    if kind == "many":
        n, bad = "m" + side, [256, 128, 255, 512][k // 64 % 4]
        for q in "X", "Ur", "Us", "uncertainty_type":
            x = v[q + side][1]
            v[q + side] = (v[q + side][0], np.concatenate([x[..., :1]] * bad, axis=-1))
        for q in "wu":
            if q + "_matrix_use" + side in v:
                v[q + "_matrix_use" + side] = ((n,), np.zeros(bad, "i4"))
        f["dims"][n] = bad
        v["Us" + side][1][:] = 0
        v["Ur" + side][1][:] = 1
        v["uncertainty_type" + side][1][:] = 2
        return "%d columns of the wrong type" % bad
    if kind == "ur0":
        if t not in (1, 2):
            return None
        put("Ur" + side, at, 0)
        return "Ur%s of type %d is zero at %s" % (side, t, at)
    if kind == "us0":
        if t not in (2, 4) or M < 2 and t == 2:
            return None
        put("Us" + side, at, 0)
        return "Us%s of type %d is zero at %s" % (side, t, at)
    if kind == "us1":
        if t not in (1, 3) or M < 2:
            return None
        put("Us" + side, at, 0.5)
        return "Us%s of type %d is not zero at %s" % (side, t, at)
    use = {q: np.concatenate([v[q + "_matrix_use1"][1], v[q + "_matrix_use2"][1]]) for q in "wu"}
    if kind in ("w_count", "u_count"):
        q = kind[0]
        s = pick(s for s in "12" if use[q].max() in v[q + "_matrix_use" + s][1])
        x = v[q + "_matrix_use" + s][1]
        put(q + "_matrix_use" + s, int(np.argmax(x)), int(use[q].max()) + 1)
        if len(use[q][use[q] == use[q].max()]) > 1:
            return None
        return "a %s matrix is used that is not there" % q
    if kind == "w_rows":
        dims, x = v["w_matrix_row"]
        if k % 2 and x.shape[1] > 2:
            x = x[:, :-1]
        else:
            x = np.concatenate([x, x[:, -1:]], axis=1)
        f["dims"]["w_matrix_row_count"] = x.shape[1]
        v["w_matrix_row"] = (dims, x)
        return "%d row pointers for %d match-ups" % (x.shape[1], M)
    if kind in ("w_nnz", "u_rows"):
        n = {"w_nnz": "w_matrix_nnz", "u_rows": "u_matrix_row_count"}[kind]
        x = v[n][1]
        j = k // 2 % len(x)
        put(n, j, int(x[j]) + (1 if k % 2 else -1))
        return "%s is wrong" % n
    if kind == "u_move":  # as many in all, one of another
        x = v["u_matrix_row_count"][1]
        if len(x) < 2:
            return None
        i, j = r.choice(len(x), 2, replace=False)
        put("u_matrix_row_count", [i, j], [int(x[i]) + 1, int(x[j]) - 1])
        return "u vectors %d and %d are of other lengths than their averaging matrices" % (i + 1, j + 1)
    if kind in ("w_gap", "u_gap"):  # number one is not used; the others still are
        q = kind[0]
        if len(set(use[q][use[q] > 0])) < 2 or q == "w" and (use[q] == 1).sum() == 0:
            return None
        for s in "12":
            x = v[q + "_matrix_use" + s][1].copy()
            x[x == 1] = 2
            v[q + "_matrix_use" + s] = (v[q + "_matrix_use" + s][0], x)
        return "%s matrix 1 is not used" % q
    if kind == "use_neg":
        n = "wu"[k % 2] + "_matrix_use" + side
        put(n, c, -1)
        return "%s holds -1" % n
    if kind in ("w_no_u", "u_no_w"):
        q, o = ("w", "u") if kind == "w_no_u" else ("u", "w")
        col = pick(np.flatnonzero(use["w"] > 0))
        m1 = len(v["w_matrix_use1"][1])
        s, j = ("1", col) if col < m1 else ("2", col - m1)
        put(o + "_matrix_use" + s, int(j), 0)
        return "column %d of side %s has a %s matrix and no %s matrix" % (j, s, q, o)
    if kind == "w_cols":
        x = v["w_matrix_col"][1]
        ends = np.cumsum(v["w_matrix_nnz"][1])
        j = k % len(ends)
        part = x[ends[j] - v["w_matrix_nnz"][1][j]:ends[j]]
        if not len(part):
            return None
        put("w_matrix_col", int(ends[j] - len(part) + np.argmax(part)), int(part.max()) + 1 + k // 8 % 3)
        return "averaging matrix %d has more columns than uncertainties" % (j + 1)
    if kind == "u_0":
        x = v["u_matrix_val"][1]
        put("u_matrix_val", k // 2 % len(x), 0 if k % 2 else -0.25)
        return "a u value is not positive"
    if kind == "w_neg":
        n = ["w_matrix_row", "w_matrix_col"][k % 2]
        x = v[n][1]
        put(n, tuple(int(r.randint(s)) for s in x.shape), -1)
        return "%s holds a negative index" % n
    raise ValueError(kind)


# ------------------------------------------------------------------------------------------------ the checker
def verdict(ns, path):
    """What the program says of a file: whether it ends with success, whether it says so, what it says."""
    def f():
        out, argv = io.StringIO(), sys.argv
        sys.argv = ["harmonisation_input_checker.py", path]
        status = 0
        try:
            with contextlib.redirect_stdout(out):
                runpy.run_path(os.path.join(ns.tree, "tools", "harmonisation_input_checker.py"), run_name="__main__")
        except SystemExit as e:
            status = e.code
            status = 0 if status is None else int(status) & 0xFF if isinstance(status, (bool, int)) else 1  # what a parent process sees
        except Exception as e:
            return 1, False, "%s: %s" % (type(e).__name__, e)
        finally:
            sys.argv = argv
        return status, "Test Passed" in out.getvalue(), out.getvalue()
    return f


def digest(path):
    if not os.path.exists(path):
        return None
    with open(path, "rb") as f:
        return hashlib.sha1(f.read()).hexdigest()


def run(p, w):
    ns, spec = w.ns, p["spec"]
    folder = w.path("data")
    os.makedirs(folder)
    if p["by"] in ("mw", "avhrr"):  # a file the converters leave
        C = conversion.Conversion(ns, p["case"], w.path("raw"))
        o, _ = w.process(lambda: C(w.path("converted")))
        if not o.ok or not C.want:
            return  # C14 decides whether it is right
        path = os.path.join(folder, "mmd.nc")
        shutil.copyfile(os.path.join(w.path("converted"), sorted(C.want)[p["dir"] % len(C.want)]), path)
        what = [(c["M"], c["s1"], c["s2"]) for c in p["case"]["cases"]]
    else:
        ser = conforming(data.truth(spec)["series"][0])
        path = os.path.join(folder, spec["files"][0])
        if p["by"] == "plain":
            data.write_series(path, ser)
        else:
            c07.write(ns, p["by"], path, ser)
        what = (spec["m"], ser["M"], ser["type"])
    said = []
    if p["devs"] or p["f4"]:
        f = load(path)
        if p["f4"]:
            for n, (dims, x) in f["vars"].items():
                if x.dtype == np.float64 and not n.startswith("time"):
                    f["vars"][n] = (dims, x.astype(np.float32))
        for kind, k in p["devs"]:
            said.append(deviate(f, kind, k))
        store(path, f)
    devs = [s for s in said if s]
    if p["devs"] and not devs:
        return
    if len(devs) > 1:
        devs = devs[:1] + ["and then " + s for s in devs[1:]]
    shape = (what, p["by"], [d[0] for d in p["devs"]])
    was = digest(path)
    o, log = w.process(verdict(ns, path), dirseed=p["dir"])
    if not o.ok:
        w.violate("checker-died", "undisturbed: %r; deviations %s" % (o, devs))
        return
    status, passed, text = o.value
    w.state(shape, status, passed)
    w.note("undisturbed", status, devs)
    if any(faulty.kind(e) in ("OPEN_W", "WRITE", "TRUNC", "UNLINK", "RENAME") and e[1].startswith("data/") for e in log) or digest(path) != was:
        w.violate("file-altered", "the check altered the file, or opened it for writing; deviations %s" % devs)
        return
    if (status == 0) != passed:
        w.violate("verdict-unclear", "exit status %d, output %r" % (status, text[-300:]))
        return
    if devs and passed:
        w.violate("deviation-passed", "%s, and the checker passes the file" % devs)
        return
    if not devs and not passed:
        w.violate("conforming-refused", "written by %s; exit status %d: %s" % (p["by"], status, text[-500:]))
        return
    dry = log
    for n, t in enumerate(p["trials"]):
        faults, spare = [], None
        if "read" in t:
            f = world.resolve(t["read"], dry)
            if f is None:
                continue
            faults = [dict(f, at=f["at"] + k) for k in range(t["burst"])]
            say = (f["act"], f.get("err"), t["burst"], world.log_shape(dry)[f["at"]])
        else:
            with open(path, "rb") as f:
                spare = f.read()
            size = len(spare)
            say = ("DAMAGE_" + t["damage"],)
            if t["damage"] == "missing":
                os.remove(path)
            elif t["damage"] == "junk":
                with open(path, "wb") as f:
                    f.write(bytes((i * 37 + 11) % 256 for i in range(int(t["frac"] * 2000))))
            else:
                os.truncate(path, max(0, {"truncate": int(size * t["frac"]), "tail": size - 1 - int(t["frac"] ** 3 * 2000), "empty": 0}[t["damage"]]))
            w.stats["faults"][say[0]] = w.stats["faults"].get(say[0], 0) + 1
        was = digest(path)
        o, log = w.process(verdict(ns, path), faults=faults, dirseed=p["dir"], cpu=10)
        now = digest(path)
        if spare is not None:
            with open(path, "wb") as f:
                f.write(spare)
        fired = spare is not None or any(e[6] for e in log)
        w.note(say, o.how, o.ok and o.value[:2])
        w.state(shape, say, o.how, o.ok and o.value[:2])
        if now != was:
            w.violate("file-altered", "%s: the check altered the file" % (say,))
            return
        if o.how in ("hung", "died") and fired:
            w.stats["library_died"] = w.stats.get("library_died", 0) + 1
            continue
        if not o.ok:
            w.violate("checker-died", "%s: %r" % (say, o))
            return
        status, passed, text = o.value
        if (status == 0) != passed:
            w.violate("verdict-unclear", "%s: exit status %d, output %r" % (say, status, text[-300:]))
            return
        if passed and (devs or spare is not None):
            w.violate("deviation-passed", "%s: %s, and the checker passes the file" % (say, devs or "damaged"))
            return
        if not fired and not devs and not passed:
            w.violate("conforming-refused", "nothing went wrong, yet exit status %d: %s" % (status, text[-300:]))
            return
