"""C07 A written match-up file reads back equal, or is refused."""

import copy
import os
import shutil
import sys

import numpy as np
from scipy.sparse import csr_matrix

from sim import data, faulty, matchups, world

ID = "C07"
LEVEL = "exploration"
RUNS = {"quick": 700, "thorough": 15000}
RULE = ("One case is one history on one target path: writes of one or two match-up series by one of the two writers, some crashed "
        "at an I/O operation or hit by a disk fault, each followed by a read in a new process. Non-trivial: at least one read; "
        "distinct by (writer, history of outcomes and operations at the faults, shapes).")
REAL = ["MatchUpWriter.write_input_file", "tools/W_matrix_functions (write_input_file, return_w_matrix_variables, append_W_to_input_file)",
        "MatchUpReader", "netCDF4/HDF5"]
STUB = ["the arrays: synthetic"]
ASSUMPTIONS = ["Process crashes: what was written before the crash is on disk, in order."]

tools = None


def setup(ns):
    global tools
    sys.path.append(os.path.join(ns.tree, "tools"))
    import W_matrix_functions as tools_module
    tools = tools_module


def gen(rng, i, tier):
    types = rng.choice([(1,), (1, 2), (1, 2, 3, 4), (1, 2, 3, 4)])
    specs = [data.gen_spec(rng, types=types, **dict(dict(n_sensors=1, max_M=9), **data.outsize(rng, many=0, large=0.006))) for _ in range(rng.choice([1, 2]))]
    if len(specs) == 1 and rng.random() < 0.3:
        specs.append(dict(copy.deepcopy(specs[0]), seed=specs[0]["seed"] + 1))
    if i % 50 == 11:  # averaging matrices of more than 2**15 elements
        specs = [data.gen_spec(rng, types=(3, 4), n_sensors=1, m=rng.choice([1, 2]), M=rng.choice([8000, 14000]))]
        specs[0]["series"][0]["kernel"] = 5
    steps = []
    for k in range(rng.choice([1, 2, 2, 3])):
        s = {"spec": rng.randrange(len(specs)), "by": rng.choice(["writer", "writer", "tools"]), "faults": []}
        r = rng.random()
        if r < 0.45:
            s["faults"] = [faulty.crash_point(rng, late=rng.choice([None, 0.5, 0.3]))]
        elif r < 0.7:
            s["faults"] = [faulty.write_error(rng)]
        elif r < 0.75:
            s["faults"] = [faulty.write_error(rng), faulty.crash_point(rng)]
        steps.append(s)
    if i % 50 == 11:
        steps.append({"spec": 0, "by": ["tools", "writer"][i // 50 % 2], "faults": []})
    return {"specs": specs, "steps": steps, "name": rng.choice(["mmd.nc", "1_2.nc", "n15_m02.2001.nc"]), "dir": rng.random() < 0.4}


def shrink(p):
    for k in range(len(p["steps"])):
        if len(p["steps"]) > 1:
            q = copy.deepcopy(p)
            del q["steps"][k]
            yield q
        for f in range(len(p["steps"][k]["faults"])):
            q = copy.deepcopy(p)
            del q["steps"][k]["faults"][f]
            yield q
    for n in range(len(p["specs"])):
        for s in data.shrink_spec(p["specs"][n]):
            q = copy.deepcopy(p)
            q["specs"][n] = s
            yield q


def arrays(ser):
    """The writer's arguments for a series, fresh each time."""
    a = [np.array(x) for x in (ser["X"][0], ser["X"][1], ser["Ur"][0], ser["Ur"][1], ser["Us"][0], ser["Us"][1])]
    a += [np.array(ser["type"][0], dtype=np.int8), np.array(ser["type"][1], dtype=np.int32)]
    a += [np.array(ser[k]) for k in ("K", "Kr", "Ks", "time1", "time2")] + list(ser["sensors"])
    extra = {k: {"data": np.array(v), "dtype": "i4", "dim": ("M",), "Description": "index " + k} for k, v in ser["track"].items()}
    extra.update({k: {"data": np.array(v), "dtype": "f8", "dim": ("M",), "Description": k} for k, v in ser["extra"].items()})
    return a, extra or None


def matrices(ser):
    w = [csr_matrix((np.array(d), np.array(i), np.array(p)), shape=(len(p) - 1, nc)) for d, i, p, nc in ser["w"]]
    return w, [np.array(u) for u in ser["u"]]


def write(ns, by, path, ser):
    a, extra = arrays(ser)
    before = copy.deepcopy((a, extra))
    if by == "writer":
        v = None
        if ser["w"]:
            v = (np.array([len(x[0]) for x in ser["w"]]), np.array([x[2] for x in ser["w"]]), np.concatenate([x[1] for x in ser["w"]]),
                 np.concatenate([x[0] for x in ser["w"]]), np.array(ser["w_use"][0]), np.array(ser["w_use"][1]),
                 np.array([len(u) for u in ser["u"]]), np.concatenate(ser["u"]), np.array(ser["u_use"][0]), np.array(ser["u_use"][1]))
        ns.MatchUpWriter().write_input_file(path, *a, w_matrix_variables=v, additional_variables=extra)
    else:
        tools.write_input_file(path, *a, additional_variables=extra)
        if ser["w"]:
            val, row, col, nnz, count, uval = tools.return_w_matrix_variables(*matrices(ser))
            tools.append_W_to_input_file(path, val, row, col, nnz, count, uval, np.array(ser["w_use"][0]), np.array(ser["w_use"][1]),
                                         np.array(ser["u_use"][0]), np.array(ser["u_use"][1]))
    return faulty.plain((a, extra)) == faulty.plain(before)


def run(p, w):
    ns = w.ns
    sers = []
    for spec in p["specs"]:
        tr = data.truth(spec)
        sers.append(tr["series"][0])
    out = w.path("out")
    os.makedirs(out)
    path = os.path.join(out, p["name"])
    shape = [(s["M"], s["type"], sorted(s["extra"]), sorted(s["track"])) for s in sers]
    saved, certain, hist = [], None, []
    for st in p["steps"]:
        ser = sers[st["spec"]]

        def job(target=path):
            def f():
                try:
                    return "ok", write(ns, st["by"], target, ser)
                except Exception as e:
                    return "%s: %s" % (type(e).__name__, e), True
            return f

        faults = []
        if st["faults"]:
            spare = w.copy(out)
            dry, log = w.process(job(os.path.join(spare, p["name"])), root=spare)
            shutil.rmtree(spare)
            if not dry.ok or dry.value[0] != "ok":
                w.violate("write-failed", "undisturbed write after %s: %r %s" % (hist, dry, dry.value))
                return
            faults = [f for f in (world.resolve(f, log) for f in st["faults"]) if f]
        o, log = w.process(job(), faults=faults, root=out, cpu=20)
        fired = [(f[0], f[1].split("/")[-1]) for f in log if f[6]]
        ok = o.ok and o.value[0] == "ok"
        hist.append((st["spec"], st["by"], o.how if not o.ok else o.value[0][:60].replace(w.dir, ""), [f["act"] for f in faults], fired))
        w.note(hist[-1])
        if o.how == "hung" or o.how == "died" and not fired:
            w.violate("write-died", "%r %s" % (o, hist))
            return
        if not fired and not ok:
            w.violate("write-failed", "nothing went wrong, yet %r; history %s" % (o.value, hist))
            return
        if o.ok and not o.value[1]:
            w.violate("arrays-altered", "writing changed the arrays it was given; history %s" % hist)
            return
        saved, certain = ([st["spec"]], st["spec"]) if ok else (saved + [st["spec"]], None)

        def read():
            H = ns.open_matchup(out if p["dir"] else path)
            v = matchups.view(H)
            return [matchups.wrong(v, None, series=[sers[k]]) for k in saved]

        r, _ = w.process(read, root=out, cpu=20)
        hist.append(("read", r.how))
        w.state(shape, hist)
        w.note(hist[-1])
        if r.how in ("hung", "died"):
            if certain is not None:
                w.violate("read-died", "%r %s" % (r, hist))
                return
            w.stats["library_died"] = w.stats.get("library_died", 0) + 1
            continue
        if not r.ok:
            if certain is not None:
                w.violate("written-file-refused", "the write succeeded, reading it: %r; history %s" % (r, hist))
                return
            continue
        if all(r.value):
            w.violate("altered-data" if ok else "partial-data", "what was read equals nothing written; it differs from each in %s; history %s" % (r.value, hist))
            return
