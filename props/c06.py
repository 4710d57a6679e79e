"""C06 A failed read never yields data."""

import copy
import gc
import os
import shutil

from sim import data, faulty, matchups, results, world

ID = "C06"
LEVEL = "exploration"
RUNS = {"quick": 500, "thorough": 12000}
RULE = ("One case is one attempt to open one dataset or saved result with a read fault at one operation, a burst of them, or a file "
        "truncated, emptied, replaced by junk or missing, followed by a retry in the same process once the fault is gone. "
        "Non-trivial: the fault fired or the file was damaged; distinct by (shape, form of the paths, fault, outcome).")
REAL = ["MatchUpReader (open_matchup)", "HarmonisationResult loading", "netCDF4/HDF5", "import of the sensor data module"]
STUB = ["the files' contents: synthetic"]
ASSUMPTIONS = ["A file missing from a directory before it is listed can not be told from one that never existed; it is only taken away "
               "where the caller named it, or between listing and opening.",
               "HDF5 itself may crash or loop on a damaged file; a process that dies yields no data."]


def gen(rng, i, tier):
    spec = data.gen_spec(rng, **dict(dict(max_M=7, repeat_pairs=rng.random() < 0.3, mixed_m=True), **data.outsize(rng)))
    n = len(spec["series"])
    trials = []
    for _ in range(7):
        r = rng.random()
        if r < 0.5:
            trials.append({"read": faulty.read_error(rng), "burst": rng.choice([1, 1, 1, 2, 5, 40])})
        else:
            trials.append({"damage": rng.choice(["truncate", "truncate", "truncate", "tail", "empty", "junk", "missing"]), "file": rng.randrange(1000),
                           "frac": rng.random()})
        trials[-1]["what"] = rng.choice(["data", "data", "data", "result"])
    return {"spec": spec, "form": rng.choice(["file", "dir", "files", "dirs"]), "order": rng.sample(range(n), n), "where": [rng.randrange(2) for _ in range(n)],
            "unc": rng.random() < 0.8, "additional": rng.random() < 0.8, "sensors": rng.random() < 0.3, "trials": trials,
            "result": {"seed": rng.randrange(1 << 30), "values": rng.random() < 0.8, "extra": ["scores"] if rng.random() < 0.5 else []},
            "res": rng.random() < 0.8, "d": rng.randrange(1 << 20)}


def shrink(p):
    for k in range(len(p["trials"])):
        if len(p["trials"]) > 1:
            q = copy.deepcopy(p)
            q["trials"] = [p["trials"][k]]
            yield q
    for k, t in enumerate(p["trials"]):
        if t.get("burst", 1) > 1:
            q = copy.deepcopy(p)
            q["trials"][k]["burst"] = 1
            yield q
    for f in ("sensors", "additional", "unc"):
        if p[f]:
            q = copy.deepcopy(p)
            q[f] = False
            yield q
    for s in data.shrink_spec(p["spec"]):
        q = copy.deepcopy(p)
        q["spec"] = s
        q["order"] = [k for k in p["order"] if k < len(s["series"])]
        yield q


def left_open(root):
    out = []
    for f in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink("/proc/self/fd/" + f)
        except OSError:
            continue
        if t.startswith(root + "/"):
            out.append(t[len(root) + 1:])
    return sorted(out)


def run(p, w):
    ns, spec = w.ns, p["spec"]
    tr = data.truth(spec)
    top = w.path("data")
    two = [os.path.join(top, d) for d in ("one", "two")]
    where = p["where"] if p["form"] in ("dirs", "files") else [0] * len(spec["series"])
    paths = []
    for k, (name, ser) in enumerate(zip(spec["files"], tr["series"])):
        os.makedirs(two[where[k]], exist_ok=True)
        paths.append(os.path.join(two[where[k]], name))
        data.write_series(paths[-1], ser)
    dirs = [d for d in two if os.path.isdir(d)]
    given = {"file": paths[0], "dir": dirs[0], "files": [paths[k] for k in p["order"]], "dirs": dirs}[p["form"]]
    want = tr["series"][:1] if p["form"] == "file" else tr["series"]
    mine = paths[:1] if p["form"] == "file" else paths
    module = None
    if p["sensors"]:
        from props import c05
        module = os.path.join(top, "sensors_test.py")
        c05.write_module(module, spec, tr)
    res_dir = w.path("result")
    os.makedirs(res_dir)
    H = ns.open_matchup(list(paths))
    R = results.make_result(ns, spec, H.idx, p["result"]["seed"], p["result"]["values"], p["result"]["extra"])
    want_res = results.snapshot(R)
    R.save(os.path.join(res_dir, "harm_EV_0.1_x_01_SET.nc"))
    res_files = sorted(os.path.join(res_dir, f) for f in os.listdir(res_dir))

    def attempt(what):
        """('data', what is wrong with it) or ('raised', text)."""
        try:
            if what == "data":
                H = ns.open_matchup(copy.copy(given), module, open_uncertainty=p["unc"], open_additional_values=p["additional"])
                try:
                    return "data", matchups.wrong(matchups.view(H, p["unc"], p["additional"]), tr, p["unc"], p["additional"], series=want)
                except Exception as e:  # not even a whole object
                    return "data", ["%s: %s" % (type(e).__name__, e)]
            R = ns.HarmonisationResult(res_dir, open_residuals=p["res"])
            try:
                return "data", results.differences(results.snapshot(R, residuals=p["res"]), want_res)
            except Exception as e:
                return "data", ["%s: %s" % (type(e).__name__, e)]
        except Exception as e:
            return "raised", ("%s: %s" % (type(e).__name__, e)).replace(w.dir, "")[:300]

    def open_twice(what, between):
        def f():
            a = attempt(what)
            gc.collect()
            fds = left_open(w.dir)
            between()
            return a, fds, attempt(what)
        return f

    shape = (spec["m"], [(s["s"], s["M"], s["t"]) for s in spec["series"]], p["form"], p["unc"], p["additional"], p["res"])
    dry = {}
    for n, t in enumerate(p["trials"]):
        what = t["what"]
        if what not in dry:
            o, log = w.process(lambda: attempt(what), dirseed=p["d"])
            if not o.ok or o.value != ("data", []):
                w.violate("open-failed", "undisturbed open of the %s: %r %s" % (what, o, o.value))
                return
            dry[what] = [e for e in log]
        faults, undo = [], lambda: None
        if "read" in t:
            f = world.resolve(t["read"], dry[what])
            if f is None:
                continue
            faults = [dict(f, at=f["at"] + k) for k in range(t["burst"])]
            say = (f["act"], f.get("err"), t["burst"], world.log_shape(dry[what])[f["at"]])
        else:
            files = mine if what == "data" else res_files if p["res"] else [f for f in res_files if "_res_" not in f]
            path = files[t["file"] % len(files)]
            if t["damage"] == "missing" and (p["form"] in ("dir", "dirs") and what == "data" or "_res_" in path):
                continue
            spare = w.path("spare%d" % n)
            shutil.copyfile(path, spare)
            size = os.path.getsize(path)
            if t["damage"] == "missing":
                os.remove(path)
            elif t["damage"] == "junk":
                with open(path, "wb") as f:
                    f.write(bytes((i * 37 + 11) % 256 for i in range(int(t["frac"] * 2000))))
            else:
                cut = {"truncate": int(size * t["frac"]), "tail": size - 1 - int(t["frac"] ** 3 * 2000), "empty": 0}[t["damage"]]
                os.truncate(path, max(0, cut))
            say = (t["damage"], os.path.basename(path))
            w.stats["faults"]["DAMAGE_" + t["damage"]] = w.stats["faults"].get("DAMAGE_" + t["damage"], 0) + 1

            def undo(path=path, spare=spare):
                shutil.copyfile(spare, path)

        disarm = w.io.disarm

        def between():
            disarm()
            undo()

        o, log = w.process(open_twice(what, between), faults=faults, dirseed=p["d"], cpu=10)
        undo()
        fired = any(e[6] for e in log) or "damage" in t
        w.note(say, o.how, o.value and [x for x in o.value])
        w.state(shape, say, o.how)
        if o.how == "hung" and fired or o.how == "died" and fired:
            w.stats["library_died"] = w.stats.get("library_died", 0) + 1
            continue
        if not o.ok:
            w.violate("open-died", "%s on %s: %r" % (say, what, o))
            return
        (how, v), fds, (how2, v2) = o.value
        if how == "data" and v:
            w.violate("read-fault-data", "%s while opening the %s: it gave data, with %s" % (say, what, v))
            return
        if not fired and how != "data":
            w.violate("open-failed", "nothing went wrong opening the %s, yet %s" % (what, v))
            return
        if how == "raised":  # what the library leaves open of the one file it fails to open is not the system's doing
            fds = [f for f in fds if "'/%s'" % f not in v]
        if how == "raised" and fds:
            w.violate("left-open", "%s while opening the %s (%s): still open afterwards: %s" % (say, what, v, fds))
            return
        if module and how2 == "raised" and v2.startswith(("ModuleNotFoundError", "ImportError")):
            continue  # the interpreter's import system remembers the listing it failed to get
        if (how2, v2) != ("data", []):
            w.violate("retry-failed", "%s while opening the %s (%s); the fault gone, a retry in the same process: %s %s" % (say, what, how, how2, v2))
            return
