"""C10 Input data is never altered."""

import copy
import hashlib
import os
import shutil

import numpy as np

from sim import conversion, convert, data, faulty, results, simpool, solver, world
from . import c09

ID = "C10"
LEVEL = "exploration"
RUNS = {"quick": 600, "thorough": 15000}
CPU = 400
RULE = ("One case is a history of operations on one input dataset: opening, harmonising (operator, command line), covariance elements, loading "
        "results, converting, some crashed or failing at a drawn I/O operation. The input's files are watched at every operation (no write-like "
        "call under the input folder) and compared before and after. Non-trivial: an operation read the input; distinct by (operations, "
        "form of the input, faults, outcomes).")
REAL = ["MatchUpReader", "Sample2Ind, Transform2NormInd, SimulateMatchUp", "full_eiv_solver and HarmonisationOp.run", "HarmonisationOp.calculate_parameter_covariance_ij, GNAlgo",
        "HarmonisationResult loading", "tools: MW_add_W_matrices, AVHRR_to_updated_spec, simulation_set_true_K, simulated_AVHRR", "netCDF4/HDF5"]
STUB = ["the files' contents: synthetic", "sensor models: synthetic", "multiprocessing.Pool: SimPool", "nplcore: the repository's own names of today"]
ASSUMPTIONS = ["Output, result and temporary directories given by the user lie outside the input dataset's folder."]


def setup(ns):
    world.wire_tools(ns)
    convert.load_tools(ns)


def gen(rng, i, tier):
    r = rng.random()
    plan = {"links": rng.random() < 0.25, "readonly": rng.random() < 0.3, "cwd": rng.choice(["", "", "in"]),
            "others": rng.sample(["notes.txt", "README", "x.nc.bak", ".hidden", "x.nc.part"], rng.choice([0, 0, 1, 2]))}
    if r < 0.4:
        plan["c"] = conversion.gen(rng)
        if plan["c"]["kind"] != "setk":
            plan["others"] = []
        kinds = ["convert"]
    elif r < 0.55:
        while True:
            spec = data.gen_spec(rng, n_sensors=1, m=rng.choice([1, 2]), p=rng.choice([1, 2]), max_M=5)
            if len(spec["series"]) == 1:
                break
        spec["series"][0]["M"] = rng.randint(25, 40)
        plan["spec"] = spec
        kinds = ["op", "cli"]
    else:
        plan["spec"] = data.gen_spec(rng, n_sensors=rng.choice([1, 1, 2]), max_M=8, mixed_m=True, repeat_pairs=True, p=rng.choice([1, 2]))
        kinds = ["open", "open", "load", "element", "open"]
    plan["ops"] = []
    for _ in range(rng.choice([1, 2, 2, 3]) if kinds[0] != "op" else rng.choice([1, 1, 2])):
        o = {"kind": rng.choice(kinds), "form": rng.choice(["file", "dir", "files", "dirs", "relative"]), "unc": rng.random() < 0.8,
             "more": rng.choice(["", "sample", "transform", "simulate"]), "d": rng.randrange(1 << 20), "seed": rng.randrange(1 << 30), "faults": [],
             "quit": rng.random() < 0.3}
        if rng.random() < 0.7:
            f = rng.choice([faulty.crash_point, faulty.write_error, faulty.read_error])(rng)
            o["faults"] = [f]
        plan["ops"].append(o)
    return plan


def shrink(p):
    for k in range(len(p["ops"])):
        if len(p["ops"]) > 1:
            q = copy.deepcopy(p)
            del q["ops"][k]
            yield q
        if p["ops"][k]["faults"]:
            q = copy.deepcopy(p)
            q["ops"][k]["faults"] = []
            yield q
    for f, v in (("links", False), ("readonly", False), ("cwd", ""), ("others", [])):
        if p[f] != v:
            yield dict(p, **{f: v})
    if "c" in p:
        for c in conversion.shrink(p["c"]):
            yield dict(p, c=c)
    else:
        for s in data.shrink_spec(p["spec"]):
            if not (p["ops"][0]["kind"] in ("op", "cli") and s["series"][0]["M"] < 20):
                yield dict(p, spec=s)


def snapshot(*folders):
    out = {}
    for n, folder in enumerate(folders):
        for d, ds, fs in os.walk(folder):
            for f in ds + fs:
                path = os.path.join(d, f)
                st = os.lstat(path)
                rel = "%d/%s" % (n, os.path.relpath(path, folder))
                if os.path.islink(path):
                    out[rel] = ("link", os.readlink(path))
                elif os.path.isdir(path):
                    out[rel] = ("dir", oct(st.st_mode))
                else:
                    with open(path, "rb") as g:
                        out[rel] = ("file", hashlib.sha1(g.read()).hexdigest(), oct(st.st_mode), st.st_ino, st.st_mtime_ns)
    return out


def changes(a, b):
    out = []
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            out.append("%s %s" % (k, "vanished" if k not in b else "appeared" if k not in a else
                                  "has other contents" if a[k][:2] != b[k][:2] else "was touched or replaced"))
    return out


def run(p, w):
    ns = w.ns
    folder = w.path("in")
    os.makedirs(folder)
    watched = [folder]
    C = tr = spec = None
    if "c" in p:
        C = conversion.Conversion(ns, p["c"], folder)
        tr = getattr(C, "tr", None)
    else:
        spec = p["spec"]
        tr = data.truth(spec)
        data.write_dataset(spec, folder, tr)
    if p["links"]:  # the dataset is a folder of links to an archive
        store = w.path("store")
        os.makedirs(store)
        for f in sorted(os.listdir(folder)):
            shutil.move(os.path.join(folder, f), os.path.join(store, f))
            os.symlink(os.path.join(store, f), os.path.join(folder, f))
        watched.append(store)
    names = sorted(f for f in os.listdir(folder) if f.endswith(".nc"))
    paths = [os.path.join(folder, f) for f in names]
    for f in p["others"]:
        with open(os.path.join(folder, f), "w") as g:
            g.write("nothing\n")
    for d in watched:
        if p["readonly"]:
            for f in os.listdir(d):
                if not os.path.islink(os.path.join(d, f)):
                    os.chmod(os.path.join(d, f), 0o444)
    # something to load, and a solver state for element jobs: made by undisturbed processes
    res, temp = w.path("res"), w.path("temp")
    kinds = [o["kind"] for o in p["ops"]]
    if "load" in kinds:
        os.makedirs(res)

        def make():
            H = ns.open_matchup(list(paths))
            H.setSensorData(data.sensor_data(spec, tr))
            R = results.make_result(ns, spec, H.idx, spec["seed"] % 1000)
            R.save(os.path.join(res, "harm_EV_0.1_x_01_SET.nc"), save_residuals=True)
        o = world.fork_call(make)
        if not o.ok:
            w.violate("setup-failed", "%r" % o)
            return
        watched.append(res)
    if "element" in kinds:
        os.makedirs(temp)
        GN = solver.make_solver(ns, spec, list(paths), tr, 7, 0)
        GN.save(temp)
    base = snapshot(*watched)

    def body(op, out):
        kind = op["kind"]

        def f():
            simpool.use(simpool.Schedule(op["seed"], None, None, None))
            os.makedirs(out, exist_ok=True)
            os.chdir(w.path(p["cwd"]) if p["cwd"] else out)
            if kind == "convert":
                C(out)
            elif kind == "open":
                given = {"file": paths[0], "dir": folder, "files": list(paths), "dirs": [folder], "relative": os.path.relpath(folder)}[op["form"]]
                H = ns.open_matchup(given, open_uncertainty=op["unc"] or bool(op["more"]))
                if op["more"]:
                    if op["form"] != "file":
                        H.setSensorData(data.sensor_data(spec, tr))
                    {"sample": lambda: ns.Sample2Ind().run(H, sf=2), "transform": lambda: ns.Transform2NormInd().run(H),
                     "simulate": lambda: ns.SimulateMatchUp().run(H, n_samples_mu=min([5] + [s["M"] for s in spec["series"]]))}[op["more"]]()
                if op["quit"]:
                    os._exit(137)
            elif kind == "load":
                ns.HarmonisationResult(res)
            elif kind == "op":
                ns.HarmonisationOp().run(folder, data.sensor_data(spec, tr), out, show=0,
                                         software_cfg={"software": "EV", "version": "0.1", "tag": "x", "job_id": "01", "matchup_dataset": "SET"})
            elif kind == "cli":
                c09.command_line(op["quit"], spec, tr, folder, out)
            else:
                HOp = ns.HarmonisationOp()
                HOp.dataset_paths, HOp.sensor_data_path, HOp.output_dir, HOp.temp_directory = list(paths), "sensors", out, temp

                def reader(dataset_paths, sensor_data_path, open_uncertainty=True, open_additional_values=True):
                    Hd = ns.open_matchup(dataset_paths, open_uncertainty=open_uncertainty, open_additional_values=open_additional_values)
                    Hd.setSensorData(data.sensor_data(spec, tr))
                    return Hd
                HOp.data_reader = reader
                HOp.calculate_parameter_covariance_ij(0, 0)
        return f

    hist = []
    for n, op in enumerate(p["ops"]):
        faults = []
        rounds = [False, True] if op["faults"] else [False]
        log = None
        for faulted in rounds:
            if faulted:
                faults = [f for f in (world.resolve(f, log) for f in op["faults"]) if f]
                if not faults:
                    break
            out = w.path("out%d" % (n if faulted else 100 + n))
            o, log = w.process(body(op, out), faults=faults, seed=op["seed"] & 0xffffff, dirseed=op["d"], input_prefix="in", cpu=150)
            hist.append((op["kind"], op["form"] if op["kind"] == "open" else "", op["more"] if op["kind"] == "open" else "", o.how,
                         [f["act"] for f in faults], [(e[0], e[1].split("/")[-1]) for e in log if e[6]]))
            w.note(hist[-1])
            now = snapshot(*watched)
            if w.io.input_writes:
                w.violate("write-to-input", "%d write operations on the input dataset: %s; history %s" % (
                    w.io.input_writes, [(e[0], e[1]) for e in log if (e[1] + "/").startswith("in/") and e[0] in simio_writes()][:5], hist))
                return
            if now != base:
                w.violate("input-altered", "%s; history %s" % (changes(base, now)[:6], hist))
                return
            if not faulted and not o.ok and not (op["quit"] and o.how == "crashed"):
                # what fails by itself: for other properties to judge, but this run says less
                w.stats["op_failed"] = w.stats.get("op_failed", 0) + 1
    w.state(p["links"], p["readonly"], p["cwd"], len(names), hist)


def simio_writes():
    from sim.simio import WRITE_KINDS
    return WRITE_KINDS
