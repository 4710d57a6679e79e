"""C02 A saved solver state reopens as one complete saved state or not at all."""

import copy
import os

import numpy as np

from sim import data, faulty, oracle, solver, world

ID = "C02"
LEVEL = "exploration"
RUNS = {"quick": 600, "thorough": 6000}
RULE = ("One case is one history on one state directory: saves of the states of one or two datasets by the real solver, some "
        "crashed at an I/O operation or hit by a disk fault, each followed by a reopen in a new process. Non-trivial: a fault "
        "fired or a state was reopened; distinct by (history of outcomes, operations at the fault, data shape).")
REAL = ["GNAlgo.save", "GNAlgo.open", "GNAlgo.calculate_parameter_covariance_matrix_ij", "MatchUpReader", "Transform2NormInd",
        "netCDF4/HDF5 file writing and reading", "pickle"]
STUB = ["sensor models: synthetic, analytic"]
ASSUMPTIONS = ["Process crashes: what was written before the crash is on disk, in order. The code never calls fsync.",
               "Stored precision is single precision for arrays; the index is stored exactly."]


def gen(rng, i, tier):
    specs = [data.gen_spec(rng, n_sensors=rng.choice([1, 1, 2]), max_M=8, mixed_m=True, time_model=True)]
    if rng.random() < 0.5:
        b = data.gen_spec(rng, n_sensors=len(specs[0]["sensors"]) - 1, max_M=8, mixed_m=True, time_model=True)
        specs.append(b)
    elif rng.random() < 0.5:  # same shape, other numbers: only the values tell the states apart
        b = copy.deepcopy(specs[0])
        b["seed"] += 1
        specs.append(b)
    steps = []
    for k in range(rng.choice([1, 2, 2, 3, 4])):
        s = {"spec": rng.randrange(len(specs)), "s_seed": rng.randrange(1, 1 << 30), "x_seed": rng.randrange(1, 1 << 30), "faults": []}
        r = rng.random()
        if k and r < 0.55 or not k and r < 0.35:
            s["faults"] = [faulty.crash_point(rng, late=rng.choice([None, None, 0.3]))]
        elif r < 0.75:
            s["faults"] = [faulty.write_error(rng)]
        elif r < 0.8:
            s["faults"] = [faulty.write_error(rng), faulty.crash_point(rng)]
        if rng.random() < 0.25:
            s["reopen"] = faulty.read_error(rng)
        steps.append(s)
    return {"specs": specs, "steps": steps, "dir": rng.choice(["GNOp", "temp/GNOp_initial", "a b/state"]), "made": rng.random() < 0.5}


def shrink(p):
    for k in range(len(p["steps"])):
        if len(p["steps"]) > 1:
            q = copy.deepcopy(p)
            del q["steps"][k]
            yield q
        if p["steps"][k].get("reopen"):
            q = copy.deepcopy(p)
            del q["steps"][k]["reopen"]
            yield q
        for f in range(len(p["steps"][k]["faults"])):
            q = copy.deepcopy(p)
            del q["steps"][k]["faults"][f]
            yield q
    for n in range(len(p["specs"])):
        for s in data.shrink_spec(p["specs"][n]):
            q = copy.deepcopy(p)
            q["specs"][n] = s
            yield q


def snapshot(GN):
    return {"S": faulty.arr(GN.S), "values": faulty.arr(GN.HData.values), "xyza": faulty.arr(GN.xyza), "ks": faulty.arr(GN.HData.ks), "idx": faulty.plain(GN.HData.idx)}


def same(got, want):
    return [k for k in ("S", "values", "xyza") if not faulty.close(got[k], faulty.as_f4(want[k]), rel=3e-7)] + \
        ([] if faulty.close(got["ks"], want["ks"], rel=1e-12) else ["ks"]) + \
        (["idx"] if got["idx"] != want["idx"] else [])


def run(p, w):
    ns = w.ns
    sets = []
    for n, spec in enumerate(p["specs"]):
        tr = data.truth(spec)
        sets.append((spec, tr, data.write_dataset(spec, w.path("in%d" % n), tr)))
    root = w.path("out")
    os.makedirs(root)
    state_dir = os.path.join(root, *p["dir"].split("/"))
    if p["made"]:
        os.makedirs(state_dir)
    saved = []     # complete states that a reopen may give, oldest first
    certain = None  # the state a reopen must give
    shape = [(s["m"], s["p"], [(x["M"], x["t"]) for x in s["series"]]) for s in p["specs"]]
    hist = []
    for k, st in enumerate(p["steps"]):
        spec, tr, paths = sets[st["spec"]]
        GN = solver.make_solver(ns, spec, list(paths), tr, st["s_seed"], st["x_seed"])
        want = snapshot(GN)
        want["spec"] = st["spec"]
        n_a = len(GN.HData.a)
        i, j = st["x_seed"] % n_a, (st["x_seed"] // 7) % n_a

        def save():
            GN.save(state_dir)
            return True

        faults = []
        if st["faults"]:
            spare = w.copy(root)
            d2 = os.path.join(spare, *p["dir"].split("/"))
            dry, log = w.process(lambda: GN.save(d2), root=spare)
            if not dry.ok:
                w.violate("save-failed", "undisturbed save after %s: %r" % (hist, dry))
                return
            faults = [f for f in (world.resolve(f, log) for f in st["faults"]) if f]
            world.wipe(spare)
        o, log = w.process(save, faults=faults, root=root, cpu=20)
        fired = [(f[0], f[1].split("/")[-1]) for f in log if f[6]]
        hist.append((st["spec"], o.how, [f["act"] for f in faults], fired))
        if o.how == "hung" or o.how == "died" and not fired:
            w.violate("save-died", "%r %s" % (o, hist))
            return
        if not fired and not o.ok:
            w.violate("save-failed", "nothing went wrong, yet %r; history %s" % (o, hist))
            return
        if o.ok:
            certain = want
            saved = [want]
        else:
            certain = None
            saved = saved + [want]

        # reopen in new processes: undisturbed, and perhaps with a read failing
        hd = {}

        def reopen(cov):
            def f():
                n = st["spec"]
                for m in [n] + [x for x in range(len(sets)) if x != n]:
                    H = solver.open_data(ns, sets[m][0], list(sets[m][2]), sets[m][1])
                    G = ns.GNAlgo(H)
                    G.open(state_dir)
                    got = snapshot(G)
                    if all(same(got, s) for s in saved if s["spec"] == m):
                        continue
                    c = None
                    if cov:
                        c = float(np.asarray(G.calculate_parameter_covariance_matrix_ij([i, j])).ravel()[-1])
                    return got, c
                return got, None
            return f

        tries = [None] + ([st["reopen"]] if st.get("reopen") else [])
        rlog = None
        for t in tries:
            f = []
            if t is not None:
                f = [x for x in [world.resolve(t, rlog)] if x]
            r, lg = w.process(reopen(t is None and o.ok), faults=f, root=root, cpu=20)
            if t is None:
                rlog = lg
            hist.append(("reopen", t and t["act"], r.how))
            w.state(shape, hist)
            w.note(hist[-1], hist[-2])
            if r.how == "hung" or r.how == "died" and t is None:
                w.violate("reopen-died", "%r %s" % (r, hist))
                return
            if not r.ok:
                if t is None and certain is not None:
                    w.violate("saved-state-lost", "the save succeeded, reopening it: %r; history %s" % (r, hist))
                continue
            got, c = r.value
            diffs = [same(got, s) for s in saved]
            if all(diffs):
                kind = "partial-state" if not o.ok else "altered-state"
                w.violate(kind if t is None else "read-fault-data", "reopened data equals no complete saved state; it differs from each in %s; history %s" % (diffs, hist))
                continue
            if c is not None and certain is not None and o.ok:
                prob = oracle.Problem(spec, tr, GN.HData.idx, oracle.unc_info(GN.HData.unc))
                V, Hn = prob.covariance(np.asarray(GN.xyza, dtype=np.float64))
                if prob.preconditioned_condition(Hn, np.asarray(GN.S, dtype=np.float64)) < 1e6:
                    err = abs(c - V[i, j]) / np.sqrt(V[i, i] * V[j, j])
                    w.stats["elements"] = w.stats.get("elements", 0) + 1
                    if not err < 5e-4:
                        w.violate("other-covariance", "element (%d, %d) from the reopened state is off by %.3g of sqrt(Vii Vjj)" % (i, j, err))
