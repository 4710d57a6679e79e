"""C15 Restarting from saved intermediate results equals running straight through."""

import copy
import os

from props import c09
from sim import data, faulty, simpool, solver, world

ID = "C15"
LEVEL = "exploration"
RUNS = {"quick": 64, "thorough": 3000}
CPU = 600
RULE = ("One case is one restart of the real solver from a preconditioner solution or solver state on disk, after a drawn history of runs that "
        "saved it, some crashed or failed at a drawn operation of the save. Non-trivial: a fault fired or the solver ran to its end; distinct by "
        "(data shape, history of saves and faults, what the restart takes, outcome).")
REAL = ["full_eiv_solver main and its command line", "HarmonisationOp.run", "HarmonisationOp.calculate_GNOp_initial", "HarmonisationEIV",
        "HarmonisationEIVPC", "GNAlgo.save/open", "HarmonisationResult", "MatchUpReader", "Transform2NormInd", "netCDF4/HDF5", "pickle"]
STUB = ["multiprocessing.Pool: SimPool (real forked workers, simulated scheduling)", "random numbers, clock, directory order: seeded",
        "sensor models: synthetic, analytic", "the catalogue of sensors: one entry, the synthetic sensors",
        "calculate_GNOp_initial: its data reader and paths are set on the operator by the harness, as its scripts would"]
ASSUMPTIONS = c09.ASSUMPTIONS + ["Intermediates come from runs on the same dataset."]


def setup(ns):
    world.wire_tools(ns)


def gen(rng, i, tier):
    n = rng.choice([1, 1, 1, 2])
    while True:
        spec = data.gen_spec(rng, n_sensors=n, m=rng.choice([1, 2, 2]), p=rng.choice([1, 2, 2, 3] if n == 1 else [1, 2]), max_M=5, mixed_m=True,
                             time_model=True)
        if len(spec["series"]) <= 2:
            break
    for s in spec["series"]:
        s["M"] = rng.randint(60, 80)

    def accident():
        return {"seed": rng.randrange(1 << 30), "d": rng.randrange(1 << 20), "sched": {"seed": rng.randrange(1 << 30), "workers": rng.choice([None, 1, 2, 5])},
                "entry": rng.choice(["op", "cli", "eiv"])}

    what = ["pc", "gn", "pc", "both"][i % 4]
    saves = []
    for k in range(rng.choice([1, 1, 2, 3])):
        s = accident()
        s["saves"] = what if what != "both" else rng.choice(["pc", "gn", "both", "both"])
        s["initial"] = rng.random() < 0.4   # the state before the solver ran, by the operator's own step
        r = rng.random()
        if r < 0.45:
            s["fault"] = faulty.crash_point(rng, late=rng.choice([None, 0.3]))
        elif r < 0.65:
            s["fault"] = faulty.write_error(rng)
        saves.append(s)
    restarts = []
    for k in range(rng.choice([1, 1, 2])):
        r = accident()
        r["takes"] = what if what != "both" else rng.choice(["pc", "gn", "both", "both"])
        r["pc_as"] = rng.choice(["file", "dir"])
        if rng.random() < 0.25:
            r["fault"] = faulty.read_error(rng)
        if rng.random() < 0.3:
            r["again"] = True  # saves what it was given again elsewhere
        restarts.append(r)
    return {"spec": spec, "saves": saves, "restarts": restarts}


def shrink(p):
    for f in ("restarts", "saves"):
        for k in range(len(p[f])):
            if len(p[f]) > 1:
                q = copy.deepcopy(p)
                del q[f][k]
                yield q
            for g in ("fault", "again"):
                if p[f][k].get(g):
                    q = copy.deepcopy(p)
                    del q[f][k][g]
                    yield q
    for s in data.shrink_spec(p["spec"]):
        if min(x["M"] for x in s["series"]) < 50:
            continue
        q = copy.deepcopy(p)
        q["spec"] = s
        yield q


def run(p, w):
    ns, spec = w.ns, p["spec"]
    tr = data.truth(spec)
    folder = w.path("data_SET")
    paths = data.write_dataset(spec, folder, tr)
    o = world.fork_call(lambda: c09.expected(ns, spec, tr, sorted(paths)), cpu=200)
    if not o.ok or o.value[0] is None:
        w.violate("solve-failed", "transforming the data: %r %s" % (o, o.value))
        return
    want = o.value[0]
    root = w.path("work")
    os.makedirs(root)
    shape = (spec["m"], spec["p"], [(s["s"], s["M"], s["t"]) for s in spec["series"]])
    conf = {"software": "EV", "version": "0.1", "tag": "x", "job_id": "01", "matchup_dataset": "SET"}

    def where(base):
        return os.path.join(base, "inter_pc", "harm_pc.nc"), os.path.join(base, "inter_gn")

    def solve(a, base, out, **kw):
        """One run of the solver from the match-up data, by the entry point drawn; its parameters as a result or from its file."""
        def f():
            os.makedirs(out, exist_ok=True)
            os.makedirs(os.path.join(base, "inter_pc"), exist_ok=True)
            simpool.use(simpool.Schedule(a["sched"]["seed"], a["sched"].get("workers")))
            world.seed_all(a["seed"])
            if a.get("initial") and kw.get("save_gn"):
                op = ns.HarmonisationOp()
                op.dataset_paths, op.sensor_data_path, op.output_dir = sorted(paths), "sensors", kw["save_gn"] + ".d"

                def reader(dataset_paths, sensor_data_path, open_uncertainty=True, open_additional_values=True):
                    H = ns.open_matchup(dataset_paths, open_uncertainty=open_uncertainty, open_additional_values=open_additional_values)
                    H.setSensorData(data.sensor_data(spec, tr))
                    return H
                op.data_reader = reader
                op.calculate_GNOp_initial()
                if not kw.get("save_pc"):
                    return None
                kw.pop("save_gn")
            if a["entry"] == "eiv":
                R = ns.HarmonisationEIV().run(solver.open_data(ns, spec, folder, tr), show=0, **kw)
                return c09.of_result(R)
            if a["entry"] == "op":
                ns.HarmonisationOp().run(folder, data.sensor_data(spec, tr), out, show=0, software_cfg=conf, **kw)
            else:
                c09.command_line(False, spec, tr, folder, out, [x for k, v in sorted(kw.items()) for x in ("--" + k, v)])
            return c09.of_result(ns.HarmonisationResult(out))
        return f

    sure = {}      # places of intermediates -> whether what is there was saved without an error, and nothing touched it since
    gn_at = where(root)[1]
    hist = []
    for n, s in enumerate(p["saves"]):
        pc, gn = where(root)
        kw = {}
        if s["saves"] in ("pc", "both"):
            kw["save_pc"] = pc
        if s["saves"] in ("gn", "both"):
            kw["save_gn"] = gn
        faults = []
        if "fault" in s:
            spare = w.copy(root)
            pc2, gn2 = where(spare)
            kw2 = {k: pc2 if k == "save_pc" else gn2 for k in kw}
            dry, log = w.process(solve(s, spare, os.path.join(spare, "out"), **kw2), root=spare, seed=s["seed"] & 0xffffff, dirseed=s["d"], cpu=280)
            world.wipe(spare)
            if not dry.ok:
                w.violate("save-failed", "a run that saves %s after %s: %r" % (sorted(kw), hist, dry))
                return
            el = world.eligible(log, s["fault"]["act"])
            from sim.simio import WRITE_KINDS
            el = [k for k in el if "inter_" in log[k][1] and (not s["fault"].get("writes_only") or log[k][0] in WRITE_KINDS)]
            if el:
                faults = [dict(s["fault"], at=el[int(s["fault"]["pick"] * len(el)) % len(el)])]
        o, log = w.process(solve(s, root, os.path.join(root, "out%d" % n), **kw), faults=faults, root=root, seed=s["seed"] & 0xffffff, dirseed=s["d"], cpu=280)
        fired = any(e[6] for e in log)
        if o.how == "hung" or not o.ok and not fired:
            w.violate("save-failed", "a run that saves %s after %s: %r" % (sorted(kw), hist, o))
            return
        hist.append((s["entry"], tuple(sorted(kw)), bool(s.get("initial")), faults and faults[0]["act"], o.how))
        places = {}
        if "save_pc" in kw:
            places["pc"] = os.path.dirname(pc)
        if "save_gn" in kw:
            gn_at = places["gn"] = os.path.join(gn + ".d", "temp", "GNOp_initial") if s.get("initial") else gn
        for k in places.values():
            if o.ok:
                sure[k] = True
            elif any(e[0] in _writes() and os.path.join(root, e[1].strip("/")).startswith(k + "/") for e in log):
                sure[k] = False
        if o.ok and o.value is not None:
            bad = c09.off(o.value, want)
            if bad:
                w.violate("other-result", "a run that saves %s: %s" % (sorted(kw), "; ".join(bad)))
                return

    for n, r in enumerate(p["restarts"]):
        pc, gn = where(root)
        kw, must = {}, True
        if r["takes"] in ("pc", "both"):
            kw["pc_input"] = pc if r["pc_as"] == "file" else os.path.dirname(pc)
            must = must and sure.get(os.path.dirname(pc), False)
        if r["takes"] in ("gn", "both"):
            kw["gn_input"] = gn_at
            must = must and sure.get(gn_at, False)
        if r.get("again"):
            kw["save_pc"] = os.path.join(root, "again%d" % n, "harm_pc.nc")
            os.makedirs(os.path.dirname(kw["save_pc"]))
        out = os.path.join(root, "res%d" % n)
        faults = []
        o, log = w.process(solve(r, root, out, **kw), root=root, seed=r["seed"] & 0xffffff, dirseed=r["d"], cpu=280)
        w.note(hist, r["entry"], sorted(kw), o.how)
        w.state(shape, hist, r["entry"], sorted(kw), r["pc_as"], o.how)
        say = "restart %d (%s, %s) after %s" % (n, r["entry"], sorted(kw), hist)
        if o.how in ("hung", "died"):
            w.violate("no-progress", "%s: %r" % (say, o))
            return
        if not o.ok:
            if must:
                w.violate("restart-failed", "%s: %r" % (say, o))
                return
            continue
        bad = c09.off(o.value, want)
        if bad:
            w.violate("other-result", "%s: %s" % (say, "; ".join(bad)))
            return
        if "fault" in r:   # once more, with a read of the intermediates failing
            el = [k for k in world.eligible(log, r["fault"]["act"]) if "inter_" in log[k][1]]
            if el:
                f = dict(r["fault"], at=el[int(r["fault"]["pick"] * len(el)) % len(el)])
                o, log = w.process(solve(r, root, out + "f", **{k: v for k, v in kw.items() if k != "save_pc"}), faults=[f], root=root,
                                   seed=r["seed"] & 0xffffff, dirseed=r["d"], cpu=280)
                w.state(shape, "read fault", f["act"], o.how)
                if o.ok:
                    bad = c09.off(o.value, want)
                    if bad:
                        w.violate("other-result", "%s, a read failing (%s): %s" % (say, f["act"], "; ".join(bad)))
                        return


def _writes():
    from sim.simio import WRITE_KINDS
    return WRITE_KINDS
