"""C09 Harmonisation finds the same optimum whatever the run's accidents."""

import copy
import os

import numpy as np

from sim import data, faulty, matchups, oracle, results, simpool, solver, world

ID = "C09"
LEVEL = "exploration"
RUNS = {"quick": 120, "thorough": 4000}
CPU = 600
RULE = ("One case is one harmonisation by the real code, from match-up files to solution or saved result, under one random draw for the "
        "preconditioner, task schedule, listing order and clock, after zero or more attempts that crashed or failed at a drawn operation. "
        "Non-trivial: the solver ran to its end, or a fault fired; distinct by (data shape, entry point, schedule, faults, outcome).")
REAL = ["full_eiv_solver main and its command line", "HarmonisationOp.run", "MatchUpReader", "Sample2Ind", "Transform2NormInd", "HarmonisationEIVPC",
        "HarmonisationEIV", "GNAlgo", "PCAlgo", "pykrylov", "HarmonisationResult", "SensorDataFactory and the AVHRR sensor models (in one run of four)", "netCDF4/HDF5"]
STUB = ["multiprocessing.Pool: SimPool (real forked workers, simulated scheduling)", "random numbers, clock, directory order: seeded",
        "sensor models and catalogue of sensors: synthetic in three runs of four"]
ASSUMPTIONS = ["Agreement to 0.01 standard deviations in the parameters, 5e-4 of the cost, 0.01 standardised units in the residuals and 5e-4 in the "
               "covariance: the solver works in single precision and stops at a tolerance (measured: up to 1e-3, 5e-5, 1e-3, 7e-5).",
               "The starting variables z0 are the system's own; they are checked to reproduce the data.",
               "Problems with enough match-ups for the preconditioner's tenth to determine the parameters.",
               "HIRS and MW entries of the catalogue are not run: the solver refuses HIRS radiances in SI units in single precision (Matrix is not "
               "positive definite), and the microwave model's derivatives are not those of its measurand (DESIGN.md)."]
TOL_A, TOL_C, TOL_V, TOL_R = 0.01, 5e-4, 5e-4, 0.01


def setup(ns):
    world.wire_tools(ns)


def gen(rng, i, tier):
    n = rng.choice([1, 1, 1, 1, 2])
    while True:
        spec = data.gen_spec(rng, n_sensors=n, m=rng.choice([1, 2, 2, 3] if n == 1 else [1, 2]), p=rng.choice([1, 2, 2, 3] if n == 1 else [1, 2]),
                             max_M=5, mixed_m=True, time_model=True, repeat_pairs=rng.random() < 0.3, ref_first=rng.random() < 0.7)
        if len(spec["series"]) <= 3:
            break
    top = 100 if tier == "thorough" else 75
    for s in spec["series"]:
        s["M"] = rng.randint(60, top)
    mode = ["eiv", "op", "eiv", "cli"][i % 4]
    if i % 4 == i // 4 % 4:
        data.of_catalogue(rng, spec, i // 4 + i // 32)
        for s in spec["series"]:
            s["M"] = rng.randint(80, 100)

    if i % 5 == 2 and not spec.get("catalogue"):
        spec["astray"] = rng.choice([0.5, 1.0, 3.0])  # a start far from the optimum

    def accident():
        return {"seed": rng.randrange(1 << 30), "d": rng.randrange(1 << 20), "clock": rng.choice([None, 0, 1.5e9, 4e9]),
                "jumps": [[rng.randrange(1, 60), rng.choice([-1e5, 3600.0, -5.0])] for _ in range(rng.choice([0, 0, 2]))],
                "sched": {"seed": rng.randrange(1 << 30), "workers": rng.choice([None, 1, 2, 5]), "chunk": rng.choice([None, 1, 2])}}

    attempts = []
    if mode != "eiv":
        for _ in range(rng.choice([1, 2, 2])):
            r = rng.random()
            a = accident()
            if r < 0.2:
                a["sched"]["fail"] = rng.random()
            elif r < 0.6:
                a["fault"] = faulty.crash_point(rng, late=rng.choice([None, 0.1]))
            elif r < 0.85:
                a["fault"] = faulty.write_error(rng)
            else:
                a["fault"] = faulty.read_error(rng)
            attempts.append(a)
    return {"spec": spec, "mode": mode, "runs": [accident() for _ in range(2)], "attempts": attempts, "job": rng.random() < 0.5,
            "form": rng.choice(["dir", "files", "reversed"]) if mode == "eiv" else "dir"}


def shrink(p):
    for f in ("attempts", "runs"):
        for k in range(len(p[f])):
            if f == "runs" and len(p[f]) == 1:
                continue
            q = copy.deepcopy(p)
            del q[f][k]
            yield q
    for k, a in enumerate(p["runs"]):
        if a["jumps"] or a["clock"] is not None:
            q = copy.deepcopy(p)
            q["runs"][k].update(jumps=[], clock=None)
            yield q
    for s in data.shrink_spec(p["spec"]):
        if min(x["M"] for x in s["series"]) < 50:
            continue
        q = copy.deepcopy(p)
        q["spec"] = s
        yield q


def expected(ns, spec, tr, paths):
    """The optimum, by the independent solver from the variables the system starts with; None with a reason if those do not
    reproduce the data."""
    H = ns.Transform2NormInd().run(solver.open_data(ns, spec, list(paths), tr))
    prob = oracle.Problem(spec, tr, H.idx, oracle.unc_info(H.unc))
    z0 = np.array(H.values, dtype=np.float64)
    a0 = np.concatenate([tr["a_true"][spec["sensors"].index(s)] for s in dict.fromkeys(prob.params)])
    worst = 0.0
    for ser, uK, sides in prob.parts:
        for side, (k, maps, ac, ip) in enumerate(sides):
            worst = max(worst, float(np.max(np.abs(prob.X(z0, maps, ser["M"]) - ser["X"][side]) / [b for _, b in tr["range"][k]])))
    if worst > 5e-6:
        return None, "the transformed variables reproduce the data only to %.3g" % worst
    v, c, V = prob.solve(z0, a0)
    k, _, K = prob.evaluate(v, False)
    res = []
    for i, (ser, uK, sides) in enumerate(prob.parts):
        r = slice(prob.cN[i], prob.cN[i + 1])
        X = [[prob.X(v, maps, ser["M"])[:, q] - ser["X"][side][:, q] for q in range(len(maps))] for side, (_, maps, _, _) in enumerate(sides)]
        res.append((tuple(ser["sensors"]), (k - K)[r] * uK, X))
    scale = [(uK, [[np.maximum(ser["Ur"][s][:, q], 0.01 * tr["scale"][sides[s][0]][q]) for q in range(ser["X"][s].shape[1])] for s in (0, 1)])
             for ser, uK, sides in prob.parts]
    return {"a": v[prob.N:], "cost": c, "V": V, "sensors": prob.params, "res": res, "scale": scale,
            "sys": v[prob.N - prob.lay.n_sys:prob.N]}, None


def off(got, want):
    """What is wrong with a solution, as text; got: parameter, covariance, cost, residual series."""
    sensors = [str(s) for s in got["sensors"]]
    if sorted(sensors) != sorted(want["sensors"]):
        return ["parameters belong to %s, not %s" % (sensors, want["sensors"])]
    order = [n for s in dict.fromkeys(sensors) for n, x in enumerate(want["sensors"]) if x == s]  # by sensor, in the order they came
    if [want["sensors"][n] for n in order] != sensors:
        return ["parameters of the sensors are mixed: %s" % sensors]
    want = dict(want, a=want["a"][order], V=want["V"][np.ix_(order, order)])
    sig = np.sqrt(np.diag(want["V"]))
    out = []
    a, V = faulty.arr(got["parameter"]), faulty.arr(got["covariance"])
    if a.shape != want["a"].shape or V.shape != want["V"].shape:
        return ["shapes %s %s" % (a.shape, V.shape)]
    e = np.max(np.abs(a - want["a"]) / sig)
    if not e <= TOL_A:
        out.append("parameters off by %.3g standard deviations: %s, optimum %s" % (e, a.tolist(), want["a"].tolist()))
    e = abs(float(got["cost"][0]) - want["cost"]) / (1 + want["cost"])
    if not e <= TOL_C:
        out.append("cost %.8g, optimum %.8g" % (float(got["cost"][0]), want["cost"]))
    e = np.max(np.abs(V - want["V"]) / np.outer(sig, sig))
    if not e <= TOL_V:
        out.append("covariance off by %.3g of sqrt(Vii Vjj)" % e)
    if len(got["residuals"]) != len(want["res"]):
        return out + ["residuals of %d series" % len(got["residuals"])]
    left = list(zip(want["res"], want["scale"]))
    for pair, ks, X in got["residuals"]:
        best = None
        for n, ((wpair, wks, wX), (su, sX)) in enumerate(left):
            if tuple(pair) != wpair or len(ks) != len(wks) or [len(x) for x in X] != [len(x) for x in wX]:
                continue
            e = np.max(np.abs(ks - wks) / su)
            for s in (0, 1):
                for q in range(len(X[s])):
                    e = max(e, np.max(np.abs(X[s][q] - wX[s][q]) / sX[s][q]))
            if best is None or not e >= best[0]:
                best = (e, n)
        if best is None or not best[0] <= TOL_R:
            out.append("residuals of %s off by %s standardised units" % (pair, best and "%.3g" % best[0]))
        if best is not None:
            left.pop(best[1])
    return out


def of_result(R):
    return {"parameter": faulty.arr(R.parameter), "covariance": faulty.arr(R.parameter_covariance_matrix), "cost": [float(R.cost)],
            "sensors": [str(s) for s in R.parameter_sensors], "residuals": results.series(R.idx, R.values_res, R.ks_res)}


def run(p, w):
    ns, spec = w.ns, p["spec"]
    tr = data.truth(spec)
    folder = w.path("data_SET")
    paths = data.write_dataset(spec, folder, tr)
    shape = (spec.get("catalogue"), spec["m"], spec["p"], [(s["s"], s["M"], s["t"]) for s in spec["series"]], p["mode"])
    o = world.fork_call(lambda: expected(ns, spec, tr, sorted(paths)), cpu=200)
    if not o.ok:
        w.violate("solve-failed", "transforming the data: %r" % o)
        return
    want, why = o.value
    if want is None:
        w.violate("wrong-start", why)
        return

    def body(a, out):
        def f():
            s = simpool.Schedule(a["sched"]["seed"], a["sched"].get("workers"), a["sched"].get("chunk"), a["sched"].get("fail"))
            simpool.use(s)
            world.seed_all(a["seed"])
            if p["mode"] == "eiv":
                given = {"dir": folder, "files": list(paths), "reversed": list(reversed(paths))}[p["form"]]
                H = ns.open_matchup(given)
                H.setSensorData(data.sensor_data(spec, tr))
                R = ns.HarmonisationEIV().run(H, show=0)
                return of_result(R), s.trace, s.failed
            if p["mode"] == "op":
                ns.HarmonisationOp().run(folder, data.sensor_data(spec, tr), out, show=0,
                                         software_cfg={"software": "EV", "version": "0.1", "tag": "x", "job_id": "01", "matchup_dataset": "SET"})
            else:
                command_line(p["job"], spec, tr, folder, out)
            return None, s.trace, s.failed
        return f

    def attempt(a, out, faults=()):
        o, log = w.process(body(a, out), faults=faults, seed=a["seed"] & 0xffffff, dirseed=a["d"], clock=a["clock"],
                           jumps=[tuple(j) for j in a["jumps"]], cpu=280, wall=400)
        if o.ok:
            w.schedules.add(repr(o.value[1]))
        return o, log

    def load(out):
        def f():
            return of_result(ns.HarmonisationResult(out)), sorted(os.listdir(out))
        return world.fork_call(f)

    if p["mode"] == "eiv":
        for n, a in enumerate(p["runs"]):
            o, _ = attempt(a, None)
            w.note(n, o.how, o.value[1] if o.ok else "")
            w.state(shape, n, o.how, o.value[1] if o.ok else "")
            if not o.ok:
                w.violate("no-progress" if o.how == "hung" else "solve-failed", "undisturbed harmonisation: %r" % o)
                return
            bad = off(o.value[0], want)
            if bad:
                w.violate("wrong-optimum", "run %d: %s" % (n, "; ".join(bad)))
                return
        return

    def settled(out, say):
        g = load(out)
        if not g.ok:
            w.violate("no-result", "%s: the result does not load: %r" % (say, g))
            return None
        bad = off(g.value[0], want)
        if bad:
            w.violate("wrong-optimum", "%s: %s" % (say, "; ".join(bad)))
            return None
        return g.value[1]

    ref = w.fresh("out")
    o, log = attempt(p["runs"][0], ref)
    if not o.ok:
        w.violate("no-progress" if o.how == "hung" else "solve-failed", "undisturbed harmonisation: %r" % o)
        return
    files = settled(ref, "an undisturbed run")
    if files is None:
        return
    w.state(shape, "undisturbed", o.value[1])
    out = w.fresh("out")
    for n, a in enumerate(p["attempts"]):
        faults = []
        if "fault" in a:
            f = world.resolve(a["fault"], log)
            if f is None:
                continue
            faults = [f]
        o, l = attempt(a, out, faults)
        fired = any(e[6] for e in l) or bool(o.ok and o.value[2])
        w.note(n, a.get("fault", {}).get("act"), o.how, o.value[1] if o.ok else "")
        w.state(shape, a.get("fault", {}).get("act"), o.how, faults and world.log_shape(l)[-1:])
        if a["sched"].get("fail") is not None:
            w.stats["faults"]["TASK_RAISES@WORKER"] = w.stats["faults"].get("TASK_RAISES@WORKER", 0) + 1
        if o.ok and settled(out, "attempt %d ended without error" % n) is None:
            return
        if not o.ok and not fired and a["sched"].get("fail") is None:
            w.violate("solve-failed", "attempt %d met no fault, and: %r" % (n, o))
            return
    if len(p["runs"]) < 2 and not p["attempts"]:
        return
    a = p["runs"][-1]
    o, _ = attempt(a, out)
    if not o.ok:
        w.violate("no-progress" if o.how == "hung" else "solve-failed", "after %d attempts, the final run: %r" % (len(p["attempts"]), o))
        return
    got = settled(out, "after %d attempts" % len(p["attempts"]))
    if got is not None and got != files:
        w.violate("left-over", "after %d attempts the result's directory holds %s; after an undisturbed run %s" % (len(p["attempts"]), got, files))


def command_line(use_job, spec, tr, folder, out, extra=()):
    """full_eiv_solver, as the command line starts it."""
    import importlib
    import sys
    common = importlib.import_module("harmonisation.tools.common")

    class Catalogue(object):
        def get_sensor_data(self, name):
            if name != "SIMULATED":
                raise KeyError(name)
            return data.sensor_data(spec, tr)

        def get_names(self):
            return ["SIMULATED"]

    sensor = spec.get("catalogue") or "SIMULATED"
    if not spec.get("catalogue"):
        common.SensorDataFactory = Catalogue
    if use_job:
        job = os.path.join(os.path.dirname(out), "job_7.cfg")
        with open(job, "w") as f:
            f.write("[harmonisation]\ndataset_dir: %s\nsensor: %s\noutput_dir: %s\n" % (folder, sensor, out))
        sys.argv = ["full_eiv_solver", "-j", job, "--quiet"]
    else:
        sys.argv = ["full_eiv_solver", "-i", folder, "-s", sensor, "-o", out] + list(extra)
    m = importlib.import_module("harmonisation.tools.full_eiv_solver")
    if m.main() != 0:
        raise RuntimeError("status")
