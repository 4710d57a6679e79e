"""C03 Covariance computed by separate element jobs combines to the true matrix."""

import copy
import importlib
import os

import numpy as np
from netCDF4 import Dataset

from sim import data, faulty, oracle, solver, world

ID = "C03"
LEVEL = "exploration"
RUNS = {"quick": 200, "thorough": 5000}
RULE = ("One case is one history of a covariance computation by separate jobs: element jobs in a seeded order with repeats, "
        "crashes, disk faults and restarts, combining jobs attempted early, faulted and at the end. Non-trivial: more than one job; "
        "distinct by (history of jobs and outcomes, number of parameters).")
REAL = ["fullEIVsolver_covariance_analytical.main", "HarmonisationOp.calculate_parameter_covariance_ij / combine_parameter_covariance_ij",
        "GNAlgo.save/open/calculate_parameter_covariance_matrix_ij (in half of the runs)", "HarmonisationResult.save", "MatchUpReader",
        "netCDF4/HDF5", "numpy savetxt/loadtxt"]
STUB = ["configuration reading (missing at this commit): the job's paths are given to HarmonisationOp directly",
        "the element computation itself in runs with many parameters: a known matrix"]
ASSUMPTIONS = ["The jobs of a run are combined after all of them: elements of an earlier run in its directory must by then be overwritten, but nothing is said of combining earlier.",
               "Process crashes: what was written before the crash is on disk."]
TOL = 5e-4


def setup(ns):
    world.wire_tools(ns)
    ns.element = importlib.import_module("harmonisation.tools.fullEIVsolver_covariance_analytical")


def gen(rng, i, tier):
    real = i % 3 == 0
    if real:
        spec = data.gen_spec(rng, n_sensors=rng.choice([1, 1, 2]), p=rng.choice([1, 2, 2, 3]), m=rng.choice([1, 2]), max_M=6, mixed_m=True, time_model=True)
        while sum(spec["p"]) > 4:
            spec["p"][-1] = 1
            if sum(spec["p"]) > 4:
                spec["p"][1] = 2
        n = sum(spec["p"])
        plan = {"spec": spec, "s_seed": rng.randrange(1, 1 << 30), "x_seed": rng.randrange(1, 1 << 30)}
    else:
        n = rng.choice([1, 2, 3, 4, 5, 9, 10, 11, 12])
        plan = {"n": n, "v_seed": rng.randrange(1 << 30)}
    jobs = [{"ij": [a, b], "d": rng.randrange(1 << 20)} for a in range(n) for b in range(n)]
    order = rng.choice(["shuffle", "forward", "backward"])
    if order == "shuffle":
        rng.shuffle(jobs)
    elif order == "backward":
        jobs.reverse()
    history = []
    bad = rng.choice([0, 1, 1, 2, 3])
    for k in range(min(bad, len(jobs))):
        j = rng.choice(jobs)
        j["faults"] = [faulty.crash_point(rng) if rng.random() < 0.65 else faulty.write_error(rng)]
    for j in jobs:
        history.append({"job": j})
        if "faults" in j and rng.random() < 0.7:
            if rng.random() < 0.5:
                history.append({"combine": {"d": rng.randrange(1 << 20)}})
            history.append({"job": {"ij": j["ij"], "d": rng.randrange(1 << 20)}})
        elif rng.random() < 0.5 / n:
            history.append({"job": {"ij": j["ij"], "d": rng.randrange(1 << 20)}})  # the same element twice
    lost = []
    if rng.random() < 0.45:  # jobs that never run (yet)
        k = rng.choice([1, 1, 2, n, 2 * n - 1])
        el = [j["ij"] for j in jobs]
        if k == 2 * n - 1:
            lost = [e for e in el if n - 1 in e]
        elif k == n:
            q = rng.randrange(n)
            lost = [e for e in el if e[0] == q]
        else:
            lost = rng.sample(el, min(k, len(el)))
        history = [h for h in history if "combine" in h or h["job"]["ij"] not in lost]
    history.append({"combine": {"d": rng.randrange(1 << 20)}})
    if lost:
        history += [{"job": {"ij": e, "d": rng.randrange(1 << 20)}} for e in lost]
    history += [{"job": {"ij": j["ij"], "d": 0}} for j in jobs if "faults" in j]
    r = rng.random()
    if r < 0.3:
        history.append({"combine": {"d": rng.randrange(1 << 20), "faults": [faulty.read_error(rng)]}})
    elif r < 0.5:
        history.append({"combine": {"d": rng.randrange(1 << 20), "faults": [faulty.crash_point(rng)]}})
    elif r < 0.65:
        history.append({"combine": {"d": rng.randrange(1 << 20), "faults": [faulty.write_error(rng)]}})
    elif r < 0.8:
        history.append({"empty": rng.choice(jobs)["ij"]})
        e = history[-1]["empty"]
        history.append({"combine": {"d": rng.randrange(1 << 20)}})
        history.append({"job": {"ij": e, "d": rng.randrange(1 << 20)}})
    history.append({"combine": {"d": rng.randrange(1 << 20)}})
    if rng.random() < 0.35:  # elements an earlier run left behind
        el = [j["ij"] for j in jobs]
        el = el if rng.random() < 0.4 else rng.sample(el, rng.randint(1, len(el)))
        history = [{"stale": e, "x": rng.uniform(-2, 2), "d": 0} for e in el] + history
    plan["history"] = history
    plan["crowd"] = rng.random() < 0.3
    return plan


def shrink(p):
    h = p["history"]
    for k in range(len(h) - 1):
        q = copy.deepcopy(p)
        x = h[k]
        if "job" in x and "faults" in x["job"]:
            del q["history"][k]["job"]["faults"]
            yield q
        elif "combine" in x or "empty" in x or "stale" in x or sum(1 for y in h if y.get("job", {}).get("ij") == x["job"]["ij"]) > 1:
            del q["history"][k]
            yield q
    if "n" in p and p["n"] > 1:
        for n in (p["n"] // 2, p["n"] - 1):
            q = copy.deepcopy(p)
            q["n"] = n
            q["history"] = [x for x in q["history"] if "combine" in x or max(x["job"]["ij"] if "job" in x else x.get("empty") or x["stale"]) < n]
            yield q


def run(p, w):
    ns = w.ns
    from numpy import asarray
    out, temp = w.path("out"), w.path("out", "temp")
    os.makedirs(temp)
    V = None
    if "spec" in p:
        spec = p["spec"]
        tr = data.truth(spec)
        paths = data.write_dataset(spec, w.path("in"), tr)
        GN = solver.make_solver(ns, spec, list(paths), tr, p["s_seed"], p["x_seed"])
        prob = oracle.Problem(spec, tr, GN.HData.idx, oracle.unc_info(GN.HData.unc))
        V, H = prob.covariance(np.asarray(GN.xyza, dtype=np.float64))
        if prob.preconditioned_condition(H, np.asarray(GN.S, dtype=np.float64)) > 1e6:
            return
        GN.save(temp)
        n = len(V)
        idx, a, sensors = GN.HData._original_idx, np.array(GN.HData.a), list(GN.HData.idx["parameter_sensor"])
        tol = TOL
    else:
        n = p["n"]
        r = np.random.RandomState(p["v_seed"])
        A = r.randn(n, n)
        V0 = A.dot(A.T) + np.eye(n) * 0.1
        V0 *= 10.0 ** r.randint(-12, 3)
        E = V0 * (1 + 1e-4 * r.randn(n, n))  # elements as separate solves leave them: not quite symmetric
        V = (E + E.T) / 2
        a, sensors = r.randn(n), ["m%02d" % (k % 3) for k in range(n)]
        sensors.sort()
        tol = 1e-12

    R = ns.HarmonisationResult()
    R.parameter, R.parameter_sensors = asarray(a, dtype=float), sensors
    R.parameter_covariance_matrix = np.zeros((n, n)) if p.get("run", 0) % 2 else np.eye(n) * 7.5
    R.cost, R.cost_dof, R.cost_p_value = 12.5, 3, 0.5
    R.additional_attributes = {"software": "EV", "job_id": "01"}
    hpath = os.path.join(out, "harm_EV_0_x_01_set.nc")
    R.save(hpath, save_residuals=False)
    if p.get("crowd"):  # what else a temporary directory holds
        for nm in ("job.log", "parameter.sh", "GNOp_data.bak"):
            with open(os.path.join(temp, nm), "w") as f:
                f.write("x\n")

    def stored():
        try:
            d = Dataset(hpath)
            try:
                return {k: np.ma.filled(d.variables[k][:]) for k in d.variables}, {k: d.getncattr(k) for k in d.ncattrs()}
            finally:
                d.close()
        except Exception as e:
            return "unreadable: %s" % e, None

    base, attrs = stored()

    class HOpStub(object):
        pass

    def factory(left=None, **kw):
        HOp = ns.HarmonisationOp()
        HOp.dataset_paths = [os.path.join(w.path("in"), f) for f in sorted(os.listdir(w.path("in")))] if "spec" in p else []
        HOp.sensor_data_path, HOp.output_dir, HOp.temp_directory = "sensors", out, temp

        def reader(dataset_paths, sensor_data_path, open_uncertainty=True, open_additional_values=True):
            Hd = ns.open_matchup(dataset_paths, open_uncertainty=open_uncertainty, open_additional_values=open_additional_values)
            Hd.setSensorData(data.sensor_data(spec, tr))
            return Hd
        HOp.data_reader = reader
        if "spec" not in p:
            HOp.calculate_parameter_covariance_ij = lambda i, j: E[i, j]
        if left is not None:
            HOp.calculate_parameter_covariance_ij = lambda i, j: left
        return HOp

    def main(*ij, **kw):
        def f():
            m = ns.element
            for k, v in (("read_software_cfg", lambda f: ("EV", "0", "x", "text")),
                         ("read_job_cfg", lambda f: ("01", "set", w.path("in"), "sensors", out, "DEFAULT", "text")),
                         ("get_dataset_paths", lambda d: []), ("get_harm_paths", lambda d: (hpath, None))):
                if not hasattr(m, k):
                    setattr(m, k, v)
            m.HarmonisationOp = lambda **k: factory(kw.get("left"), **k)
            os.chdir(temp)
            return m.main(os.path.join(out, "job.cfg"), *ij)
        return f

    state = {}   # element -> 'done' (its last job succeeded), 'unsure' (crashed or failed after starting to write)
    hist = []
    bogus, stale = set(), set()
    expect = base
    for x in p["history"]:
        if "stale" in x:
            o, _ = w.process(main(*x["stale"], left=x["x"]), root=out, cpu=60)
            if not o.ok:
                w.violate("job-failed", "element job %s of an earlier run: %r" % (x["stale"], o))
                return
            stale.add(tuple(x["stale"]))
            hist.append(("stale", tuple(x["stale"])))
            continue
        if "empty" in x:
            target = [f for f in os.listdir(temp) if f.endswith("[%d,%d].dat" % tuple(x["empty"]))]
            for f in target:
                with open(os.path.join(temp, f), "w"):
                    pass
                bogus.add(tuple(x["empty"]))
            hist.append(("empty", tuple(x["empty"])))
            continue
        op = x.get("job") or x.get("combine")
        fn = main(*op["ij"]) if "job" in x else main()
        faults = []
        if op.get("faults"):
            spare = w.path("spare")
            import shutil
            shutil.copytree(out, spare)
            dry, log = w.process(fn, root=out, dirseed=op["d"], cpu=60)
            shutil.rmtree(out)
            os.rename(spare, out)
            if dry.how in ("hung", "died"):
                w.violate("job-died", "%r %s" % (dry, hist[-6:]))
                return
            faults = [f for f in (world.resolve(f, log) for f in op["faults"]) if f]
        o, log = w.process(fn, faults=faults, root=out, dirseed=op["d"], cpu=60)
        fired = [(world_kind(f[0]), f[1].split("/")[-1]) for f in log if f[6]]
        hist.append((tuple(op["ij"]) if "job" in x else "combine", o.how, tuple(f["act"] for f in faults), tuple(fired)))
        w.note(hist[-1])
        if "job" in x:
            e = tuple(op["ij"])
            if o.ok:
                state[e] = "done"
                bogus.discard(e)
                stale.discard(e)
            elif not fired:
                w.violate("job-failed", "element job %s, nothing wrong: %r; history %s" % (e, o, hist[-6:]))
                return
            else:
                state[e] = "unsure"
            continue
        missing = [(i, j) for i in range(n) for j in range(n) if (i, j) not in state] + sorted(bogus)
        unsure = [e for e in state if state[e] == "unsure"]
        got, at = stored()
        w.state(n, hist)
        if stale:  # combining now takes an earlier run's elements for this one's: nothing is said of the outcome
            expect = got if not isinstance(got, str) else expect
            continue
        broken = isinstance(got, str)
        new = not broken and matches(got, base, V, tol, n)
        old = not broken and same(got, expect)
        h = "history %s" % (hist[-8:],)
        if o.ok:
            if missing:
                w.violate("combined-incomplete", "combining succeeded without the elements %s; %s" % (missing[:6], h))
                return
            if not new:
                w.violate("wrong-matrix", "combining succeeded, the result holds %s\nwant %s\n%s" % (
                    got if broken else got["parameter_covariance_matrix"].tolist(), V.tolist(), h))
                return
            if at != attrs:
                w.violate("result-altered", "attributes %s; %s" % (at, h))
            expect = got
        else:
            if not missing and not unsure and not fired:
                w.violate("combine-failed", "all elements are there, yet combining them: %r; %s" % (o, h))
                return
            w_fault = any(k not in ("OPEN_R", "READ", "OPENDIR", "CLOSE") or not nm.endswith(".dat") for k, nm in fired)
            if not old and not (w_fault and (broken or new)):
                w.violate("result-altered", "combining failed and left the result %s; %s" % ("unreadable" if broken else "altered", h))
                return
            if new:
                expect = got
            if not old and not new:
                w.stats["result_torn"] = w.stats.get("result_torn", 0) + 1


def world_kind(k):
    from sim.simio import KINDS
    return KINDS[k]


def same(a, b):
    return set(a) == set(b) and all(a[k].shape == b[k].shape and np.array_equal(a[k], b[k]) for k in a)


def matches(got, base, V, tol, n):
    if set(got) != set(base):
        return False
    for k in got:
        if k != "parameter_covariance_matrix" and not (got[k].shape == base[k].shape and np.array_equal(got[k], base[k])):
            return False
    M = np.asarray(got["parameter_covariance_matrix"], dtype=float)
    if M.shape != (n, n) or not np.all(np.isfinite(M)):
        return False
    d = np.sqrt(np.outer(np.diag(V), np.diag(V)))
    return bool(np.max(np.abs(M - V) / d) < tol)
