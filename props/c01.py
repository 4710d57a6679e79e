"""C01 Parallel covariance evaluation is schedule-independent and correct."""

import copy

import numpy as np

from sim import data, oracle, simpool, solver

ID = "C01"
LEVEL = "exploration"
RUNS = {"quick": 72, "thorough": 3000}
RULE = ("One case is one evaluation of a parameter covariance matrix by the real solver under one simulated pool schedule "
        "(workers, task grouping, assignment, completion order, failing task), on a random dataset, preconditioner and "
        "solver state. Non-trivial: more than one task; distinct by (uncertainty types, sizes, schedule trace, outcome).")
REAL = ["MatchUpReader", "Transform2NormInd", "GNAlgo.calculate_parameter_covariance_matrix(_ij)", "pykrylov Minres",
        "netCDF4/HDF5", "pickling of tasks and results"]
STUB = ["multiprocessing.Pool: SimPool (real forked workers, simulated scheduling)", "sensor models: synthetic, analytic"]
ASSUMPTIONS = ["A worker killed outright (not raising) hangs multiprocessing.Pool itself; only failures that raise are injected.",
               "Agreement to 2e-4 of sqrt(Vii Vjj): the solver works in single precision."]
TOL = 2e-4


def gen(rng, i, tier):
    n = rng.choice([1, 1, 1, 2])
    spec = data.gen_spec(rng, n_sensors=n, m=rng.choice([1, 2, 2, 3]), p=rng.choice([1, 2, 2, 3]) if n == 1 else rng.choice([1, 1, 1, 2]),
                         max_M=7, mixed_m=True, time_model=True)
    # every uncertainty structure comes round: force one column of the run's type
    t = 1 + i % 4
    s = rng.choice(spec["series"])
    side = 1 if s["s"][1] != 0 else 0
    s["t"][side][rng.randrange(len(s["t"][side]))] = t
    scheds = []
    for k in range(2):
        scheds.append({"seed": rng.randrange(1 << 30), "workers": rng.choice([None, 1, 2, 3, 5]), "chunk": rng.choice([None, None, 1, 2])})
    fail = {"seed": rng.randrange(1 << 30), "workers": rng.choice([None, 1, 3]), "chunk": rng.choice([None, 1]), "fail": rng.random()}
    return {"spec": spec, "s_seed": 0 if sum(spec["p"]) <= 2 and rng.random() < 0.3 else rng.randrange(1, 1 << 30), "x_seed": rng.randrange(1, 1 << 30),
            "scheds": scheds, "fail": fail, "second": rng.choice([0, rng.randrange(1, 1 << 30)])}


def shrink(p):
    for k in range(len(p["scheds"])):
        q = copy.deepcopy(p)
        del q["scheds"][k]
        yield q
    for f in ("fail", "second"):
        if p.get(f):
            q = copy.deepcopy(p)
            q[f] = None
            yield q
    for s in data.shrink_spec(p["spec"]):
        q = copy.deepcopy(p)
        q["spec"] = s
        yield q


def relative(V, O):
    d = np.sqrt(np.outer(np.diag(O), np.diag(O)))
    V = np.asarray(V, dtype=np.float64)
    if V.shape != O.shape:
        return np.inf
    if not np.all(np.isfinite(V)):
        return np.inf
    return float(np.max(np.abs(V - O) / d))


def run(p, w):
    spec = p["spec"]
    tr = data.truth(spec)
    folder = w.fresh()
    paths = data.write_dataset(spec, folder, tr)
    types = tuple(tuple(map(tuple, s["t"])) for s in spec["series"])

    def evaluate(GN, sc):
        s = simpool.Schedule(sc["seed"], sc.get("workers"), sc.get("chunk"), sc.get("fail"))
        simpool.use(s)
        try:
            V = np.array(GN.calculate_parameter_covariance_matrix())
            return ("matrix", V, s.trace, s.failed, s.tasks)
        except Exception as e:
            return ("raised", "%s: %s" % (type(e).__name__, e), s.trace, s.failed, s.tasks)

    def state(GN):
        return (np.array(GN.xyza, dtype=np.float64), np.array(GN.S, dtype=np.float64), {k: GN.HData.idx[k] for k in GN.HData.idx}, oracle.unc_info(GN.HData.unc))

    def body(sc, then):
        def f():
            GN = solver.make_solver(w.ns, spec, list(paths), tr, p["s_seed"], p["x_seed"])
            out = [(state(GN), evaluate(GN, sc))]
            if then:
                solver.move(GN, p["second"] or 0)
                out.append((state(GN), evaluate(GN, then)))
            return out
        return f

    jobs = [(sc, None) for sc in p["scheds"]]
    if p.get("second") and p["scheds"]:
        jobs.append((p["scheds"][0], dict(p["scheds"][-1], seed=p["second"])))
    if p.get("fail"):
        jobs.append((p["fail"], dict(p["fail"], fail=None, seed=p["fail"]["seed"] + 1)))
    first = None
    for sc, then in jobs:
        o, _ = w.process(body(sc, then), seed=sc["seed"] & 0xffff)
        if not o.ok:
            w.violate("evaluation-failed" if o.how != "hung" else "no-progress", "undisturbed evaluation ended %r" % (o,))
            continue
        for n, ((xyza, S, idx, unc), (how, V, trace, failed, tasks)) in enumerate(o.value):
            prob = oracle.Problem(spec, tr, idx, unc)
            O, normal = prob.covariance(xyza)
            cond = prob.preconditioned_condition(normal, S)
            if cond > 1e6:  # beyond what single precision resolves
                continue
            w.schedules.add(repr(trace))
            w.stats["pool_tasks"] = w.stats.get("pool_tasks", 0) + tasks
            if sc.get("fail") is not None and n == 0:
                w.stats["faults"]["TASK_RAISES@WORKER"] = w.stats["faults"].get("TASK_RAISES@WORKER", 0) + int(failed)
            w.note(sc, how, trace)
            if how == "raised":
                w.state("raised", types, len(O), trace)
                if not failed:
                    w.violate("evaluation-failed", "no task failed, yet: %s" % V)
                continue
            err = relative(V, O)
            w.state("matrix", types, len(O), trace)
            if tasks > 0 and failed:
                if err > TOL:
                    w.violate("failure-swallowed", "a task raised in a worker, and a matrix came back that is off by %.3g" % err)
                continue
            if err > TOL:
                w.violate("wrong-covariance", "differs from the dense inverse by %.3g of sqrt(Vii Vjj) (state %d, condition %.2g)\n"
                          "got %s\nwant %s" % (err, n, cond, np.array(V).tolist(), O.tolist()), key=None)
            if np.max(np.abs(V - V.T)) > 1e-6 * np.max(np.abs(V)):
                w.violate("asymmetric", "the matrix is not symmetric: %s" % np.array(V).tolist())
            if n == 0 and sc.get("fail") is None:
                if first is None:
                    first = V
                elif relative(V, first.astype(np.float64)) > 1e-5:
                    w.violate("schedule-dependent", "two schedules gave matrices that differ by %.3g: %s" % (relative(V, first.astype(np.float64)), trace))
