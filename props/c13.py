"""C13 Batch orchestration starts each stage only when its inputs are ready."""

import copy
import glob
import os
import re

from sim import batch, build, world

ID = "C13"
LEVEL = "exploration"
RUNS = {"quick": 250, "thorough": 8000}
RULE = ("One case is a history of one to three executions of one batch script in the same folders, each with its own number of parameters, job "
        "queueing, durations and failures, earlier ones possibly killed. Non-trivial: at least one execution that submitted covariance "
        "elements; distinct by (script, numbers of parameters, order of submissions, starts and ends).")
REAL = ["the batch scripts under bash with the real coreutils", "the scripts' embedded Python programs (through lib2to3)", "the netCDF library"]
STUB = ["bsub and the batch system: simulated in virtual time", "sleep, date: virtual time",
        "the jobs: write the files the tools write, when the simulator says", "the diagnostic plots"]
ASSUMPTIONS = ["A job's results are complete before the batch system writes its log; element files appear whole (see C03).",
               "No job of an earlier execution is left when the next one starts.",
               "A failed or refused job may leave the script waiting.", "Job names and folders without white space."]


def setup(ns):
    import configparser  # noqa: F401, what the scripts' embedded programs import
    import netCDF4  # noqa: F401


def scripts():
    out = {}
    for f in sorted(glob.glob(os.path.join(build.REPO, "harmonisation_eiv", "lsf", "fullEIVsolverLSF*.sh"))):
        if "_MC" not in f:
            out[os.path.basename(f)] = f
    return out


def gen(rng, i, tier):
    names = sorted(scripts())
    runs = []
    k = rng.choice([1, 1, 2, 2, 3])
    many = rng.random() < 0.1
    for r in range(k):
        n = rng.choice([10, 11, 12]) if many and r == k - 1 else rng.choice([1, 2, 2, 3, 3, 4, 5])
        p = {"n": n, "seed": rng.randrange(1 << 30), "slots": rng.choice([1, 2, 3, 8, 1000] if n < 6 else [20, 1000]), "jumbled": rng.random() < 0.6,
             "long": rng.choice([0, 0, 0.2 if n < 3 else 0.01]), "bsub": rng.choice([0, 0, 0.5, 3]), "slow": rng.choice([[1], [1], [0.1], [0.01, 1, 3]]),
             "gap": rng.choice(["minute", "minute", rng.randint(60, 7200)])}
        if r < k - 1 and rng.random() < 0.5:
            p["killed"] = int(2 ** rng.uniform(1, 7))
        f = rng.random()
        if f < 0.08:
            p["fails"] = "pc"
        elif f < 0.16:
            p["fails"] = "opt"
        elif f < 0.24:
            p["fails"] = rng.randrange(n * n)
        elif f < 0.28:
            p["refused"] = rng.randrange(n * n + 4)
        runs.append(p)
    return {"script": names[i % len(names)], "job": rng.choice(["job.cfg", "jobs/EV_1.cfg", "/abs/run.cfg"]), "clock": rng.randrange(10 ** 9, 2 * 10 ** 9),
            "out": rng.choice(["out", "results/x_01", "/abs/out"]), "runs": runs, "fresh": rng.random() < 0.5}


def shrink(p):
    for k in range(len(p["runs"])):
        if len(p["runs"]) > 1:
            q = copy.deepcopy(p)
            del q["runs"][k]
            yield q
        for f in ("killed", "fails", "refused"):
            if f in p["runs"][k]:
                q = copy.deepcopy(p)
                del q["runs"][k][f]
                yield q
        n = p["runs"][k]["n"]
        for m in {1, 2, n - 1}:
            if 0 < m < n:
                q = copy.deepcopy(p)
                q["runs"][k]["n"] = m
                yield q
        for f, v in (("jumbled", False), ("long", 0), ("bsub", 0), ("slow", [1]), ("slots", 1), ("gap", 600)):
            if p["runs"][k][f] != v:
                q = copy.deepcopy(p)
                q["runs"][k][f] = v
                yield q


def role(programs, job):
    """What a job does, from the Python programs its script runs."""
    if len(programs) != 1 or len(programs[0]) < 2:
        return ("unknown",)
    name, args = os.path.basename(programs[0][0]).lower(), programs[0][2:]
    if os.path.normpath(os.path.join(job[0], programs[0][1])) != job[1]:
        return ("other job",)
    if "covariance" in name:
        if not args:
            return ("comb",)
        return ("element",) + tuple(args)
    if name.startswith("pc"):
        return ("pc",)
    if "initial" in name:
        return ("gn",)
    if "solver" in name:
        return ("opt",) + tuple(args)
    return ("unknown",)


class Run(object):
    """One execution of the script, and what is wrong with it."""

    def __init__(self, p, out, job, stub, base, clock):
        self.p, self.out, self.job = p, out, job
        self.bad = []
        self.roles = {}
        self.elements = set()
        self.ended = {}
        self.b = batch.Batch(base, stub, clock, p, self.on)
        self.clean = not any(k in p for k in ("fails", "refused", "killed"))
        self.succeeded = False

    def say(self, what):
        self.bad.append(what)

    def fails(self, r):
        f = self.p.get("fails")
        return f == r[0] or isinstance(f, int) and r[0] == "element" and len(self.elements) % (self.p["n"] ** 2) == f

    def on(self, j, what):
        getattr(self, "on_" + what)(j, self.roles.get(j.number))

    def on_submit(self, j, _):
        r = self.roles[j.number] = role(j.programs, self.job)
        ended = lambda kind: any(self.roles[n][0] == kind for n in self.ended)
        others = [self.roles[o.number] for o in self.b.jobs if o is not j]
        if r[0] in ("unknown", "other job"):
            self.say(("wrong-job", "job %d runs %s" % (j.number, j.programs)))
            return
        if (r[0], r[1:] if r[0] == "element" else ()) in [(o[0], o[1:] if o[0] == "element" else ()) for o in others]:
            self.say(("submitted-twice", " ".join(r)))
        if not j.log:
            self.say(("no-log", " ".join(r)))
        for o in self.b.jobs:
            if o is not j and j.log and o.log == j.log:
                self.say(("shared-log", "%s and %s" % (" ".join(self.roles[o.number]), " ".join(r))))
            if o is not j and j.script and o.script == j.script:
                self.say(("shared-script", "%s and %s" % (" ".join(self.roles[o.number]), " ".join(r))))
        if r[0] == "opt":
            if len(r) > 2 and not (ended("pc") and ended("gn")) or any(o[0] in ("pc", "gn") and not ended(o[0]) for o in others):
                self.say(("too-early", "the optimisation is submitted before its preparatory jobs have ended"))
            for a, k in zip(r[2:], ("PC", "GNOp_initial")):
                if os.path.realpath(os.path.join(j.cwd, a)) != os.path.realpath(os.path.join(self.out, "temp", k)):
                    self.say(("wrong-input", "the optimisation is given %s" % os.path.basename(a)))
        elif r[0] == "element":
            if not ended("opt"):
                self.say(("too-early", "element %s is submitted before the optimisation has ended" % (r[1:],)))
            if self.succeeded and not (len(r) == 3 and all(re.fullmatch(r"\d+", x) and int(x) < self.p["n"] for x in r[1:])):
                self.say(("wrong-element", "element %s of %d parameters" % (r[1:], self.p["n"])))
        elif r[0] == "comb":
            need = self.p["n"] ** 2 if self.succeeded else 1
            if len(self.elements) < need:
                self.say(("too-early", "the combination is submitted when %d of %s elements are there"
                          % (len(self.elements), need if self.succeeded else "unknown")))
        j.fails = self.fails(r)

    def on_start(self, j, r):
        pass

    def put(self, name, text="x"):
        path = os.path.join(self.out, name)
        folder = os.path.dirname(path)
        if not os.path.isdir(folder):
            os.makedirs(folder)
            while len(folder) >= len(self.out):
                os.chmod(folder, 0o777)
                folder = os.path.dirname(folder)
        with open(path, "w") as f:
            f.write(text)
        os.chmod(path, 0o666)

    def on_done(self, j, r):
        if j.fails:
            return
        if r[0] in ("pc", "gn"):
            self.put("temp/PC/harm.nc" if r[0] == "pc" else "temp/GNOp_initial/state.nc")
        elif r[0] == "opt":
            import netCDF4
            self.put("harm_EV_01.nc")
            for name in ("harm_EV_01.nc", "harm_EV_01_res_1_2.nc"):
                with netCDF4.Dataset(os.path.join(self.out, name), "w") as d:
                    d.createDimension("n", self.p["n"])
                os.chmod(os.path.join(self.out, name), 0o666)
            self.succeeded = True
        elif r[0] == "element" and len(r) == 3:
            self.elements.add(r[1:])
            self.put("temp/parameter_covariance_matrix[%s,%s].dat" % r[1:])

    def on_end(self, j, r):
        self.ended[j.number] = True
        if j.log and os.path.isdir(os.path.dirname(j.log)):
            with open(j.log, "a") as f:
                f.write("Exited with exit code 1.\n" if j.fails else "Successfully completed.\n")
            os.chmod(j.log, 0o666)

    def judge(self, status):
        kinds = [r[0] for r in self.roles.values()]
        stop = self.b.stop
        if stop == "wall" or status is not None and status < 0:
            self.say(("no-progress", "the script runs without end (%s)" % (stop or "signal")))
        if not self.clean:
            return
        if stop in ("idle", "busy"):
            self.say(("no-progress", "the script is still polling after %s, submitted: %s" % (
                "the last job ended" if stop == "idle" else "3000 polls", sorted(set(kinds)))))
            return
        for k in ("opt", "comb"):
            if kinds.count(k) != 1:
                self.say(("not-submitted", "%s was submitted %d times" % (k, kinds.count(k))))
        got = sorted(r[1:] for r in self.roles.values() if r[0] == "element")
        want = sorted((str(i), str(j)) for i in range(self.p["n"]) for j in range(self.p["n"]))
        if got != want and not any(b[0] == "submitted-twice" for b in self.bad):
            self.say(("elements", "%d elements submitted of %d, missing %s, not wanted %s" % (
                len(got), len(want), sorted(set(want) - set(got))[:3], sorted(set(got) - set(want))[:3])))


def run(p, w):
    base = w.path("b")
    d = w.dir
    while "/simharm." in d:   # the scripts run as another user
        os.chmod(d, 0o755)
        d = os.path.dirname(d)
    lsf = os.path.join(base, "w", "harmonisation_eiv", "lsf")
    os.makedirs(os.path.join(base, "w", "harmonisation_diagnostics"))
    os.makedirs(lsf)
    os.makedirs(os.path.join(base, "abs"))
    os.makedirs(os.path.join(base, "gw"))
    with open(os.path.join(base, "w", "harmonisation_diagnostics", "run.sh"), "w") as f:
        f.write('python2.7 PLOTS "$1"\n')
    for name, path in scripts().items():
        with open(path) as f:
            text = f.read()
        with open(os.path.join(lsf, name), "w") as f:
            f.write(text.replace(batch.ROOT, os.path.join(base, "gw")))
    job = p["job"]
    at = os.path.join(base, job[1:]) if job.startswith("/") else os.path.join(lsf, job)
    if job.startswith("/"):
        job = at
    out = os.path.join(base, p["out"][1:]) if p["out"].startswith("/") else os.path.join(lsf, p["out"])
    for d in {os.path.dirname(at), out}:
        os.makedirs(d, exist_ok=True)
    with open(at, "w") as f:
        f.write("[DEFAULT]\nsoftware = EV\n\n[DATA]\ndataset_dir = x\noutput_dir = %s\n" % (out if p["out"].startswith("/") else p["out"]))
    if os.getuid() == 0:
        for folder, dirs, files in os.walk(base):
            for x in [folder] + [os.path.join(folder, f) for f in files]:
                os.chown(x, batch.NOBODY, batch.NOBODY)
    stub = os.path.join(w.ns.built["batch"], "bin", "stub")
    clock = float(p["clock"])
    for k, rp in enumerate(p["runs"]):
        r = Run(rp, out, (lsf, at), stub, base, clock)
        try:
            status = r.b.orchestrate(os.path.join(lsf, p["script"]), [job], lsf)
            plots = [h for h in r.b.history if h[0] == "python" and h[1][:1] == ("PLOTS",)]
            if plots and not any(r.roles[n][0] == "comb" for n in r.ended):
                r.say(("too-early", "the plots are made before the combination has ended"))
            r.judge(status)
            r.b.drain()
        finally:
            r.b.close()
        w.stats["executions"] += 1 + len(r.b.jobs)
        w.stats["ops"] += r.b.calls
        w.stats["sim_ns"] += int((r.b.now - clock) * 1e9)
        for f in ("killed", "refused"):
            if rp.get(f) is not None and (r.b.stop == f or ("refused",) in r.b.history):
                w.stats["faults"][f] = w.stats["faults"].get(f, 0) + 1
        for j in r.b.jobs:
            if j.fails:
                w.stats["faults"]["job fails"] = w.stats["faults"].get("job fails", 0) + 1
        order = [(h[0], h[1]) for h in r.b.history if h[0] in ("submit", "start", "end")]
        w.state(p["script"], [x["n"] for x in p["runs"][:k + 1]], order)
        w.schedules.add(repr(order))
        w.note(k, status, r.b.stop, [" ".join(x).replace(base, "") for _, x in sorted(r.roles.items())][:30], len(order), int(r.b.now))
        if r.bad:
            w.violate(r.bad[0][0], "%s, execution %d with %d parameters: %s" % (p["script"], k + 1, rp["n"], r.bad[0][1]))
            return
        start = clock
        gap = p["runs"][k + 1]["gap"] if k + 1 < len(p["runs"]) else 0
        clock = start - start % 60 + 30 if gap == "minute" else r.b.now + gap
