"""Runs the seeded simulations of one property, minimises and records what fails, and writes the evidence."""

import argparse
import ast
import copy
import hashlib
import importlib
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
NCPU = len(os.sched_getaffinity(0))
now = time.perf_counter


def plan_of(mod, seed, i, tier):
    rng = random.Random("%d:%s:%d" % (seed, mod.ID, i))
    p = mod.gen(rng, i, tier)
    p.setdefault("run", i)
    return json.loads(json.dumps(p))


def digest_of(w):
    return hashlib.sha1(repr((w.trace, sorted(w.states), sorted(w.schedules), [(v["kind"], v.get("key")) for v in w.violations]))
                        .replace(w.dir, "").encode()).hexdigest()


class Sim(object):
    """Executes plans, each in a fork of its own with its own scratch folder."""

    def __init__(self, mod, ns, base):
        self.mod, self.ns, self.base = mod, ns, base

    def execute(self, plan, wall=600):
        from sim import world
        d = tempfile.mkdtemp(prefix="r", dir=self.base)
        fixed = os.path.join(d, "w")  # what the plan sees is the same length and the same name in every run
        os.makedirs(fixed)

        def body():
            w = world.World(self.ns, fixed, os.path.join(d, "shm"))
            w.plan = plan
            try:
                self.mod.run(plan, w)
            except Exception as e:
                # The system failed where the simulation let nothing go wrong: that is an answer, not a harness error.
                tb, deep = e.__traceback__, ""
                while tb:
                    deep = tb.tb_frame.f_code.co_filename
                    if self.ns.built.get("py", "\0") in deep:
                        w.violate("unexpected-error", "%s: %s (%s line %d)" % (type(e).__name__, e, os.path.basename(deep), tb.tb_lineno))
                        break
                    tb = tb.tb_next
                else:
                    raise
            return dict(violations=w.violations, stats=w.stats, states=sorted(w.states), schedules=sorted(w.schedules),
                        digest=digest_of(w), plan=w.plan, trace=w.trace[:200])

        try:
            o = world.fork_call(body, cpu=getattr(self.mod, "CPU", 240), wall=wall)
        finally:
            world.wipe(d)
        if o.ok:
            return o.value
        if o.how == "hung":
            return dict(violations=[dict(kind="no-progress", detail="the run did not end within its bound")], stats={},
                        states=[], schedules=[], digest="hung", plan=plan, trace=[])
        return dict(error="%s %s" % (o.how, o.value), violations=[], stats={}, states=[], schedules=[], digest="error",
                    plan=plan, trace=[])


def merge(total, s):
    for k, v in s.items():
        if isinstance(v, dict):
            merge(total.setdefault(k, {}), v)
        elif isinstance(v, (int, float)):
            total[k] = total.get(k, 0) + v


class Counter(object):
    """A work counter shared by forked workers."""

    def __init__(self, base):
        fd, self.path = tempfile.mkstemp(prefix="ctr", dir=base)
        os.write(fd, bytes(8))
        os.close(fd)

    def take(self):
        import fcntl
        with open(self.path, "r+b", buffering=0) as f:
            fcntl.flock(f, fcntl.LOCK_EX)
            k = int.from_bytes(f.read(8), "little")
            f.seek(0)
            f.write((k + 1).to_bytes(8, "little"))
        return k


def worker(sim, mod, seed, tier, counter, indices, deadline, wfd):
    out = os.fdopen(wfd, "w")
    while now() < deadline:
        k = counter.take()
        if k >= len(indices):
            break
        i, t0 = indices[k], now()
        try:
            r = sim.execute(plan_of(mod, seed, i, tier))
        except Exception:
            r = dict(error=traceback.format_exc(), violations=[], stats={}, states=[], schedules=[], digest="error", plan=None)
        r["i"], r["wall"] = i, round(now() - t0, 3)
        if not r["violations"] and not r.get("error") and i > 3:
            r.pop("trace", None)
            r.pop("plan", None)
        out.write(json.dumps(r, default=str) + "\n")
        out.flush()
    out.close()


def fan_out(sim, mod, seed, tier, indices, deadline, workers):
    import select
    pids, fds = [], {}
    counter = Counter(sim.base)
    for k in range(workers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for fd in fds:
                    os.close(fd)
                worker(sim, mod, seed, tier, counter, indices, deadline, w)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(w)
        pids.append(pid)
        fds[r] = b""
    results = []
    while fds:
        ready, _, _ = select.select(list(fds), [], [], 5)
        for fd in ready:
            b = os.read(fd, 1 << 20)
            if not b:
                os.close(fd)
                del fds[fd]
                continue
            *lines, rest = (fds[fd] + b).split(b"\n")
            fds[fd] = rest
            results += [json.loads(l) for l in lines]
    for p in pids:
        os.waitpid(p, 0)
    return sorted(results, key=lambda r: r["i"])


def same_failure(r, kind, key):
    return any(v["kind"] == kind and v.get("key") == key for v in r["violations"])


def minimise(sim, mod, plan, kind, key, deadline):
    """Greedy: take any smaller plan that fails the same way, until none does or the time is up."""
    best, tried = plan, 0
    progress = True
    while progress and now() < deadline:
        progress = False
        for cand in mod.shrink(copy.deepcopy(best)):
            if now() > deadline:
                break
            tried += 1
            r = sim.execute(cand)
            if same_failure(r, kind, key):
                best = r["plan"] or cand
                progress = True
                break
    return best, tried


def known_entries(prop):
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            return [e for e in json.load(f)["known"] if e["property"] == prop]
    except FileNotFoundError:
        return []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int, default=max(1, min(8, NCPU)))
    ap.add_argument("--replay")
    ap.add_argument("--plan", type=int, help="run this one plan and show what happened")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    tier = "thorough" if a.tier.startswith("t") else "quick"
    t_start = float(os.environ.get("SIM_T0") or time.time())
    built = ast.literal_eval(os.environ["SIM_BUILT"])
    mod = importlib.import_module("props." + a.prop.lower())

    from sim import world
    ns = world.NS()
    if "py" in built:
        ns = world.wire(os.path.join(built["py"]))
    ns.built = built
    random.seed(0)
    if hasattr(mod, "setup"):
        mod.setup(ns)
    base = tempfile.mkdtemp(prefix="simharm.", dir=world.scratch_base())
    os.chmod(base, 0o755)
    for s in (signal.SIGTERM, signal.SIGINT):
        signal.signal(s, lambda *_: sys.exit(2))
    try:
        return go(a, tier, t_start, built, mod, ns, base)
    finally:
        world.wipe(base)


def go(a, tier, t_start, built, mod, ns, base):
    sim = Sim(mod, ns, base)
    if hasattr(mod, "start"):
        mod.start(ns, base)

    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        r = sim.execute(rep["plan"])
        print(json.dumps(dict(violations=r["violations"], trace=r.get("trace"), error=r.get("error")), indent=1, default=str))
        if r.get("error"):
            return 2
        exact = r["digest"] == rep["digest"]
        print("replay %s: digest %s" % ("is exact" if exact else "DIFFERS", r["digest"]))
        if r["violations"]:
            print("VIOLATION property=%s replay=%s" % (mod.ID, a.replay))
            return 1
        return 0
    if a.plan is not None:
        p = plan_of(mod, a.seed, a.plan, tier)
        print(json.dumps(p))
        r = sim.execute(p)
        print(json.dumps(r, indent=1, default=str))
        return 1 if r["violations"] else 0

    n = a.runs if a.runs is not None else mod.RUNS[tier]
    cap = {"quick": 240, "thorough": 2400}[tier]
    t0 = now()
    results = fan_out(sim, mod, a.seed, tier, list(range(n)), t0 + float(os.environ.get("SIM_CAP", cap)), a.workers)
    t_run = now() - t0

    stats, states, schedules, errors = {}, set(), set(), []
    found = {}
    for r in results:
        merge(stats, r["stats"])
        states.update(r["states"])
        schedules.update(r["schedules"])
        if r.get("error"):
            errors.append((r["i"], r["error"]))
        for v in r["violations"]:
            found.setdefault((v["kind"], v.get("key")), (r, v))

    # Determinism of the simulator itself: the same seed gives the same history.
    sample = [r for r in results if not r.get("error") and r["digest"] != "hung" and not r["violations"]]
    sample = sorted(sorted(sample, key=lambda r: r["wall"])[:max(1, len(sample) * 2 // 3)], key=lambda r: r["i"])
    sample = sample[:8 if tier == "quick" else 40]
    again = {r["i"]: r for r in fan_out(sim, mod, a.seed, tier, [r["i"] for r in sample], now() + 120, a.workers)}
    rechecked = len(again)
    different = [r["i"] for r in sample if r["i"] in again and again[r["i"]]["digest"] != r["digest"]]
    if os.environ.get("SIM_OPS"):
        json.dump([[r["i"], r["digest"], r["stats"].get("ops")] for r in results], open(os.environ["SIM_OPS"], "w"))
    if os.environ.get("SIM_SHOW"):
        for r in sorted(results, key=lambda r: -r["wall"])[:8]:
            print("slow", r["i"], r["wall"])
        print("busy", sum(r["wall"] for r in results), "run", t_run)

    known = known_entries(mod.ID)
    violations = []
    for e in known:
        hit = (e["kind"], e.get("key")) in found
        if not hit and e.get("probe"):
            hit = same_failure(sim.execute(e["probe"]), e["kind"], e.get("key"))
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (mod.ID, e["what"]))
        found.pop((e["kind"], e.get("key")), None)

    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    t_min = now()
    for (kind, key), (r, v) in sorted(found.items(), key=lambda x: x[1][0]["i"])[:4]:
        plan = r["plan"] or plan_of(mod, a.seed, r["i"], tier)
        small, tried = minimise(sim, mod, plan, kind, key, min(now() + (40 if tier == "quick" else 300), t_min + (80 if tier == "quick" else 900)))
        final = sim.execute(small)
        again = sim.execute(final["plan"] or small)
        name = "%s-%s-s%d-r%d.json" % (mod.ID, kind.replace(" ", "_").replace("/", "_")[:40], a.seed, r["i"])
        path = os.path.join(VERIF, "replays", name)
        mine = [x for x in again["violations"] if x["kind"] == kind and x.get("key") == key] or [v]
        with open(path, "w") as f:
            json.dump(dict(property=mod.ID, seed=a.seed, run=r["i"], tier=tier, plan=final["plan"] or small,
                           violation=mine[0], trace=again.get("trace"), digest=again["digest"],
                           exact=again["digest"] == final["digest"] and same_failure(again, kind, key),
                           minimised_from=plan, candidates_tried=tried), f, indent=1, default=str)
        print("%s: %s" % (kind, mine[0]["detail"]))
        print("VIOLATION property=%s replay=%s" % (mod.ID, path))
        violations.append(dict(kind=kind, key=key, replay=path, detail=mine[0]["detail"]))

    done = [r for r in results if not r.get("error")]
    wall = time.time() - t_start
    ex = stats.get("executions", 0)
    if not a.no_evidence:
        cov = dict(
            evaluations=int(ex or len(done)),
            distinct_nontrivial=len(states),
            rule=mod.RULE,
            samples=[dict(run=r["i"], plan=r.get("plan"), trace=r.get("trace")) for r in done[:2] if r.get("plan")],
            simulated_runs=len(done), planned_runs=n,
            runs_per_hour=round(len(done) / max(t_run, 1e-9) * 3600), executions_per_hour=round(ex / max(t_run, 1e-9) * 3600),
            seeds=dict(base=a.seed, runs=[0, len(results) - 1], derivation="Random('seed:property:run') per run"),
            simulated_time_s=round(stats.get("sim_ns", 0) / 1e9, 3), clock_reads=int(stats.get("clock_reads", 0)),
            io_operations=int(stats.get("ops", 0)), faults_injected=stats.get("faults", {}),
            faults_total=int(sum(stats.get("faults", {}).values())),
            distinct_schedules=len(schedules),
            measures={k: v for k, v in stats.items() if k not in ("faults", "executions", "sim_ns", "ops", "clock_reads")},
            determinism=dict(reexecuted=rechecked, different=different),
            real_components=mod.REAL, stubbed_components=mod.STUB, harness_errors=errors[:3], violations_found=violations,
        )
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", mod.ID + ".json"), "w") as f:
            json.dump(dict(property=mod.ID, tier=tier, seed=a.seed, level=mod.LEVEL, coverage=cov, wall_s=round(wall, 2),
                           violations=len(violations), assumptions=getattr(mod, "ASSUMPTIONS", [])), f, indent=1, default=str)
    print("%s %s seed=%d: %d runs, %d executions, %d I/O operations, %d faults, %d states, %d schedules, %.1fs%s%s" % (
        mod.ID, tier, a.seed, len(done), ex, stats.get("ops", 0), sum(stats.get("faults", {}).values()), len(states),
        len(schedules), wall, ", NONDETERMINISTIC %s" % different if different else "",
        ", %d HARNESS ERRORS" % len(errors) if errors else ""))
    if violations:
        return 1
    if errors:
        for i, e in errors[:3]:
            print("harness error in run %d: %s" % (i, e), file=sys.stderr)
        return 2
    if not done:
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
