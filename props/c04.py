"""C04 A saved harmonisation result loads back complete and equal, or not at all."""

import copy
import os
import shutil

from sim import data, faulty, results, solver, world

ID = "C04"
LEVEL = "exploration"
RUNS = {"quick": 500, "thorough": 8000}
RULE = ("One case is one history on one result directory: saves of random results of one or two shapes, some crashed or hit by "
        "a disk fault, each followed by loads in new processes with and without residuals. Non-trivial: at least one load; "
        "distinct by (history of outcomes and operations at the faults, shapes).")
REAL = ["HarmonisationResult.save and loading constructor", "netCDF4/HDF5", "MatchUpReader (index of the dataset)"]
STUB = ["the numbers of the result: random"]
ASSUMPTIONS = ["Process crashes: what was written before the crash is on disk, in order.", "One result name per directory, as the tools use it."]
EXTRA = ["systematic_errors", "systematic_error_sensors", "scores", "counts"]


def gen(rng, i, tier):
    specs = [data.gen_spec(rng, extra=False, **dict(dict(max_M=6, repeat_pairs=True, ref_first=rng.random() < 0.7, mixed_m=True), **data.outsize(rng)))]
    if rng.random() < 0.6:
        specs.append(data.gen_spec(rng, extra=False, max_M=6, repeat_pairs=True))
    steps = []
    for k in range(rng.choice([1, 1, 2, 2, 3])):
        s = {"spec": rng.randrange(len(specs)), "seed": rng.randrange(1 << 30), "extra": rng.sample(EXTRA, rng.randint(0, 3)),
             "values": rng.random() < 0.85, "res": rng.random() < 0.85, "faults": [], "d": rng.randrange(1 << 20)}
        r = rng.random()
        if r < 0.4:
            s["faults"] = [faulty.crash_point(rng, late=rng.choice([None, None, 0.3]))]
        elif r < 0.6:
            s["faults"] = [faulty.write_error(rng)]
        elif r < 0.65:
            s["faults"] = [faulty.write_error(rng), faulty.crash_point(rng)]
        if rng.random() < 0.2:
            s["load"] = faulty.read_error(rng)
        steps.append(s)
    other = None
    if rng.random() < 0.3:
        other = {"spec": rng.randrange(len(specs)), "seed": rng.randrange(1 << 30), "res": rng.random() < 0.7,
                 "name": rng.choice(["harm_EV_0.1_tag_02_SET.nc", "harm_b.nc", "harm_FO_0_forest.nc"]), "d": [rng.randrange(1 << 20) for _ in range(4)]}
    return {"specs": specs, "steps": steps, "other": other, "name": rng.choice(["harm_EV_0.1_tag_01_SET.nc", "harm_a.nc", "harm_FO_1_forest.nc", "harm_FO_1_x_02_AVHRR_REAL_4_RSA____.nc"]),
            "crowd": rng.random() < 0.4}


def shrink(p):
    if p.get("other"):
        yield dict(copy.deepcopy(p), other=None)
    for k in range(len(p["steps"])):
        if len(p["steps"]) > 1:
            q = copy.deepcopy(p)
            del q["steps"][k]
            yield q
        s = p["steps"][k]
        for f in ("load",):
            if s.get(f):
                q = copy.deepcopy(p)
                del q["steps"][k][f]
                yield q
        if s["extra"]:
            q = copy.deepcopy(p)
            q["steps"][k]["extra"] = s["extra"][:-1]
            yield q
        for f in range(len(s["faults"])):
            q = copy.deepcopy(p)
            del q["steps"][k]["faults"][f]
            yield q
    for n in range(len(p["specs"])):
        for s in data.shrink_spec(p["specs"][n]):
            q = copy.deepcopy(p)
            q["specs"][n] = s
            yield q


def run(p, w):
    ns = w.ns
    shapes, sets = [], []
    for n, spec in enumerate(p["specs"]):
        tr = data.truth(spec)
        H = solver.open_data(ns, spec, data.write_dataset(spec, w.path("in%d" % n), tr), tr)
        sets.append((spec, H.idx))
        shapes.append((spec["m"], spec["p"], [(s["s"], s["M"]) for s in spec["series"]]))
    out = w.path("out")
    os.makedirs(out)
    path = os.path.join(out, p["name"])
    if p.get("crowd"):
        for nm in ("job.cfg", "notes.txt", "pc.dat"):
            with open(os.path.join(out, nm), "w") as f:
                f.write("x")
    saved, certain, hist = [], None, []
    for st in p["steps"]:
        spec, idx = sets[st["spec"]]

        def make():
            return results.make_result(ns, spec, copy.deepcopy(idx), st["seed"], st["values"], st["extra"])

        want = results.snapshot(make())
        want["res"] = st["res"]

        def save(target=path):
            def f():
                R = make()
                before = (results.snapshot(R), copy.deepcopy(vars(R)))
                try:
                    R.save(target, save_residuals=st["res"])
                    how = "ok"
                except Exception as e:
                    how = "%s: %s" % (type(e).__name__, e)
                after = results.snapshot(R)
                altered = results.differences(after, before[0], rel=0) + [
                    k for k in ("additional_variables", "additional_attributes", "idx")
                    if faulty.plain(getattr(R, k)) != faulty.plain(before[1][k])]
                return how, altered
            return f

        faults = []
        if st["faults"]:
            spare = w.copy(out)
            dry, log = w.process(save(os.path.join(spare, p["name"])), root=spare, dirseed=st["d"])
            shutil.rmtree(spare)
            if not dry.ok or dry.value[0] != "ok":
                w.violate("save-failed", "undisturbed save after %s: %r %s" % (hist, dry, dry.value))
                return
            faults = [f for f in (world.resolve(f, log) for f in st["faults"]) if f]
        o, log = w.process(save(), faults=faults, root=out, cpu=20, dirseed=st["d"])
        fired = [(f[0], f[1].split("/")[-1]) for f in log if f[6]]
        ok = o.ok and o.value[0] == "ok"
        hist.append((st["spec"], "res" if st["res"] else "no res", o.how if not o.ok else o.value[0], [f["act"] for f in faults], fired))
        w.note(hist[-1])
        if o.how == "hung" or o.how == "died" and not fired:
            w.violate("save-died", "%r %s" % (o, hist))
            return
        if not fired and not ok:
            w.violate("save-failed", "nothing went wrong, yet %r; history %s" % (o.value, hist))
            return
        if o.ok and o.value[1]:
            w.violate("memory-altered", "saving changed %s of the result in memory" % o.value[1])
            return
        saved, certain = ([want], want) if ok else (saved + [want], None)

        def load(res):
            def f():
                R = ns.HarmonisationResult(out, open_residuals=res)
                return results.snapshot(R, residuals=res)
            return f

        for res in (True, False):
            for t in [None] + ([st["load"]] if st.get("load") else []):
                f = []
                if t is not None:
                    f = [x for x in [world.resolve(t, rlog)] if x]
                r, lg = w.process(load(res), faults=f, root=out, cpu=20, dirseed=st["d"] + 1)
                if t is None:
                    rlog = lg
                hist.append(("load", "res" if res else "no res", t and t["act"], r.how))
                w.state(shapes, hist)
                w.note(hist[-1])
                if r.how == "hung" or r.how == "died" and t is None:
                    w.violate("load-died", "%r %s" % (r, hist))
                    return
                if not r.ok:
                    if t is None and certain is not None and (certain["res"] or not res):
                        w.violate("result-lost", "the save succeeded, loading it: %r; history %s" % (r, hist))
                        return
                    continue
                got = r.value
                diffs = []
                for s in saved:
                    if res and not s["res"]:
                        diffs.append(["has residuals, saved without"])
                    else:
                        diffs.append(results.differences(got, s))
                if all(diffs):
                    kind = "altered-result" if ok else "partial-result"
                    w.violate(kind if t is None else "read-fault-data", "loaded result (residuals: %s) equals no complete saved one; it differs from each in %s; history %s" % (res, diffs, hist))
                    return
    x = p.get("other")
    if not x:
        return
    spec, idx = sets[x["spec"]]

    def another():
        R = results.make_result(ns, spec, copy.deepcopy(idx), x["seed"], True, [])
        want = results.snapshot(R)
        R.save(os.path.join(out, x["name"]), save_residuals=x["res"])
        return want

    o, _ = w.process(another, root=out, cpu=20)
    hist.append(("another result", "res" if x["res"] else "no res", o.how))
    if not o.ok:
        w.violate("save-failed", "another result beside the first: %r; history %s" % (o, hist))
        return
    want = dict(o.value, res=x["res"])
    alone = p["name"] not in os.listdir(out)
    seen = []
    for d in x["d"]:
        r, _ = w.process(lambda: results.snapshot(ns.HarmonisationResult(out, open_residuals=x["res"]), residuals=x["res"]), root=out, cpu=20, dirseed=d)
        w.state("two", alone, r.how, hist)
        w.note("two", r.how)
        if r.how in ("hung", "died"):
            w.violate("load-died", "%r %s" % (r, hist))
            return
        seen.append([n for n, s in enumerate(saved + [want]) if not results.differences(r.value, s)] if r.ok else None)
    if any(s == [] for s in seen):
        w.violate("altered-result", "what is loaded from a directory of two results is neither; history %s" % hist)
    elif any(s != seen[0] for s in seen):
        w.violate("arbitrary-result", "a directory of two results gives now one, now the other, by the order it is listed in; history %s" % hist)
    elif alone and seen[0] is None:
        w.violate("result-lost", "the only saved result does not load: %r; history %s" % (r, hist))
