"""C14 An interrupted dataset conversion is never mistaken for a finished one."""

import copy
import os
import shutil

from sim import convert, conversion, faulty, simio, world

ID = "C14"
LEVEL = "exploration"
RUNS = {"quick": 400, "thorough": 12000}
RULE = ("One case is one history on one output folder: conversions of the same (or, before it, other) input files under the same names, some "
        "crashed at an I/O operation or hit by a disk fault, each followed by a look at every target in a new process, and an undisturbed conversion "
        "at the end. Non-trivial: a conversion ended without error and its files were compared, or a fault fired; distinct by (converter, "
        "shape of the data, operations at the faults, outcomes, what was left).")
REAL = ["tools/MW_add_W_matrices (run, main)", "tools/AVHRR_to_updated_spec (main)", "tools/simulation_set_true_K and simulated_AVHRR (main)",
        "tools/generate_w_matrices, W_matrix_functions, harmonisation_input_checker, convert_bt_to_radiance", "MatchUpReader", "netCDF4/HDF5"]
STUB = ["the match-up files: synthetic", "nplcore: the repository's own names of today", "sensor models of the K converters: synthetic"]
ASSUMPTIONS = ["Process crashes: what was written before the crash is on disk, in order.",
               "Scan-line times lie within a third of a scan line of the grid."]


def setup(ns):
    convert.load_tools(ns)


def gen(rng, i, tier):
    c = conversion.gen(rng)
    steps = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        r = rng.random()
        if r < 0.6:
            steps.append([faulty.crash_point(rng, late=rng.choice([None, 0.5, 0.2]))])
        elif r < 0.85:
            steps.append([faulty.write_error(rng)])
        else:
            steps.append([faulty.read_error(rng)])
    old = None
    if rng.random() < 0.3:
        old = conversion.gen(rng, c["kind"])
        while c["kind"] != "setk" and len(old["cases"]) < len(c["cases"]):
            old = conversion.gen(rng, c["kind"])
        if c["kind"] != "setk":
            old["cases"] = old["cases"][:len(c["cases"])]
            old["names"], old["by"] = list(c["names"]), c.get("by")
            if c["kind"] == "avhrr":
                old["cases"][0]["band"] = c["cases"][0]["band"]
        elif len(old["spec"]["files"]) >= len(c["spec"]["files"]):
            old["spec"]["files"][:len(c["spec"]["files"])] = c["spec"]["files"]
            if len(set(old["spec"]["files"])) < len(old["spec"]["files"]):
                old = None
        else:
            old = None
    return {"c": c, "steps": steps, "old": old, "dirseed": rng.randrange(1 << 30)}


def shrink(p):
    if p["old"]:
        yield dict(p, old=None)
    for k in range(len(p["steps"])):
        q = copy.deepcopy(p)
        del q["steps"][k]
        yield q
    if not p["old"]:
        for c in conversion.shrink(p["c"]):
            yield dict(p, c=c)


def files(folder):
    return sorted(os.path.relpath(os.path.join(d, f), folder) for d, _, fs in os.walk(folder) for f in fs)


def written(log):
    """The data file that was being written last."""
    out = [f[1] for f in log if simio.KINDS[f[0]] in ("WRITE", "OPEN_W", "TRUNC") and ".nc" in f[1]]
    return out[-1] if out else None


def run(p, w):
    ns = w.ns
    C = conversion.Conversion(ns, p["c"], w.path("in"))
    shape = (p["c"]["kind"], p["c"].get("by"), [(x["M"], x["s1"], x["s2"], x.get("band"), x.get("bad")) for x in p["c"].get("cases", [])],
             [(s["M"], s["t"]) for s in p["c"]["spec"]["series"]] if "spec" in p["c"] else 0)
    clean, out = w.path("clean"), w.path("out")

    def convert_to(target, faults=(), d=0, what=C):
        return w.process(lambda: what(target), faults=faults, root=target, dirseed=d, cpu=60)

    def look(target, what=C):
        return world.fork_call(lambda: {rel: what.look(os.path.join(target, rel), rel) for rel in what.want})

    o, log = convert_to(clean)
    if not o.ok:
        w.violate("conversion-failed", "an undisturbed conversion: %r" % o)
        return
    g = look(clean)
    if not g.ok or any(g.value.values()):
        band = p["c"]["kind"] == "avhrr" and p["c"]["cases"][0]["band"] == 37 and g.ok and set(g.value.values()) == {"absent"}
        w.violate("wrong-conversion", "an undisturbed conversion left %s" % (g if not g.ok else {k: v for k, v in g.value.items() if v}),
                  key="no 3.7 um directories" if band else None)
        return
    names = files(clean)
    if names != sorted(C.want):
        w.violate("stray-files", "an undisturbed conversion left %s, not %s" % (names, sorted(C.want)))
        return
    w.state(shape)
    old = {}
    if p["old"]:
        O = conversion.Conversion(ns, p["old"], w.path("old_in"))
        o, _ = convert_to(out, what=O)
        g = look(out, O)
        if not o.ok or not g.ok or any(g.value.values()):
            w.violate("wrong-conversion", "an undisturbed conversion of the earlier files: %r, left %s" % (o, g.value))
            return
        old = {rel: O for rel in O.want}
    first = set(files(out)) if p["old"] else set()
    hist, cut_before = [], set()
    for n, points in enumerate(p["steps"]):
        spare = w.path("spare")
        if os.path.exists(out):
            shutil.copytree(out, spare)
        dry, log = convert_to(spare)
        shutil.rmtree(spare)
        if not dry.ok:
            w.violate("conversion-failed", "converting again after %s: %r" % (hist, dry))
            return
        fs = [f for f in (world.resolve(f, log) for f in points) if f]
        o, log = convert_to(out, fs, p["dirseed"])
        fired = [(f[0], f[1].split("/")[-1]) for f in log if f[6]]
        hist.append((o.how, [f["act"] for f in fs], fired))
        if o.how == "hung" or o.how == "died" and not fired:
            w.violate("conversion-died", "%r; %s" % (o, hist))
            return
        if not o.ok and not fired:
            w.violate("conversion-failed", "nothing went wrong, yet %r; history %s" % (o, hist))
            return
        left = {}
        for rel in sorted(C.want):
            path = os.path.join(out, rel)
            g = world.fork_call(lambda: C.look(path, rel), cpu=20)
            left[rel] = g.value if g.ok else "refused"  # a torn file may make the library itself fail
            if g.how == "raised":
                w.violate("unreadable", "%s: the reader takes the file, reading it all: %r; history %s" % (rel, g, hist))
                return
            if o.ok and left[rel]:
                w.violate("false-success", "the conversion ended without error, %s: %s; history %s" % (rel, left[rel], hist))
                return
            if isinstance(left[rel], list) and left[rel]:
                if rel in old:
                    h = world.fork_call(lambda: old[rel].look(path, rel), cpu=20)
                    if h.ok and h.value == []:
                        left[rel] = "old"
                        continue
                cut = p["c"]["kind"] == "avhrr" and not o.ok and (rel == written(log) or rel in cut_before)
                w.violate("partial-conversion", "the reader takes %s, in which differ %s; history %s" % (rel, left[rel], hist),
                          key="AVHRR file being written" if cut else None)
                if not cut:
                    return
                left[rel] = "partial"
                cut_before.add(rel)
        stray = [f for f in files(out) if f.endswith(".nc") and f not in C.want and f not in first]
        if stray:
            w.violate("stray-files", "%s would be read as data; history %s" % (stray, hist))
            return
        w.note(hist[-1], sorted((k, str(v)) for k, v in left.items()))
        w.state(shape, hist, sorted((k, str(v)) for k, v in left.items()))
    if not p["steps"] and not p["old"]:
        return
    o, _ = convert_to(out, d=p["dirseed"])
    if not o.ok:
        w.violate("conversion-failed", "converting again after %s: %r" % (hist, o))
        return
    got = files(out)
    if sorted(set(got) - first) != sorted(set(names) - first) or not set(names) <= set(got):
        w.violate("stray-files", "after %s and a complete conversion there are %s, not %s" % (hist, got, names))
        return

    def compare():
        return [rel for rel in names if not convert.same(convert.raw(os.path.join(clean, rel)), convert.raw(os.path.join(out, rel)))]

    g = world.fork_call(compare)
    if not g.ok or g.value:
        w.violate("not-the-same", "after %s, converting again left other files than an undisturbed conversion: %s" % (hist, g.value))
