"""One conversion of match-up files by the system's own converters: its inputs, how to run it, what it must leave."""

import os

import numpy as np

from . import convert, data


def gen(rng, kind=None):
    kind = kind or rng.choice(["mw", "mw", "avhrr", "setk"])
    if kind == "mw":
        by = rng.choice(["main", "main", "run"])
        n = 1 if by == "run" else rng.choice([1, 2, 3])
        return {"kind": kind, "by": by, "cases": [convert.mw_gen(rng) for _ in range(n)],
                "names": ["mw%02d_%s.nc" % (k, rng.choice(["a", "b.x", "2011"])) for k in range(n)]}
    if kind == "avhrr":
        return {"kind": kind, "cases": [convert.avhrr_gen(rng)], "names": ["n19_%d.nc" % rng.randrange(100)]}
    spec = data.gen_spec(rng, max_M=9, types=(1, 2, 3, 4), track_model=False, mixed_m=True, repeat_pairs=True)
    names = spec["files"][:]
    rng.shuffle(names)  # the order of the names is not that of the series in the specification
    spec["files"] = names
    return {"kind": kind, "by": rng.choice(["simulation_set_true_K", "simulated_AVHRR"]), "spec": spec,
            "others": rng.sample(["notes.txt", "x.nc.bak", ".hidden"], rng.choice([0, 0, 1, 2]))}


def shrink(c):
    import copy
    if c["kind"] == "mw" and len(c["cases"]) > 1:
        for k in range(len(c["cases"])):
            q = copy.deepcopy(c)
            del q["cases"][k], q["names"][k]
            yield q
    if c["kind"] == "setk":
        for s in data.shrink_spec(c["spec"]):
            q = copy.deepcopy(c)
            q["spec"] = s
            yield q
    for k, x in enumerate(c.get("cases", [])):
        for f, v in (("M", max(4, x["M"] - 3)), ("bad", 0), ("extra", False)):
            if f in x and x[f] != v and (f != "M" or x["M"] > v):
                q = copy.deepcopy(c)
                q["cases"][k][f] = v
                yield q


class Conversion(object):
    def __init__(self, ns, c, folder):
        """Write the inputs to the folder."""
        self.ns, self.c, self.folder = ns, c, folder
        os.makedirs(folder, exist_ok=True)
        self.want = {}   # path under the output folder -> what the file there must hold
        k = c["kind"]
        if k == "mw":
            for x, nm in zip(c["cases"], c["names"]):
                d, o = convert.mw_truth(x)
                convert.write(os.path.join(folder, nm), d)
                self.want[nm] = o
        elif k == "avhrr":
            d, outs = convert.avhrr_truth(c["cases"][0])
            convert.write(os.path.join(folder, c["names"][0]), d)
            for sub, o in outs.items():
                self.want[os.path.join(sub, c["names"][0])] = o
        else:
            spec = c["spec"]
            self.tr = data.truth(spec)
            for p, K in zip(data.write_dataset(spec, folder, self.tr), convert.k_truth(spec, self.tr)):
                o = convert.raw(p)
                o["vars"]["K"] = K
                o["w"] = o["u"] = []
                self.want[os.path.basename(p)] = o
            for nm in c["others"]:
                with open(os.path.join(folder, nm), "w") as f:
                    f.write("not a match-up file\n")

    def __call__(self, out):
        """Run the converter; raises what it raises."""
        ns, c = self.ns, self.c
        if c["kind"] == "mw":
            if c["by"] == "main":
                r = ns.mw.main(self.folder, out)
            else:
                os.makedirs(out, exist_ok=True)
                r = ns.mw.run(os.path.join(self.folder, c["names"][0]), os.path.join(out, c["names"][0]))
        elif c["kind"] == "avhrr":
            r = ns.avhrr.main(os.path.join(self.folder, c["names"][0]), out)
        else:
            ns.npl.sensors = lambda path: data.sensor_data(c["spec"], self.tr)
            r = (ns.set_k if c["by"] == "simulation_set_true_K" else ns.sim_avhrr).main(self.folder, "sensors", out)
        if r:
            raise RuntimeError("status %r" % r)

    def look(self, path, rel):
        """What is at a target path: 'absent', 'refused', [] if complete, else what differs."""
        if not os.path.lexists(path):
            return "absent"
        try:
            self.ns.open_matchup(path)
        except Exception:
            return "refused"
        return self.differs(convert.raw(path), rel)

    def differs(self, got, rel):
        want = self.want[rel]
        if self.c["kind"] != "setk":
            return convert.differs(got, want)
        out = [k for k in want["vars"] if k != "K" and (k not in got["vars"] or want["vars"][k].tobytes() != got["vars"][k].tobytes())]
        out += ["attribute " + k for k in want["attrs"] if want["attrs"][k] != got["attrs"].get(k)]
        K = got["vars"].get("K")
        if K is None or K.shape != want["vars"]["K"].shape or not np.all(np.abs(K - want["vars"]["K"]) <= 2e-5 * (1 + np.abs(K))):
            out.append("K")
        return out
