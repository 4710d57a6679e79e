"""C08 Every random sample is independent and internally consistent."""

import copy
import math
import random

import numpy as np

from sim import data, faulty, matchups, solver, world

ID = "C08"
LEVEL = "exploration"
RUNS = {"quick": 2500, "thorough": 60000}
RULE = ("One case is one draw of one sample from one dataset: the random generator is seeded, or an adversary picks the first, the last, the "
        "reversed, a strided or a repeated-end selection in its place. Non-trivial: fewer match-ups drawn than there are, or a structured series; "
        "distinct by (shape, factor, rows chosen).")
REAL = ["Sample2Ind", "get_sample_idxs (Cython source, translated)", "MatchUpReader", "MatchUp, Uncertainty"]
STUB = ["the match-up files' contents: synthetic"]
ASSUMPTIONS = ["Error-correlation matrices are rolling averages, as the matrix tools write them: the columns of a row are adjacent.",
               "Additional variables are not sampled (the code says so)."]


def gen(rng, i, tier):
    spec = data.gen_spec(rng, types=rng.choice([(1, 2, 3, 4), (1,), (1, 2), (3, 4), (1, 3)]), **dict(dict(
        max_M=rng.choice([8, 15, 40, 90]), repeat_pairs=rng.random() < 0.3, ref_first=rng.random() < 0.6, mixed_m=True), **data.outsize(rng, large=0.002)))
    draws = []
    for _ in range(rng.choice([3, 5, 8])):
        draws.append({"seed": rng.randrange(1 << 30), "sf": rng.choice([1.0, 1.0, 0.1, 0.5, 0.25, 0.9, round(rng.random(), 3), 1e-6, 1]),
                      "max": rng.choice([None, None, None, rng.randint(1, 60), rng.randint(1, 200)]),
                      "pick": rng.choice(["seed"] * 4 + ["first", "last", "reversed", "stride", "ends"])})
    return {"spec": spec, "draws": draws}


def shrink(p):
    for k in range(len(p["draws"])):
        if len(p["draws"]) > 1:
            q = copy.deepcopy(p)
            q["draws"] = [p["draws"][k]]
            yield q
    for k, d in enumerate(p["draws"]):
        for f, v in (("pick", "seed"), ("max", None), ("sf", 1.0), ("sf", 0.5)):
            if d[f] != v:
                q = copy.deepcopy(p)
                q["draws"][k][f] = v
                yield q
    for s in data.shrink_spec(p["spec"]):
        q = copy.deepcopy(p)
        q["spec"] = s
        yield q


def adversary(how):
    """What random.sample gives when the generator is not on your side."""
    def sample(population, k):
        n = len(population)
        if how == "first":
            pos = range(k)
        elif how == "last":
            pos = range(n - k, n)
        elif how == "reversed":
            pos = range(n - 1, n - 1 - k, -1)
        elif how == "stride":
            pos = sorted(range(n), key=lambda j: ((j * 7) % max(1, n), j))[:k]
        else:
            pos = [j // 2 if j % 2 == 0 else n - 1 - j // 2 for j in range(k)]
        return [population[j] for j in pos]
    return sample


def whole(H):
    """Everything the object holds, as text, to see whether it was changed."""
    out = [matchups.flat(matchups.view(H)), matchups.flat(faulty.plain(H.idx)), matchups.flat(np.asarray(H.values)), matchups.flat(np.asarray(H.a)),
           matchups.flat(faulty.plain(H.sensor_model_constant)), len(H.sensor_model), len(H.unc), len(H.unck), len(H.w_matrices), len(H.u_matrices)]
    out += [matchups.flat([sorted(k for k in vars(u)) for u in H.unc])]
    return out


def run(p, w):
    ns, spec = w.ns, p["spec"]
    tr = data.truth(spec)
    H = solver.open_data(ns, spec, data.write_dataset(spec, w.fresh(), tr), tr)
    V = matchups.view(H)
    if matchups.wrong(V, tr):
        w.violate("open-failed", "the data did not open as written: %s" % matchups.wrong(V, tr))
        return
    before = whole(H)
    total = sum(s["M"] for s in V)
    shape = [(s["M"], s["unc"] and [[u[0] for u in side] for side in s["unc"]]) for s in V]

    for d in p["draws"]:
        def draw(d=d):
            world.choose(adversary(d["pick"]) if d["pick"] != "seed" else None)
            kw = {} if d["max"] is None else {"n_sample_max": d["max"]}
            S = ns.Sample2Ind().run(H, sf=d["sf"], **kw)
            same = [a == b for a, b in zip(before, whole(H))]
            return {"view": matchups.view(S, additional=False), "a": faulty.arr(S.a).tolist(), "const": faulty.plain(S.sensor_model_constant), "same": same,
                    "idx": {k: faulty.plain(v) for k, v in S.idx.items()}, "models": len(S.sensor_model) == len(H.sensor_model) and all(
                        x is y for x, y in zip(S.sensor_model, H.sensor_model)), "n": len(S.values), "lens": [len(S.ks), len(S.time1), len(S.time2)]}

        o, _ = w.process(draw, seed=d["seed"])
        if not o.ok:
            w.violate("sample-failed", "factor %s, maximum %s: %r" % (d["sf"], d["max"], o))
            return
        g = o.value
        say = "factor %s, maximum %s, %s draw %d: " % (d["sf"], d["max"], d["pick"], d["seed"])
        if not all(g["same"]):
            w.violate("input-changed", say + "the data sampled from was changed")
            return
        if g["a"] != faulty.arr(H.a).tolist() or g["const"] != faulty.plain(H.sensor_model_constant) or not g["models"]:
            w.violate("sample-wrong", say + "parameters or models differ from those of the data")
            return
        for k in ("Im", "sensors", "sensor_ms", "n_sensor", "n_mu", "n_cov", "parameter_sensor"):
            if k in H.idx and g["idx"].get(k) != faulty.plain(H.idx[k]):
                w.violate("sample-wrong", say + "index entry %s differs from that of the data" % k)
                return
        cN = [0]
        for s in g["view"]:
            cN.append(cN[-1] + len(s["K"]))
        if len(g["view"]) != len(V) or [int(x) for x in g["idx"]["cNm"]] != cN or g["n"] != int(g["idx"]["idx"][-1]) or g["lens"] != [cN[-1]] * 3:
            w.violate("sample-wrong", say + "index does not describe the sample: %s" % g["idx"])
            return
        f = d["sf"]
        if d["max"] is not None and total * f > d["max"]:
            f = d["max"] / float(total)
        for i, (s, full) in enumerate(zip(g["view"], V)):
            rows = []
            place = {x: r for r, x in enumerate(full["K"].tolist())}
            for x in s["K"].tolist():
                if x not in place:
                    w.violate("sample-wrong", say + "an adjustment factor of series %d is not one of that series" % i)
                    return
                rows.append(place[x])
            allowed = full["M"] * f
            n = len(rows)
            few, many = int(math.floor(allowed - 1e-9)), int(math.floor(allowed + 1e-9))
            structured = [u for side in full["unc"] for u in side if u[0] in (3, 4)]
            w.state(shape[i], d["sf"], d["max"], tuple(rows))
            if len(set(rows)) != n:
                w.violate("repeated", say + "series %d: match-ups repeated: %s" % (i, rows))
                return
            if n > many or (n < few and not structured) or n > full["M"]:
                w.violate("sample-size", say + "series %d of %d match-ups: %d sampled, %d allowed" % (i, full["M"], n, many))
                return
            if structured:
                used = [(abs(u[1]) > 0).astype(int) for u in structured]
                taken = [np.asarray(U[rows].sum(axis=0)).ravel() for U in used]
                if any((t > 1).any() for t in taken):
                    w.violate("correlated", say + "series %d: sampled match-ups share an independent quantity: %s" % (i, rows))
                    return
                if n < few:
                    mine = set(rows)
                    clash = sum(U.dot(t) for t, U in zip(taken, used))
                    free = [r for r in range(full["M"]) if r not in mine and not clash[r]]
                    if free:
                        w.violate("sample-size", say + "series %d: %d sampled though %d are allowed and match-ups %s are independent of them"
                                  % (i, n, few, free))
                        return
            for side in (0, 1):
                for c, (x, X) in enumerate(zip(s["X"][side], full["X"][side])):
                    u, U = s["unc"][side][c], full["unc"][side][c]
                    if not np.array_equal(x, X[rows]):
                        w.violate("sample-wrong", say + "series %d: X%d column %d is not that of the sampled match-ups" % (i, side + 1, c))
                        return
                    if u[0] != 1:
                        w.violate("sample-wrong", say + "series %d: uncertainty of X%d column %d is not independent" % (i, side + 1, c))
                        return
                    if U[0] in (3, 4):
                        B = (abs(U[1]) > 0).astype(float)
                        want = np.sqrt(B.dot(U[2] ** 2) / np.asarray(B.sum(axis=1)).ravel())[rows]
                    else:
                        want = U[1][rows]
                    if not faulty.close(u[1], want, 1e-6):
                        w.violate("sample-wrong", say + "series %d: uncertainty of X%d column %d: %s, not %s" % (i, side + 1, c, u[1], want))
                        return
            for nm in ("uK", "time1", "time2") + matchups.TRACK:
                a, b = s[nm], full[nm]
                if (a is None) != (b is None) or a is not None and not matchups.eq(a, b[rows], 0):
                    w.violate("sample-wrong", say + "series %d: %s is not that of the sampled match-ups" % (i, nm))
                    return
        w.note(d["seed"], [len(s["K"]) for s in g["view"]])
