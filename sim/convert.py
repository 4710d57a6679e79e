"""Inputs for the match-up file converters, and what the converted files must hold, computed from the inputs alone."""

import os
import sys
import types

import numpy as np
from netCDF4 import Dataset

from . import data

KERNEL = np.array([1, 2, 3, 4, 3, 2, 1]) / 16.0
AMSUB, MHS = ["15", "16", "17"], ["19", "ma", "mb"]
SPLIT = {"AMSUB": 9, "MHS": 7}


# ------------------------------------------------------------------------------------------------ averaging
def positions(lines):
    """Matrix columns for match-ups centred on the given scan lines, and the scan line of each column."""
    return np.asarray(lines) - min(lines)


def averaging(lines, weights):
    """Dense averaging matrix: columns are the scan lines that are used, in order; and their numbers relative to the first."""
    p = positions(lines)
    n = len(weights)
    used = sorted({c for x in p for c in range(x, x + n)})
    at = {c: k for k, c in enumerate(used)}
    W = np.zeros((len(p), len(used)))
    for i, x in enumerate(p):
        for k in range(n):
            W[i, at[x + k]] += weights[k]
    return W, used


def times(r, lines, scanline, t0=1.4e9):
    """A time for each scan line number, off the grid by less than a third of a scan line; the first on it."""
    t = t0 + np.asarray(lines) * scanline
    j = r.uniform(-0.3, 0.3, len(lines)) * scanline
    j[0] = 0
    return t + j


def scan_lines(r, M, far):
    """Scan line numbers with neighbours, repeats and gaps; not sorted when far is odd."""
    step = r.choice([0, 1, 1, 2, 3, 5, 40], size=M)
    x = np.cumsum(step) + int(r.randint(0, 50))
    if far % 2:
        r.shuffle(x)
    return [int(v) for v in x]


# ------------------------------------------------------------------------------------------------ microwave
def mw_gen(rng):
    kind = rng.choice(["ref", "ref", "MHS", "AMSUB"])
    s1 = "18" if kind == "ref" else rng.choice({"MHS": MHS, "AMSUB": AMSUB}[kind])
    s2 = rng.choice([s for s in MHS + AMSUB if s != s1])
    return {"kind": "mw", "seed": rng.randrange(1 << 30), "M": rng.randint(3, 12), "s1": s1, "s2": s2, "extra": rng.random() < 0.5}


def instrument(s):
    return "MHS" if s in MHS else "AMSUB" if s in AMSUB else "ref"


def mw_truth(c):
    r = np.random.RandomState(c["seed"])
    M = c["M"]
    d = {"attrs": {"sensor_1_name": c["s1"], "sensor_2_name": c["s2"]}, "vars": {}, "dims": {"M": M}}
    v = d["vars"]
    out = {"attrs": d["attrs"], "vars": {}}
    ws, us = [], []
    for n, s in (("1", c["s1"]), ("2", c["s2"])):
        q = instrument(s)
        m = 1 if q == "ref" else SPLIT[q] + 2
        lines = scan_lines(r, M, r.randint(4))
        t = times(r, lines, 8.0 / 3.0)
        v["X" + n] = (("M", "m" + n), r.uniform(1, 5, (M, m)))
        Ur = r.uniform(0.1, 0.5, (M, m))
        Ur[:, :3] = Ur[0, :3]  # the same for every match-up, as the converter takes them from the first
        Us = np.zeros((M, m))
        if m > 1:
            Us[:, 2:-2] = r.uniform(0.1, 0.5)
            Us[:, -1] = r.uniform(0.1, 0.5)
        v["Ur" + n], v["Us" + n] = (("M", "m" + n), Ur), (("M", "m" + n), Us)
        v["uncertainty_type" + n] = (("m" + n,), np.array([1] * m, dtype=np.int32))
        v["time" + n] = (("M",), t)
        d["dims"]["m" + n] = m
        want = Ur.copy()
        typ, wu, uu = [1], [0], [0]
        if q != "ref":
            k = SPLIT[q]
            want[:, :k] = 0
            W, used = averaging(lines, KERNEL)
            ws.append(W)
            b = len(us)
            us += [np.full(len(used), Ur[0, j]) for j in range(3)]
            typ = [3, 3] + [4] * (k - 2) + [1, 2]
            wu = [len(ws)] * k + [0, 0]
            uu = [b + 1, b + 2] + [b + 3] * (k - 2) + [0, 0]
        out["vars"]["Ur" + n] = want
        out["vars"]["uncertainty_type" + n] = np.array(typ)
        out["vars"]["w_matrix_use" + n], out["vars"]["u_matrix_use" + n] = np.array(wu), np.array(uu)
    v["K"] = (("M",), r.uniform(-1, 1, M))
    v["Kr"] = (("M",), r.uniform(0.1, 0.2, M))
    v["Ks"] = (("M",), r.uniform(0.1, 0.2, M))
    if c["extra"]:
        v["nominal_measurand1"] = (("M",), r.uniform(1, 5, M))
        v["scan_position"] = (("M",), r.randint(0, 90, M).astype(np.int32))
    for k in v:
        out["vars"].setdefault(k, v[k][1])
    out["w"], out["u"] = ws, us
    return d, out


# ------------------------------------------------------------------------------------------------ AVHRR
NAMES = {-12: "aatsr", -11: "atsr2", -10: "atsr1", -1: "m02", 19: "n19", 18: "n18", 17: "n17", 16: "n16", 15: "n15", 14: "n14",
         12: "n12", 11: "n11", 10: "n10", 9: "n09", 8: "n08", 7: "n07"}
RENAMED = {"original_indices": "original_indices", "latitude": "lat2", "longitude": "lon2", "satza": "vza2", "solza": "sza2", "BT": "nominal_measurand2",
           "ref_latitude": "lat1", "ref_longitude": "lon1", "ref_satza": "vza1", "ref_solza": "sza1", "ref_BT": "nominal_measurand1"}


def avhrr_gen(rng):
    ref = rng.random() < 0.5
    s1 = rng.choice([-12, -11, -10]) if ref else rng.choice([19, 18, 17, 16, 15, 14, -1])
    s2 = rng.choice([s for s in (19, 18, 17, 16, 15, 14, 12, 11, 9, 7, -1) if s != s1])
    return {"kind": "avhrr", "seed": rng.randrange(1 << 30), "M": rng.randint(4, 12), "ref": ref, "s1": s1, "s2": s2, "band": rng.choice([11, 11, 12]),  # 37: see known_findings.json
           
            "n": rng.choice([3, 5]), "extra": rng.random() < 0.7, "bad": rng.choice([0, 0, 1, 2])}


def avhrr_truth(c):
    r = np.random.RandomState(c["seed"])
    M, n = c["M"], c["n"]
    f4 = np.float32
    ok = np.ones(M, dtype=bool)
    ok[r.choice(M, min(c["bad"], M - 3), replace=False)] = False
    H = r.uniform(1, 5, (M, 10)).astype(f4)
    if c["ref"]:
        H[:, 1:5] = np.nan
    Ur = r.uniform(0.1, 0.5, (M, 10)).astype(f4)
    Us = np.zeros((M, 10), dtype=f4)
    for k in (3, 4, 8, 9):
        Us[:, k] = f4(r.uniform(0.1, 0.5))
    v = {"H": (("M", "H_width"), H), "Ur": (("M", "H_width"), Ur), "Us": (("M", "H_width"), Us),
         "lm": (("L", "lm_width"), np.array([[c["s1"], c["s2"], M]], dtype=np.int32))}
    for k, lo in (("K", -1), ("Kr", 0.1), ("Ks", 0.1)):
        v[k] = (("M",), r.uniform(lo, 1, M).astype(f4))
    ws, us, t = [], [], []
    for k, (tn, a, b) in enumerate((("ref_time_matchup", "ref_cal_Sp_Ur", "ref_cal_BB_Ur"), ("time_matchup", "cal_Sp_Ur", "cal_BB_Ur"))):
        lines = scan_lines(r, M, r.randint(4))
        # the converter drops the match-ups without a full kernel first; the first left must be on the grid
        tt = times(r, lines, 0.5)
        f = int(np.argmax(ok))
        tt[f] = 1.4e9 + lines[f] * 0.5
        t.append(tt)
        v[tn] = (("M",), tt)
        for nm in (a, b):
            U = r.uniform(0.1, 0.5, max(lines) + n).astype(f4)
            rows = np.array([U[x:x + n] for x in lines], dtype=f4)
            v[nm] = (("M", "kernel"), rows)
            if k or not c["ref"]:
                good = [x for x, g in zip(lines, ok) if g]
                W, used = averaging(good, np.ones(n) / n)
                if nm == a:
                    ws.append(W)
                us.append(U[np.array(used) + min(good)].astype(np.float64))
    for k in np.flatnonzero(~ok):
        nm = ["ref_cal_Sp_Ur", "ref_cal_BB_Ur", "cal_Sp_Ur", "cal_BB_Ur"][r.randint(4)]
        v[nm][1][k, r.randint(n)] = np.nan
    bt = {"BT%02d" % c["band"]: "BT", "ref_BT%02d" % c["band"]: "ref_BT"}
    extra = list(bt) + (["latitude", "longitude", "ref_latitude", "ref_longitude", "satza", "ref_satza", "solza", "ref_solza"] if c["extra"] else [])
    add = {"original_indices": np.arange(M)}
    for nm in extra:
        x = r.uniform(200, 300, M).astype(f4)
        v[nm] = (("M",), x)
        add[RENAMED[bt.get(nm, nm)]] = x
    d = {"attrs": {}, "vars": v, "dims": {"M": M, "H_width": 10, "lm_width": 3, "L": 1, "kernel": n}}
    if c["band"] == 12:
        v["BT12"][1][:] = v["BT12"][1]
    outs = {}
    base = ("105", "106") if c["band"] == 37 else ("101", "102")
    m1s = (1, 1) if c["ref"] else (4, 5)
    for form in ("RSW_", "R_W_", "R___"):
        for code, m1, m2 in zip(base, m1s, (4, 5)):
            o = {"attrs": {"sensor_1_name": NAMES[c["s1"]], "sensor_2_name": NAMES[c["s2"]]}, "vars": {}, "w": [], "u": []}
            x = o["vars"]
            for side, m, lo in (("1", m1, 0), ("2", m2, 5)):
                q = slice(lo, lo + m)
                struct = m > 1
                x["X" + side] = H[ok, q]
                u = Ur[ok, q].astype(np.float64)
                if struct:
                    u[:, :2] = 0
                s = Us[ok, q].astype(np.float64)
                if side == "1" and c["ref"]:
                    s[:, 0] = 0
                if form != "RSW_":
                    s[:, :] = 0
                typ = ([3, 3, 1, 2, 2] if form == "RSW_" else [3, 3, 1, 1, 1])[:m] if struct else [1]
                wi = (1 if c["ref"] else 2) if side == "2" else 1
                b = 0 if wi == 1 else 2
                if form == "R___":
                    if struct:
                        for k in (0, 1):
                            u[:, k] = ws[wi - 1].dot(us[b + k])
                    typ = [1] * m
                else:
                    x["w_matrix_use" + side] = np.array([wi, wi, 0, 0, 0][:m] if struct else [0])
                    x["u_matrix_use" + side] = np.array([b + 1, b + 2, 0, 0, 0][:m] if struct else [0])
                x["Ur" + side], x["Us" + side], x["uncertainty_type" + side] = u, s, np.array(typ)
                if m == 4:
                    x["To" + side] = H[ok, lo + 4]
            for k in ("K", "Kr", "Ks"):
                x[k] = v[k][1][ok]
            x["time1"], x["time2"] = t[0][ok], t[1][ok]
            for k, a in add.items():
                x[k] = np.asarray(a)[ok]
            if form != "R___":
                o["w"], o["u"] = ws, us
            outs["AVHRR_REAL_%s_%s" % (code, form)] = o
    return d, outs


# ------------------------------------------------------------------------------------------------ files
def write(path, d):
    g = Dataset(path, "w")
    for k, n in d["dims"].items():
        g.createDimension(k, n)
    for k, val in d["attrs"].items():
        setattr(g, k, val)
    for k, (dims, a) in d["vars"].items():
        x = g.createVariable(k, a.dtype, dims, fill_value=False)
        x[:] = a
    g.close()


def raw(path):
    """All that a netCDF file holds: attributes and variables as stored, types included."""
    g = Dataset(path)
    try:
        g.set_auto_mask(False)
        out = {"attrs": {k: str(g.getncattr(k)) for k in g.ncattrs()}, "vars": {k: np.array(g.variables[k][:]) for k in g.variables},
               "types": {k: str(g.variables[k].dtype) for k in g.variables}, "dims": {k: g.variables[k].dimensions for k in g.variables}}
    finally:
        g.close()
    return out


def matrices(v):
    ws, us, b, e = [], [], 0, 0
    rows = np.atleast_2d(v["w_matrix_row"])
    for nnz, ip in zip(v["w_matrix_nnz"], rows):
        W = np.zeros((len(ip) - 1, 1 + max(v["w_matrix_col"][b:b + nnz])))
        for i in range(len(ip) - 1):
            for k in range(ip[i], ip[i + 1]):
                W[i, v["w_matrix_col"][b + k]] += v["w_matrix_val"][b + k]
        if ip[-1] != nnz or ip[0] != 0:
            raise ValueError("w_matrix_row %s for %d elements" % (ip, nnz))
        ws.append(W)
        b += nnz
    for n in v["u_matrix_row_count"]:
        us.append(v["u_matrix_val"][e:e + n])
        e += n
    return ws, us


def differs(got, want, rel=1e-6):
    """What of an expected converted file is not in the file read; [] if nothing."""
    out = ["attribute " + k for k in want["attrs"] if got["attrs"].get(k) != str(want["attrs"][k])]
    v = got["vars"]
    for k, a in want["vars"].items():
        if k not in v:
            out.append("no " + k)
            continue
        x, a = np.asarray(v[k], dtype=np.float64), np.asarray(a, dtype=np.float64)
        if x.shape != a.shape or not np.all(np.abs(x - a) <= rel * np.abs(a)):
            out.append(k)
    if want["w"]:
        try:
            ws, us = matrices(v)
        except (KeyError, ValueError, IndexError) as e:
            return out + ["matrices: %r" % e]
        for nm, g, t in (("W", ws, want["w"]), ("u", us, want["u"])):
            if len(g) != len(t):
                out.append("%d %s" % (len(g), nm))
                continue
            for k, (x, y) in enumerate(zip(g, t)):
                if x.shape != y.shape or not np.allclose(x, y, rtol=rel, atol=1e-12):
                    out.append("%s %d" % (nm, k + 1))
    elif "w_matrix_nnz" in v:
        out.append("matrices from nowhere")
    return out


def same(a, b):
    """Two files' contents, bit for bit."""
    return (a["attrs"] == b["attrs"] and a["types"] == b["types"] and a["dims"] == b["dims"] and set(a["vars"]) == set(b["vars"]) and
            all(x.shape == b["vars"][k].shape and x.tobytes() == b["vars"][k].tobytes() for k, x in a["vars"].items()))


# ------------------------------------------------------------------------------------------------ the converters
class Names(dict):
    """A dictionary by sensor ID, whose keys may be asked for with what netCDF4 makes of a scalar today, an array of no dimension;
    with the versions of the converter's time it was a number."""

    def keys(self):
        return list(dict.keys(self))

    def __contains__(self, k):
        return dict.__contains__(self, int(k))

    def __getitem__(self, k):
        return dict.__getitem__(self, int(k))

    def get(self, k, *other):
        return dict.get(self, int(k), *other)


def load_tools(ns):
    """Import the converters from the mirrored tree, with stand-ins for the packages of their authors' machines."""
    import shutil
    sys.path.append(os.path.join(ns.tree, "tools"))
    npl = types.ModuleType("nplcore")
    npl.sensors = None  # what the 'sensor model path' stands for

    def MatchUp(folder, sensors, open_uncertainty=True):
        H = ns.open_matchup(folder, open_uncertainty=open_uncertainty)
        H.setSensorData(npl.sensors(sensors))
        return H

    npl.MatchUp, npl.evaluate_K, npl.evaluate_measurand = MatchUp, ns.evaluate_K, ns.evaluate_measurand
    sys.modules["nplcore"] = npl
    for name in ("distutils", "distutils.dir_util"):
        sys.modules[name] = types.ModuleType(name)
    sys.modules["distutils"].dir_util = sys.modules["distutils.dir_util"]
    sys.modules["distutils.dir_util"].copy_tree = lambda a, b, **kw: shutil.copytree(a, b, dirs_exist_ok=True) and []
    import AVHRR_to_updated_spec
    import MW_add_W_matrices
    import simulated_AVHRR
    import simulation_set_true_K
    known = getattr(AVHRR_to_updated_spec, "updated_names", None)
    if type(known) is dict:
        AVHRR_to_updated_spec.updated_names = Names(known)
    ns.mw, ns.avhrr, ns.set_k, ns.sim_avhrr, ns.npl = MW_add_W_matrices, AVHRR_to_updated_spec, simulation_set_true_K, simulated_AVHRR, npl
    return ns


def k_truth(spec, tr):
    """The adjustment factors the sensor models give at the true parameters, for each series."""
    def side(ser, n):
        k = spec["sensors"].index(ser["sensors"][n])
        X = np.asarray(ser["X"][n], dtype=np.float32).astype(np.float64)
        if k == 0:
            R = X[:, 0]
        else:
            s = str(n + 1)
            R = tr["models"][k].value(X, tr["a_initial"][k], tr["const"][k],
                                      ser["track"].get("across_track_index" + s), ser["track"].get("along_track_index" + s), ser["time" + s])[0]
        return tr["adj"](R)[0] if tr["adj"] else R

    return [side(ser, 1) - side(ser, 0) for ser in tr["series"]]
