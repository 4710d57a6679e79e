"""Match-up data as the system opened it, set against what the files hold."""

import datetime

import numpy as np
from scipy import sparse

from . import data, faulty

EPOCH = datetime.datetime(1970, 1, 1)


def seconds(t):
    return np.array([(x - EPOCH).total_seconds() for x in t])


def f8(x):
    return np.ma.filled(np.ma.asarray(x).astype(np.float64), np.nan)


def canonical(w):
    """A sparse matrix in one form, whatever the order or the zeros it was stored with."""
    w = sparse.csr_matrix(w, dtype=np.float64, copy=True)
    w.sum_duplicates()
    w.eliminate_zeros()
    w.sort_indices()
    return w


def view(H, uncertainty=True, additional=True):
    """What an opened match-up object says of each series, found through its documented indexing."""
    idx = H.idx
    n = len(idx["Im"])
    cN = [int(x) for x in idx["cNm"]]
    keys = [tuple(int(v) for v in k) for k in zip(idx["n_sensor"], idx["n_mu"], idx["n_cov"])]
    if len(set(keys)) != len(keys) or not (len(keys) == len(idx["N_var"]) == len(idx["idx"]) - 1):
        raise ValueError("inconsistent index: %s" % (idx,))
    out = []
    for i in range(n):
        r = slice(cN[i], cN[i + 1])
        s = {"sensors": [str(idx["sensors"][k]) for k in idx["Im"][i]], "M": int(idx["Nm"][i]), "X": [], "unc": []}
        for k in idx["Im"][i]:
            X, U = [], []
            for c in range(int(idx["sensor_ms"][k])):
                b = keys.index((int(k), i + 1, c + 1))
                lo, hi = int(idx["idx"][b]), int(idx["idx"][b + 1])
                if hi - lo != int(idx["N_var"][b]):
                    raise ValueError("block sizes disagree: %s" % (idx,))
                X.append(f8(H.values[lo:hi]))
                if uncertainty:
                    u = H.unc[b]
                    t = int(u.typeID)
                    if t == 1:
                        U.append((1, f8(u.uR)))
                    elif t == 2:
                        U.append((2, f8(u.uR), f8(u.uS), int(u.uS_i)))
                    else:
                        e = [t, canonical(H.w_matrices[u.w_i]), f8(H.u_matrices[u.u_i])]
                        U.append(tuple(e + [f8(u.uS), int(u.uS_i)]) if t == 4 else tuple(e))
            s["X"].append(X)
            s["unc"].append(U)
        s["K"] = f8(H.ks[r])
        if uncertainty:
            s["uK"] = f8(H.unck[i].uR)
        for t in ("time1", "time2"):
            s[t] = seconds(getattr(H, t)[r])
        for t in ("across_track_index1", "across_track_index2", "along_track_index1", "along_track_index2"):
            v = getattr(H, t)
            s[t] = None if v is None else f8(v[r])
        if additional:
            s["extra"] = {str(nm): f8(H.additional_values[r, j]) for j, nm in enumerate(idx["additional_values_name"])}
        out.append(s)
    return out


def flat(x):
    """Everything in an opened object, order and all, as text that two environments can be compared by."""
    if isinstance(x, dict):
        return "{%s}" % ",".join("%r:%s" % (k, flat(x[k])) for k in sorted(x))
    if isinstance(x, (list, tuple)):
        return "[%s]" % ",".join(flat(v) for v in x)
    if isinstance(x, np.ndarray):
        return "%s%s" % (x.shape, ",".join("%.9g" % v for v in np.ravel(x))) if x.dtype.kind in "fi" else flat(x.tolist())
    if isinstance(x, np.generic):
        return repr(x.item())
    if isinstance(x, bytes):
        return repr(x.decode("latin1"))
    if sparse.issparse(x):
        return flat([x.shape, x.indptr, x.indices, x.data])
    return repr(x)


def eq(a, b, rel=1e-6):
    if sparse.issparse(a) or sparse.issparse(b):
        return a.shape == b.shape and all(np.array_equal(getattr(a, k), getattr(b, k)) for k in ("indptr", "indices")) and eq(a.data, b.data, rel)
    a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    if a.shape != b.shape:
        return False
    with np.errstate(invalid="ignore"):
        return bool(np.all((np.abs(a - b) <= rel * np.maximum(np.abs(a), np.abs(b))) | (np.isnan(a) & np.isnan(b))))


def wanted(ser, all_track, all_extra):
    """What a series of the truth must look like when opened."""
    w = {"sensors": ser["sensors"], "M": ser["M"], "X": [], "unc": [], "K": ser["K"], "uK": np.sqrt(ser["Kr"] ** 2 + ser["Ks"] ** 2),
         "time1": ser["time1"], "time2": ser["time2"], "extra": {}}
    for side in (0, 1):
        w["X"].append([ser["X"][side][:, c] for c in range(ser["X"][side].shape[1])])
        U = []
        for c, t in enumerate(ser["type"][side]):
            if t == 1:
                U.append((1, ser["Ur"][side][:, c]))
            elif t == 2:
                U.append((2, ser["Ur"][side][:, c], ser["Us"][side][:, c]))
            else:
                e = [t, canonical(data.sparse_w(ser["w"][ser["w_use"][side][c] - 1])), ser["u"][ser["u_use"][side][c] - 1]]
                U.append(tuple(e + [ser["Us"][side][0, c]]) if t == 4 else tuple(e))
        w["unc"].append(U)
    for t in all_track:
        w[t] = ser["track"][t].astype(float) if t in ser["track"] else np.full(ser["M"], np.nan)
    for nm in all_extra:
        v = np.array(ser["extra"][nm], dtype=float) if nm in ser["extra"] else np.full(ser["M"], np.nan)
        v[v == -1e30] = np.nan
        w["extra"][nm] = v
    return w


TRACK = ("across_track_index1", "across_track_index2", "along_track_index1", "along_track_index2")


def wrong(got, tr, uncertainty=True, additional=True, rel=1e-12, series=None):
    """What differs between the series of a view and those of the truth; order of series free. Empty: all there, all right."""
    want = series if series is not None else tr["series"]
    if len(got) != len(want):
        return ["%d series instead of %d" % (len(got), len(want))]
    track = [t for t in TRACK if any(t in s["track"] for s in want)]
    extra = sorted({k for s in want for k in s["extra"]})
    left = [wanted(s, track, extra) for s in want]
    out, sysid = [], {}
    for i, g in enumerate(got):
        best = None
        for w in left:
            d = _differences(g, w, track, uncertainty, additional, rel)
            if best is None or len(d) < len(best[0]):
                best = (d, w)
        left = [x for x in left if x is not best[1]]
        out += ["series %d %s: %s" % (i, g["sensors"], ", ".join(best[0]))] if best[0] else []
        if uncertainty:
            for name, U in zip(g["sensors"], g["unc"]):
                for c, u in enumerate(U):
                    if u[0] in (2, 4):
                        sysid.setdefault((name, c), set()).add(u[-1])
    if any(len(v) > 1 for v in sysid.values()) or len(set(map(min, sysid.values()))) != len(sysid):
        out.append("systematic errors mixed up: %s" % sysid)
    return out


def _differences(g, w, track, uncertainty, additional, rel):
    d = [k for k in ("sensors", "M") if g[k] != w[k]]
    if not eq(g["K"], w["K"], rel):
        d.append("K")
    for side in (0, 1):
        if len(g["X"][side]) != len(w["X"][side]):
            d.append("columns of X%d" % (side + 1))
            continue
        for c, (x, y) in enumerate(zip(g["X"][side], w["X"][side])):
            if not eq(x, y, max(rel, 2e-7)):  # the measurements are held in single precision
                d.append("X%d column %d" % (side + 1, c))
        if uncertainty:
            for c, (x, y) in enumerate(zip(g["unc"][side], w["unc"][side])):
                if x[0] != y[0]:
                    d.append("correlation type %d column %d: %s" % (side + 1, c, x[0]))
                else:
                    for nm, p, q in zip({1: ["Ur"], 2: ["Ur", "Us"]}.get(x[0], ["W", "u", "Us"]), x[1:], y[1:]):
                        if not eq(p, q, rel):
                            d.append("%s%d column %d" % (nm, side + 1, c))
    if uncertainty and not eq(g["uK"], w["uK"], rel):
        d.append("uK")
    for t in ("time1", "time2"):
        if np.shape(g[t]) != np.shape(w[t]) or not np.all(np.abs(g[t] - w[t]) < 1):
            d.append(t)
    for t in TRACK:
        if t in track:
            if g[t] is None or not eq(g[t], w[t], rel):
                d.append(t)
        elif g[t] is not None:
            d.append(t + " from nowhere")
    if additional:
        if set(g["extra"]) != set(w["extra"]):
            d.append("additional names")
        else:
            d += ["additional " + k for k in w["extra"] if not eq(g["extra"][k], w["extra"][k], rel)]
    return d
