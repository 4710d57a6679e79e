"""Harmonisation results: made from a seed, and compared with what was loaded."""

import numpy as np

from . import data, faulty


def make_result(ns, spec, idx, seed, values_res=True, extra=()):
    """A result of the right shape for a dataset's index; numbers from the seed."""
    r = np.random.RandomState(seed)
    sensors = [s for k, s in enumerate(spec["sensors"]) for _ in range(spec["p"][k])]
    n = len(sensors)
    R = ns.HarmonisationResult()
    R.parameter = r.randn(n)
    R.parameter_sensors = sensors
    A = r.randn(n, n)
    R.parameter_covariance_matrix = A.dot(A.T) * 10.0 ** r.randint(-10, 2)
    R.cost, R.cost_dof, R.cost_p_value = float(r.gamma(5)), int(r.randint(1, 500)), float(r.rand())
    odd = seed // 7 % 10  # a hopeless fit has a p-value of zero, a perfect one no cost
    if odd == 0:
        R.cost, R.cost_p_value = 1e6, 0.0
    elif odd == 1:
        R.cost, R.cost_dof, R.cost_p_value = 0.0, 0, 1.0
    R.idx = idx
    R.values_res = r.randn(idx["idx"][-1]) if values_res else None
    R.ks_res = r.randn(idx["cNm"][-1])
    R.additional_attributes = {"software": "EV", "software_version": "%d.%d" % (seed % 7, seed % 5), "job_id": "%02d" % (seed % 100),
                               "matchup_dataset": "TEST_RSA____%d" % seed}
    R.additional_variables = {}
    for name in extra:
        k = 1 + int(r.randint(4))
        dim = {"systematic_errors": "s", "systematic_error_sensors": "s", "scores": "t", "counts": "u"}[name]
        if dim == "s":
            k = 3
        if name == "systematic_error_sensors":
            R.additional_variables[name] = {"data": [spec["sensors"][int(r.randint(len(spec["sensors"])))] for _ in range(k)], "dim": dim,
                                            "dtype": "S1", "Description": "Sensors for fitted systematic errors"}
        elif name == "counts":
            R.additional_variables[name] = {"data": r.randint(0, 1000, k), "dim": dim, "dtype": "i4"}
        else:
            R.additional_variables[name] = {"data": r.randn(k).astype(np.float32), "dim": dim, "dtype": "f4" if dim == "s" else "f8",
                                            "Description": "Fitted systematic errors"}
    return R


def series(idx, values_res, ks_res):
    """What a result says of each match-up series, whatever the layout of its arrays."""
    blocks = [tuple(int(x) for x in b) for b in zip(idx["n_sensor"], idx["n_mu"], idx["n_cov"])] if "n_mu" in idx else []
    out = []
    for i, pair in enumerate(idx["Im"]):
        a, b = int(idx["cNm"][i]), int(idx["cNm"][i + 1])
        X = []
        for s in pair:
            cols = []
            if values_res is not None:
                for c in range(int(idx["sensor_ms"][s])):
                    k = blocks.index((int(s), i + 1, c + 1))
                    cols.append(faulty.arr(values_res[int(idx["idx"][k]):int(idx["idx"][k + 1])]))
            X.append(cols)
        out.append((tuple(str(idx["sensors"][s]) for s in pair), faulty.arr(ks_res[a:b]), X))
    return out


def strings(v):
    if isinstance(v, np.ndarray) and v.dtype.kind == "S" and v.ndim > 1:
        return [b"".join(np.ma.filled(row, b" ")).decode().strip("\0 ") for row in np.ma.asarray(v)]
    return [str(x.decode() if isinstance(x, bytes) else x).strip("\0 ") for x in v]


def snapshot(R, residuals=True):
    """Everything a result holds, as plain values."""
    extra = {}
    for k, v in (R.additional_variables or {}).items():
        d = v["data"] if isinstance(v, dict) else v
        a = np.ma.asarray(d)
        extra[str(k)] = ("text", strings(a if a.dtype.kind == "S" else list(d))) if a.dtype.kind in "SU" else ("num", faulty.arr(a))
    out = {"parameter": faulty.arr(R.parameter), "sensors": [str(s) for s in R.parameter_sensors],
           "covariance": faulty.arr(R.parameter_covariance_matrix), "cost": faulty.plain([R.cost, R.cost_dof, R.cost_p_value]),
           "attributes": faulty.plain(dict(R.additional_attributes or {})), "extra": extra}
    if residuals:
        out["residuals"] = series(R.idx, R.values_res, R.ks_res)
    return out


def near(a, b, rel):
    return faulty.close(a, b, rel=rel, abs_=rel * 1e-6)


def same_series(got, want, rel):
    if len(got) != len(want):
        return False
    left = list(want)
    for g in got:
        for w in left:
            if g[0] == w[0] and near(g[1], w[1], rel) and all(len(x) == len(y) and all(near(p, q, rel) for p, q in zip(x, y))
                                                            for x, y in zip(g[2], w[2])):
                left.remove(w) if False else left.pop(next(i for i, x in enumerate(left) if x is w))
                break
        else:
            return False
    return True


def same_number(x, y, rel):
    try:
        return abs(x - y) <= rel * abs(y)
    except TypeError:
        return x == y


def differences(got, want, rel=1e-12):
    """Names of what differs between two snapshots ('residuals' only if both have them)."""
    out = []
    for k in ("parameter", "covariance"):
        if not near(got[k], want[k], rel):
            out.append(k)
    if got["sensors"] != want["sensors"]:
        out.append("sensors")
    if len(got["cost"]) != len(want["cost"]) or not all(same_number(x, y, rel) for x, y in zip(got["cost"], want["cost"])):
        out.append("cost")
    if got["attributes"] != want["attributes"]:
        out.append("attributes")
    if set(got["extra"]) != set(want["extra"]):
        out.append("additional variables")
    else:
        for k in got["extra"]:
            (tg, vg), (tw, vw) = got["extra"][k], want["extra"][k]
            if tg != tw or (vg != vw if tg == "text" else not near(vg, vw, 1e-6)):
                out.append("additional variable " + k)
    if "residuals" in got and "residuals" in want and not same_series(got["residuals"], want["residuals"], rel):
        out.append("residuals")
    return out
