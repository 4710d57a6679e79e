"""Synthetic match-up datasets: a JSON spec fully determines the files, the sensors' models and the truth behind them."""

import datetime
import os

import numpy as np
from netCDF4 import Dataset
from scipy import sparse

NAMES = ["n15", "m02", "n19", "n18", "n17", "n16", "s07", "a01", "b22", "x99"]
MORE = ["n14", "n12", "n11", "n10", "m01", "1", "10", "2"]  # names that a sort as text puts in another order


# ------------------------------------------------------------------------------------------------ sensor models
EPOCH = datetime.datetime(1970, 1, 1)


def values(x, n):
    """An array of n numbers; not-a-numbers if there are none."""
    if x is None:
        return np.full(n, np.nan)
    x = np.asarray(x, dtype=np.float64)
    return x if x.shape == (n,) else np.full(n, np.nan)


def seconds(t, n):
    """Seconds since 1970 from date-times or numbers."""
    if t is None or len(t) != n:
        return np.full(n, np.nan)
    return np.array([(x - EPOCH).total_seconds() if isinstance(x, datetime.datetime) else float(x) for x in t])


class SensorModel(object):
    """R = sum_j a_j phi_j(x) + c0 * sum_{k>=2} x_k + c1 * (across + 2 along) + c2 * (hour of the day, as a sine).
    Picklable, as a module-level function would be."""

    def __init__(self, m, p, use_time=False, use_track=False):
        self.m, self.p, self.use_time, self.use_track = m, p, use_time, use_track

    def basis(self, X):
        M, m = X.shape
        x1, xm = X[:, 0] - 2.5, X[:, m - 1] - 2.5  # centred, so that the parameters are well determined
        z, o = np.zeros(M), np.ones(M)
        phi, d = [], []

        def add(f, **g):
            phi.append(f)
            G = np.zeros((M, m))
            for k, v in g.items():
                G[:, int(k[1:])] += v
            d.append(G)

        last = "x%d" % (m - 1)
        add(o)
        add(x1, x0=o)
        if m > 1:
            add(x1 * xm, **{"x0": xm, last: x1})
            add(x1 ** 2 - 0.75, x0=2 * x1)
            add(xm, **{last: o})
        else:
            add(x1 ** 2 - 0.75, x0=2 * x1)
        k = 0
        while len(phi) < self.p:  # any further parameters: harmonics of the first covariate
            k += 1
            q = k * np.pi / 3
            add(np.sin(q * x1) if k % 2 else np.cos(q * x1), x0=q * np.cos(q * x1) if k % 2 else -q * np.sin(q * x1))
        return phi[:self.p], d[:self.p]

    def value(self, X, a, c, across=None, along=None, time=None):
        X = np.asarray(X, dtype=np.float64)
        phi, d = self.basis(X)
        a = np.asarray(a, dtype=np.float64)
        c = np.asarray(c, dtype=np.float64)
        R = sum(ai * f for ai, f in zip(a, phi))
        J = np.zeros((X.shape[0], self.m + self.p))
        for ai, g in zip(a, d):
            J[:, :self.m] += ai * g
        for k in range(1, self.m):
            R = R + c[0] * X[:, k]
            J[:, k] += c[0]
        for j, f in enumerate(phi):
            J[:, self.m + j] = f
        if self.use_track:
            R = R + c[1] * (values(across, len(X)) + 2 * values(along, len(X)))
        if self.use_time:
            R = R + c[2] * np.sin(2 * np.pi * seconds(time, len(X)) / 86400.0)
        return R, J

    def __call__(self, X, a, c, across, along, time):
        R, J = self.value(X, a, c, across, along, time)
        return R, J


class AVHRRModel(object):
    """The AVHRR measurement equations of the catalogue, written again in double precision:
    R = a0 + (0.98514 + a1) L_ICT (C_S - C_E) / (C_S - C_ICT) [+ a2 (C_ICT - C_E) (C_S - C_E)] [+ a3 (T_o - T_0)]."""

    def __init__(self, quadratic, orbital, scaled):
        self.quadratic, self.orbital, self.scaled = quadratic, orbital, scaled
        self.m, self.p = 4 + orbital, 2 + quadratic + orbital
        self.scale = np.array([1.0, 1e-3] + [1e-6] * quadratic + [1e-3] * orbital) if scaled else np.ones(self.p)
        self.T0 = 285.0 if scaled else 0.0

    ranges = [(980.0, 990.0), (390.0, 420.0), (400.0, 950.0), (85.0, 110.0), (275.0, 295.0)]
    scales = [20.0, 20.0, 20.0, 5.0, 5.0]
    reference, sK = ((0.0, 100.0), 5.0), 10.0

    def draw(self, r):
        """Parameters as those of real instruments."""
        a = [r.uniform(-3, 3), r.uniform(-0.05, 0.05)] + [r.uniform(5e-6, 4e-5)] * self.quadratic + [r.uniform(-0.15, 0.15)] * self.orbital
        if self.orbital:
            a[0] -= self.T0 and 0.0 or 285.0 * a[-1]
        return np.array(a) / self.scale

    def value(self, X, a, c, across=None, along=None, time=None):
        X = np.asarray(X, dtype=np.float64)
        b = np.asarray(a, dtype=np.float64) * self.scale
        S, I, E, L = X[:, 0], X[:, 1], X[:, 2], X[:, 3]
        g, f = 0.98514 + b[1], (S - E) / (S - I)
        J = np.zeros((len(X), self.m + self.p))
        R = b[0] + g * L * f
        J[:, 0] = g * L * (E - I) / (S - I) ** 2
        J[:, 1] = g * L * f / (S - I)
        J[:, 2] = -g * L / (S - I)
        J[:, 3] = g * f
        m = self.m
        J[:, m] = 1.0
        J[:, m + 1] = L * f
        if self.quadratic:
            q = (I - E) * (S - E)
            R = R + b[2] * q
            J[:, 0] += b[2] * (I - E)
            J[:, 1] += b[2] * (S - E)
            J[:, 2] += b[2] * (2 * E - S - I)
            J[:, m + 2] = q
        if self.orbital:
            R = R + b[-1] * (X[:, 4] - self.T0)
            J[:, 4] = b[-1]
            J[:, m + self.p - 1] = X[:, 4] - self.T0
        J[:, m:] *= self.scale
        return R, J


_OLD = (["aatsr", "atsr2", "atsr1"], "m02 n19 n18 n17 n16 n15 n14 n12 n11 n10 n09 n08 n07".split())
# entry of the catalogue: (reference sensors, sensors, model)
CATALOGUE = {}
for _band in ("11um", "12um"):
    for _o in (0, 1):
        for _s in ("", "_rescaled"):
            CATALOGUE["AVHRR_%s_%d%s" % (_band, 3 + _o, _s)] = _OLD + (AVHRRModel(1, _o, bool(_s)),)
for _o in (0, 1):
    for _s in ("", "_rescaled"):
        CATALOGUE["AVHRR_37um_%d%s" % (2 + _o, _s)] = _OLD + (AVHRRModel(0, _o, bool(_s)),)
    CATALOGUE["AVHRR_sim_%d" % (3 + _o)] = (["m02"], "n19 n18 n17 n16 n15".split(), AVHRRModel(1, _o, False))
CATALOGUE["test_sim"] = (["0"], ["1", "2", "3"], AVHRRModel(1, 0, False))


class ReferenceModel(object):
    def __call__(self, X, a, c, across, along, time):
        return np.asarray(X)[:, 0], None


class Adjustment(object):
    """B(R) = R + b R^2."""

    def __init__(self, b):
        self.b = b

    def __call__(self, R):
        R = np.asarray(R, dtype=np.float64)
        return R + self.b * R ** 2, 1 + 2 * self.b * R


# ------------------------------------------------------------------------------------------------ specs
def gen_spec(rng, n_sensors=None, m=None, p=None, M=None, types=(1, 2, 3, 4), extra=True, adjustment=None, track_model=None,
             names=None, max_M=12, repeat_pairs=False, ref_first=True, mixed_m=False, time_model=False, min_M=None):
    """A random dataset spec (JSON)."""
    n = n_sensors if n_sensors is not None else rng.choice([1, 1, 2, 2, 3])
    m = m if m is not None else rng.choice([1, 2, 2, 3])
    pool = NAMES[:]
    rng.shuffle(pool)
    if n >= len(pool):
        pool = rng.sample(NAMES + MORE, n + 1)
    if rng.random() < 0.05:
        pool[-1] = "MetOp-A_AVHRR_channel-4_11um_forward_view_night"
    sensors = ["ref" if rng.random() < 0.6 else pool.pop()] + [pool.pop() for _ in range(n)]
    if names:
        sensors = names
    ms = [1] + [m if not mixed_m or rng.random() < 0.5 else rng.choice([1, 2, 3]) for _ in range(n)]
    ps = [0] + [p if p is not None else rng.choice([1, 2, 2, 3]) for _ in range(n)]
    pairs = [(0, 1)]
    for k in range(2, n + 1):
        pairs.append((rng.choice([0] + list(range(1, k))), k))
    for _ in range(rng.choice([0, 0, 1])):
        c = [(i, j) for i in range(0, n + 1) for j in range(i + 1, n + 1) if (i, j) not in pairs]
        if c:
            pairs.append(rng.choice(c))
    if repeat_pairs and rng.random() < 0.5:
        pairs.append(rng.choice(pairs))
        if rng.random() < 0.3:
            pairs += [pairs[-1]] * rng.choice([1, 1, 2])
    series = []
    for q, (i, j) in enumerate(pairs):
        Mi = M if M is not None else rng.randint(5, max_M)
        if rng.random() < 0.15 and i != 0:
            i, j = j, i
        if not ref_first and i == 0 and q > 0 and rng.random() < 0.3:
            i, j = j, i
        s = {"s": [i, j], "M": Mi, "t": []}
        for sens in (i, j):
            s["t"].append([1] if sens == 0 else [rng.choice(types) for _ in range(ms[sens])])
        s["w_per_cov"] = rng.random() < 0.5
        s["kernel"] = rng.choice([2, 3, 3, 5])
        s["gap"] = rng.choice([0, 0, 1, 2])
        s["track"] = extra and rng.random() < 0.5
        s["extra"] = sorted(rng.sample(["lat", "lon", "nominal_BT1", "solar_zenith", "scanline", "qc"], rng.randint(0, 4))) if extra else []
        s["fill"] = rng.random() < 0.3
        series.append(s)
    # the last series' non-reference sensors must have something for every sensor; give every parameter data enough
    need = max(ps) + 3
    for s in series:
        s["M"] = max(s["M"], need + 2) if min_M is None else rng.choice([min_M, s["M"], rng.randint(min_M, max_M)])
    style = rng.choice(["pair", "num", "word"])
    files = []
    for q, s in enumerate(series):
        a, b = sensors[s["s"][0]], sensors[s["s"][1]]
        files.append({"pair": "%02d_%s_%s.nc" % (q, a, b), "num": "%d_%d_%02d.nc" % (q, q + 1, q),
                      "word": "mmd%02d.%s-%s.nc" % (q, a, b)}[style])
    if time_model and rng.random() < 0.4:
        time_model = True
    else:
        time_model = False
    if track_model is None:
        track_model = rng.random() < 0.2
        if track_model and extra and rng.random() < 0.8:
            for s in series:
                s["track"] = True
    seed = rng.randrange(1 << 30)
    for q, s in enumerate(series):
        if (seed // 7 + q) % 4 == 0:  # match-ups that are not in the order of their scan lines, and windows of different widths
            s["order"] = seed // 4 + q
    return {"seed": seed, "sensors": sensors, "m": ms, "p": ps, "series": series, "files": files,
            "b": adjustment if adjustment is not None else rng.choice([0, 0, 0.01]),
            "track_model": track_model, "time_model": time_model, "wide_index": rng.random() < 0.5,
            "dict_order": rng.sample(range(n + 1), n + 1)}


KINDS = sorted({(x.quadratic, x.orbital, x.scaled) for _, _, x in CATALOGUE.values()})


def of_catalogue(rng, spec, kind):
    """Make the sensors of a spec those of an entry of the catalogue, with the model of a kind (a number)."""
    q = KINDS[kind % len(KINDS)]
    spec["catalogue"] = rng.choice([n for n in sorted(CATALOGUE) if (CATALOGUE[n][2].quadratic, CATALOGUE[n][2].orbital, CATALOGUE[n][2].scaled) == q])
    refs, others, model = CATALOGUE[spec["catalogue"]]
    n = len(spec["sensors"]) - 1
    spec["sensors"] = [rng.choice(refs)] + rng.sample(others, n)
    spec["m"], spec["p"] = [1] + [model.m] * n, [0] + [model.p] * n
    spec["b"], spec["track_model"], spec["time_model"] = 0, False, False
    for s in spec["series"]:
        for side, k in enumerate(s["s"]):
            t = s["t"][side]
            s["t"][side] = (t * 5)[:spec["m"][k]]
    return spec


def outsize(rng, many=0.02, large=0.004, few=0.1):
    """Now and then the arguments for a dataset of many sensors and series, or of many match-ups in one series."""
    r = rng.random()
    if r < many:
        return {"n_sensors": rng.randint(9, 13), "m": 1, "p": 1, "max_M": 5, "mixed_m": False}
    if r < many + large:
        return {"n_sensors": 1, "M": rng.choice([33000, 40000]), "m": rng.choice([1, 2])}
    if r < many + large + few:
        return {"min_M": 1}
    return {}


def shrink_spec(spec):
    """Smaller specs, nearest first. The indices of sensors stay; unused sensors at the end are dropped."""
    out = []
    import copy
    if len(spec["series"]) > 1:
        for q in range(len(spec["series"]) - 1, 0, -1):
            c = copy.deepcopy(spec)
            del c["series"][q]
            del c["files"][q]
            used = {k for s in c["series"] for k in s["s"]}
            if used == set(range(len(c["sensors"]))):
                out.append(c)
            elif used == set(range(len(c["sensors"]) - 1)):
                c["sensors"] = c["sensors"][:-1]
                c["p"] = c["p"][:-1]
                c["m"] = c["m"][:-1]
                c["dict_order"] = [k for k in c["dict_order"] if k < len(c["sensors"])]
                out.append(c)
    for q, s in enumerate(spec["series"]):
        for side in (0, 1):
            for k, t in enumerate(s["t"][side]):
                if t != 1:
                    c = copy.deepcopy(spec)
                    c["series"][q]["t"][side][k] = 1
                    out.append(c)
        if s.get("order") is not None:
            c = copy.deepcopy(spec)
            c["series"][q]["order"] = None
            out.append(c)
        if s["extra"]:
            c = copy.deepcopy(spec)
            c["series"][q]["extra"] = []
            out.append(c)
        if s["track"]:
            c = copy.deepcopy(spec)
            c["series"][q]["track"] = False
            out.append(c)
        if s["M"] > max(spec["p"]) + 5:
            c = copy.deepcopy(spec)
            c["series"][q]["M"] = max(max(spec["p"]) + 5, s["M"] // 2)
            out.append(c)
    return out


# ------------------------------------------------------------------------------------------------ truth
def _w_matrix(r, M, n, gap, order=None):
    """A rolling average over scan lines: every row opens at least one column nothing before it used.

    With an order, a seed: windows of different widths, unequal weights, and match-ups that are not in the order of their scan lines."""
    starts, c = [], 0
    for _ in range(M):
        starts.append(c)
        c += int(r.randint(1, n + 1 + gap))
    cols = [list(range(s, s + n)) for s in starts]
    if order is not None:
        o = np.random.RandomState(order % 2 ** 32)
        if order % 2:
            cols = [row[n - int(o.randint(1, n + 1)):] for row in cols]  # (its last column stays)
        cols = [cols[i] for i in o.permutation(M)]
    used = sorted({k for row in cols for k in row})
    back = {k: i for i, k in enumerate(used)}
    indices = np.array([back[k] for row in cols for k in row], dtype=np.int32)
    indptr = np.cumsum([0] + [len(row) for row in cols]).astype(np.int32)
    data = np.array([1.0 / len(row) for row in cols for k in row])
    if order is not None and order // 2 % 3 == 0:  # a weighted average
        data = o.uniform(0.5, 1.5, len(data))
        data /= np.repeat(np.add.reduceat(data, indptr[:-1]), np.diff(indptr))
    return data, indices, indptr, len(used)


def apply_w(w, x):
    """The product of an averaging matrix and a vector."""
    data, indices, indptr, nc = w
    return np.add.reduceat(data * np.asarray(x)[indices], indptr[:-1])


def sparse_w(w):
    data, indices, indptr, nc = w
    return sparse.csr_matrix((data, indices, indptr), shape=(len(indptr) - 1, nc))


def dense_w(w):
    data, indices, indptr, nc = w
    D = np.zeros((len(indptr) - 1, nc))
    for r in range(len(indptr) - 1):
        for k in range(indptr[r], indptr[r + 1]):
            D[r, indices[k]] += data[k]
    return D


def truth(spec):
    """All that the files hold, and the parameters behind it."""
    r = np.random.RandomState(spec["seed"])
    ms = spec["m"]
    S = len(spec["sensors"])
    models = [None] + [SensorModel(ms[k], spec["p"][k], use_time=spec["time_model"], use_track=spec["track_model"] and all(s["track"] for s in spec["series"]))
                       for k in range(1, S)]
    a_true = [None] + [np.concatenate([[r.uniform(0.5, 1.5)], r.uniform(0.5, 1.2, max(0, min(1, spec["p"][k] - 1))),
                                       r.uniform(-0.15, 0.15, max(0, spec["p"][k] - 2))]) for k in range(1, S)]
    const = [[], ] + [[round(float(r.uniform(0.1, 0.5)), 3), 0.001, 0.3] for k in range(1, S)]
    adj = Adjustment(spec["b"]) if spec["b"] else None
    B = adj if adj else (lambda R: (R, np.ones(len(R))))
    rng_, sc, sK = [[(1.0, 4.0)] * mk for mk in ms], [[1.0] * mk for mk in ms], 1.0
    if spec.get("catalogue"):
        refs, others, cat = CATALOGUE[spec["catalogue"]]
        models = [None] + [cat] * (S - 1)
        a_true = [None] + [cat.draw(r) for _ in range(1, S)]
        const = [[]] * S
        rng_, sc, sK = [[cat.reference[0]]] + [cat.ranges[:cat.m]] * (S - 1), [[cat.reference[1]]] + [cat.scales[:cat.m]] * (S - 1), cat.sK
    sys_err = {(k, c): r.randn() for k in range(S) for c in range(ms[k])}
    out = {"series": [], "a_true": a_true, "const": const, "models": models, "adj": adj, "range": rng_, "scale": sc}
    t0 = 1.2e9 + r.randint(0, 10 ** 8)
    for q, s in enumerate(spec["series"]):
        M = s["M"]
        ser = {"M": M, "sensors": [spec["sensors"][k] for k in s["s"]], "X": [], "Ur": [], "Us": [], "type": s["t"],
               "w": [], "u": [], "w_use": [], "u_use": []}
        ser["time1"] = np.sort(t0 + r.randint(0, 10 ** 7, M).astype(float)) + r.choice([0.0, 0.25], M)
        ser["time2"] = ser["time1"] + r.randint(-300, 300, M)
        track = {}
        if s["track"]:
            for nm in ("across_track_index1", "across_track_index2", "along_track_index1", "along_track_index2"):
                # (a model that uses them keeps to small ones, or its values would lose all meaning)
                track[nm] = r.randint(0, 400 if spec["track_model"] or not spec.get("wide_index") else 2 ** 31 - 1, M).astype(np.int32)
        Rt = [None, None]
        for side, k in enumerate(s["s"]):
            mk = ms[k]
            X, Ur, Us = np.zeros((M, mk)), np.zeros((M, mk)), np.zeros((M, mk))
            w_use, u_use = [0] * mk, [0] * mk
            Xt = np.zeros((M, mk))
            side_w = None
            for c in range(mk):
                t = s["t"][side][c]
                Ur[:, c] = (r.uniform(0.02, 0.06, M) if k else r.uniform(0.005, 0.02, M)) * sc[k][c]
                if t in (1, 2):
                    Xt[:, c] = r.uniform(rng_[k][c][0], rng_[k][c][1], M)
                    X[:, c] = Xt[:, c] + Ur[:, c] * r.randn(M)
                    if t == 2:
                        Us[:, c] = r.uniform(0.01, 0.05, M) * sc[k][c]
                        X[:, c] += Us[:, c] * sys_err[(k, c)]
                else:
                    if side_w is None or s["w_per_cov"]:
                        ser["w"].append(_w_matrix(r, M, s["kernel"], s["gap"], s.get("order")))
                        side_w = len(ser["w"])
                    W = ser["w"][side_w - 1]
                    nc = W[3]
                    u = r.uniform(0.03, 0.09, nc) * sc[k][c]
                    ser["u"].append(u)
                    w_use[c], u_use[c] = side_w, len(ser["u"])
                    z = r.uniform(rng_[k][c][0], rng_[k][c][1], nc)
                    Xt[:, c] = apply_w(W, z)
                    X[:, c] = apply_w(W, z + u * r.randn(nc))
                    if t == 4:
                        Us[:, c] = (0.03 + 0.01 * c) * sc[k][c]  # one value: the reader takes a single one for the column
                        X[:, c] += apply_w(W, np.full(nc, Us[0, c])) * sys_err[(k, c)]
            ser["X"].append(X)
            ser["Ur"].append(Ur)
            ser["Us"].append(Us)
            ser["w_use"].append(w_use)
            ser["u_use"].append(u_use)
            n = str(side + 1)
            Rt[side] = Xt[:, 0] if k == 0 else models[k].value(Xt, a_true[k], const[k], track.get("across_track_index" + n),
                                                               track.get("along_track_index" + n), ser["time" + n])[0]
        ser["Kr"] = r.uniform(0.02, 0.05, M) * sK
        ser["Ks"] = r.uniform(0.0, 0.03, M) * sK if r.rand() < 0.5 else np.zeros(M)
        uK = np.sqrt(ser["Kr"] ** 2 + ser["Ks"] ** 2)
        ser["K"] = B(Rt[1])[0] - B(Rt[0])[0] + uK * r.randn(M)
        ser["track"] = track
        ser["extra"] = {}
        for nm in s["extra"]:
            v = r.uniform(-100, 100, M)
            if s["fill"]:
                v[r.rand(M) < 0.2] = -1e30
            ser["extra"][nm] = v
        out["series"].append(ser)
    out["a_initial"] = [None] + [np.asarray(a_true[k] * (1 + spec.get("astray", 0.05) * r.randn(len(a_true[k]))), dtype=np.float32) for k in range(1, S)]
    return out


def sensor_data(spec, tr=None):
    """The SENSOR_DATA dictionary a sensor data module would define."""
    tr = tr or truth(spec)
    if spec.get("catalogue"):  # the system's own
        import importlib
        return importlib.import_module("harmonisation.sensor_data.SensorDataFactory").SensorDataFactory().get_sensor_data(spec["catalogue"])
    out = {}
    for k in spec["dict_order"]:
        d = {"sensor_model_constant": list(tr["const"][k]), "sensor_model_parameter": [], "sensor_model": ReferenceModel()}
        if k:
            d["sensor_model_parameter"] = [float(x) for x in tr["a_initial"][k]]
            d["sensor_model"] = tr["models"][k]
        if tr["adj"]:
            d["sensor_adjustment_model"] = tr["adj"]
        out[spec["sensors"][k]] = d
    return out


def write_series(path, ser, fmt="NETCDF4"):
    d = Dataset(path, "w", format=fmt)
    M = ser["M"]
    d.sensor_1_name, d.sensor_2_name = ser["sensors"]
    d.createDimension("M", M)
    for side in (0, 1):
        d.createDimension("m%d" % (side + 1), ser["X"][side].shape[1])
    if ser["w"]:
        d.createDimension("w_matrix_count", len(ser["w"]))
        d.createDimension("w_matrix_row_count", M + 1)
        d.createDimension("w_matrix_nnz_sum", sum(len(w[0]) for w in ser["w"]))
        d.createDimension("u_matrix_count", len(ser["u"]))
        d.createDimension("u_matrix_row_count_sum", sum(len(u) for u in ser["u"]))

    def var(name, typ, dims, v, **kw):
        x = d.createVariable(name, typ, dims, **kw)
        x[:] = v

    for side in (0, 1):
        n = str(side + 1)
        for nm in ("X", "Ur", "Us"):
            var(nm + n, "f8", ("M", "m" + n), ser[nm][side])
        var("uncertainty_type" + n, "i4", ("m" + n,), ser["type"][side])
        var("time" + n, "f8", ("M",), ser["time" + n])
        if ser["w"]:
            var("w_matrix_use" + n, "i4", ("m" + n,), ser["w_use"][side])
            var("u_matrix_use" + n, "i4", ("m" + n,), ser["u_use"][side])
    for nm in ("K", "Kr", "Ks"):
        var(nm, "f8", ("M",), ser[nm])
    if ser["w"]:
        var("w_matrix_nnz", "i4", ("w_matrix_count",), [len(w[0]) for w in ser["w"]])
        var("w_matrix_row", "i4", ("w_matrix_count", "w_matrix_row_count"), np.array([w[2] for w in ser["w"]]))
        var("w_matrix_col", "i4", ("w_matrix_nnz_sum",), np.concatenate([w[1] for w in ser["w"]]))
        var("w_matrix_val", "f8", ("w_matrix_nnz_sum",), np.concatenate([w[0] for w in ser["w"]]))
        var("u_matrix_row_count", "i4", ("u_matrix_count",), [len(u) for u in ser["u"]])
        var("u_matrix_val", "f8", ("u_matrix_row_count_sum",), np.concatenate(ser["u"]))
    for nm, v in ser["track"].items():
        var(nm, "i4", ("M",), v)
    for nm, v in ser["extra"].items():
        var(nm, "f8", ("M",), v)
    d.close()


def write_dataset(spec, folder, tr=None, fmt="NETCDF4"):
    """Write the files; returns their paths in the spec's order."""
    tr = tr or truth(spec)
    os.makedirs(folder, exist_ok=True)
    paths = []
    for name, ser in zip(spec["files"], tr["series"]):
        p = os.path.join(folder, name)
        write_series(p, ser, fmt)
        paths.append(p)
    return paths
