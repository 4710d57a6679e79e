"""C05 Opening match-up data is faithful and independent of the host."""

import copy
import hashlib
import os

import numpy as np

from sim import companion, data, faulty, matchups, results, world

ID = "C05"
LEVEL = "exploration"
RUNS = {"quick": 1000, "thorough": 30000}
RULE = ("One case is one dataset (or one saved result) opened in several simulated hosts that differ in directory listing order, "
        "string-hash seed, time zone and clock. Non-trivial: two hosts at least gave an answer; distinct by (shape and types of "
        "the data, form of the paths, hosts).")
REAL = ["MatchUpReader (open_matchup), with and without a sensor data module", "HarmonisationResult loading and saving", "netCDF4/HDF5",
        "separate interpreters for each string-hash seed"]
STUB = ["the files' contents: synthetic"]
ASSUMPTIONS = ["Measurement data is held in single precision, times to the second.",
               "Where the paths are listed by the caller any order of series is accepted if it is the same on all hosts."]
HASHES = [0, 1, 2, 3]
ZONES = ["UTC", "AAA+8", "BBB-5:45", "CCC-1DDD,M3.5.0,M10.5.0/3", "EEE+11:30FFF,M9.1.0,M4.1.0"]
FORMS = ["file", "dir", "files", "dirs", "dir", "dirs"]
EXTRA = ["systematic_errors", "systematic_error_sensors", "scores", "counts"]

comp = None


def start(ns, base):
    global comp
    comp = companion.Companions(base, ns.tree, "c05", HASHES)
    comp.wait()


def gen(rng, i, tier):
    spec = data.gen_spec(rng, **dict(dict(max_M=8, repeat_pairs=True, ref_first=rng.random() < 0.7, mixed_m=True, time_model=True), **data.outsize(rng)))
    form = rng.choice(FORMS)
    if form == "file":
        while len(spec["series"]) > 1:
            c = [x for x in data.shrink_spec(spec) if len(x["series"]) < len(spec["series"])]
            if not c:
                form = "files"
                break
            spec = c[0]
    n = len(spec["series"])
    hosts = [{"hash": rng.choice(HASHES), "tz": rng.choice(ZONES), "dir": rng.randrange(1, 1 << 30) if k else 0,
              "clock": rng.choice([2000000, 1500000000, 2 ** 31, 4102444800]) * 10 ** 9 + rng.randrange(10 ** 9) if rng.random() < 0.4 else None,
              "jump": [[rng.randrange(20), rng.choice([-1, 1]) * rng.randrange(10 ** 15)]]} for k in range(3)]
    if rng.random() < 0.8:
        hosts[1]["hash"] = (hosts[0]["hash"] + rng.randrange(1, len(HASHES))) % len(HASHES)
    return {"spec": spec, "form": form, "order": rng.sample(range(n), n), "where": [rng.randrange(2) for _ in range(n)],
            "others": rng.sample(["notes.txt", "README", "x.nc.bak", ".hidden", "sub", "job.cfg", "list.csv"], rng.randint(0, 4)),
            "unc": rng.random() < 0.8, "additional": rng.random() < 0.85, "sensors": rng.random() < 0.6, "module": rng.choice(["sensors_test", "avhrr_sim.v2"]) if False else "sensors_test",
            "hosts": hosts, "result": {"seed": rng.randrange(1 << 30), "extra": rng.sample(EXTRA, rng.randint(0, 4)), "values": rng.random() < 0.8}
            if rng.random() < 0.5 else None}


def shrink(p):
    if len(p["hosts"]) > 2:
        for k in range(len(p["hosts"])):
            q = copy.deepcopy(p)
            del q["hosts"][k]
            yield q
    for f, v in (("result", None), ("others", []), ("sensors", False), ("unc", False), ("additional", False)):
        if p[f]:
            q = copy.deepcopy(p)
            q[f] = v
            yield q
    a = p["hosts"][0]
    for k, h in enumerate(p["hosts"][1:], 1):
        for f in ("hash", "tz", "dir", "clock", "jump"):
            if h[f] != a[f]:
                q = copy.deepcopy(p)
                q["hosts"][k][f] = a[f]
                yield q
    for s in data.shrink_spec(p["spec"]):
        q = copy.deepcopy(p)
        q["spec"] = s
        n = len(s["series"])
        q["order"] = [k for k in p["order"] if k < n]
        yield q


MODULE = '''
def reference(X, a, c, across, along, time):
    return X[:, 0], None

def model(X, a, c, across, along, time):
    return X[:, 0], None

SENSOR_DATA = {
%s}
'''


def write_module(path, spec, tr):
    """A sensor data file: parameters that tell which sensor they belong to, also of sensors the data lacks."""
    lines, want = [], {}
    names = [(spec["sensors"][k], k) for k in spec["dict_order"]] + [("unused", 99)]
    for name, k in names:
        n = spec["p"][k] if k < len(spec["p"]) else 2
        par = [float(k * 100 + j) for j in range(n)]
        con = [k + 0.25, k + 0.5][:1 + k % 2]
        want[name] = (par, con)
        lines.append("    %r: {'sensor_model_parameter': %r, 'sensor_model_constant': %r, 'sensor_model': %s},\n" % (
            name, par, con, "model" if k else "reference"))
    with open(path, "w") as f:
        f.write(MODULE % "".join(lines))
    return want


def open_host(ns, paths, module, unc, additional):
    H = ns.open_matchup(copy.copy(paths), module, open_uncertainty=unc, open_additional_values=additional)
    v = matchups.view(H, unc, additional)
    order = [s["sensors"] for s in v], [str(x) for x in H.idx.get("additional_values_name", [])]
    sens = None
    if module:
        sens = ([str(s) for s in H.idx["parameter_sensor"]], [float(x) for x in H.a],
                [str(s) for s in H.idx["sensor_model_constant_sensor"]], [float(x) for x in H.sensor_model_constant],
                [f.__name__ for f in H.sensor_model], [str(s) for s in H.idx["sensors"]])
    raw = [H.idx, H.values, H.ks, matchups.seconds(H.time1), matchups.seconds(H.time2), v, sens]
    if additional:
        raw.append(H.additional_values)
    return v, order, sens, hashlib.sha1(matchups.flat(raw).encode()).hexdigest()


def save_host(ns, spec, idx, r, path):
    results.make_result(ns, spec, idx, r["seed"], r["values"], r["extra"]).save(path)


def load_host(ns, folder):
    R = ns.HarmonisationResult(folder)
    raw = [R.parameter, R.parameter_sensors, R.parameter_covariance_matrix, R.idx, R.values_res, R.ks_res, R.additional_attributes,
           sorted(R.additional_variables)]
    return results.snapshot(R), hashlib.sha1(matchups.flat(raw).encode()).hexdigest()


def on(w, h, fn, *args):
    return comp.call(w, h["hash"], "props.c05", fn, args, tz=h["tz"], dirseed=h["dir"], clock=h["clock"],
                     jumps=h["jump"] if h["clock"] is not None else ())


def run(p, w):
    spec = p["spec"]
    tr = data.truth(spec)
    top = w.path("data")
    two = [os.path.join(top, d) for d in ("b_first", "a_second")]
    where = p["where"] if p["form"] in ("dirs", "files") else [0] * len(spec["series"])
    paths = []
    for k, (name, ser) in enumerate(zip(spec["files"], tr["series"])):
        d = two[where[k]]
        os.makedirs(d, exist_ok=True)
        data.write_series(os.path.join(d, name), ser)
        paths.append(os.path.join(d, name))
    dirs = [d for d in two if os.path.isdir(d)]
    for o in p["others"]:
        for d in dirs:
            if o == "sub":
                os.makedirs(os.path.join(d, o))
                data.write_series(os.path.join(d, o, "zz.nc"), tr["series"][0])
            else:
                with open(os.path.join(d, o), "w") as f:
                    f.write("not match-up data\n")
    given = {"file": paths[0], "dir": dirs[0], "files": [paths[k] for k in p["order"]], "dirs": dirs}[p["form"]]
    module, want_sens = None, None
    if p["sensors"]:
        module = w.path(p["module"] + ".py")
        want_sens = write_module(module, spec, tr)
    first, idx = None, None
    shape = (spec["m"], [(s["s"], s["M"], s["t"], s["extra"], s["track"]) for s in spec["series"]], p["form"], p["others"])
    for h in p["hosts"]:
        o, _ = on(w, h, "open_host", given, module, p["unc"], p["additional"])
        w.state(shape, h)
        w.note(h, o.how)
        if not o.ok:
            w.violate("open-failed", "host %s: %r opening %s" % (h, o, p["form"]))
            return
        v, order, sens, digest = o.value
        bad = matchups.wrong(v, tr, p["unc"], p["additional"])
        if bad:
            w.violate("wrong-data", "host %s: %s" % (h, bad))
            return
        if module:
            ps, a, cs, c, models, names = sens
            present = set(spec["sensors"])
            for nm in present | {"unused"}:
                par, con = ([x for x, s in zip(a, ps) if s == nm], [x for x, s in zip(c, cs) if s == nm])
                w_par, w_con = want_sens[nm] if nm in present else ([], [])
                if par != w_par or con != w_con:
                    w.violate("wrong-sensor-data", "host %s: sensor %s has parameters %s, constants %s" % (h, nm, par, con))
                    return
            if models != ["reference" if s == spec["sensors"][0] else "model" for s in names]:
                w.violate("wrong-sensor-data", "host %s: models %s of %s" % (h, models, names))
                return
        if first is None:
            first = (digest, order)
        elif digest != first[0]:
            w.violate("host-dependent", "host %s opened the same data differently: %s, before %s" % (h, order, first[1]))
            return
    if p["result"]:
        H = w.ns.open_matchup(list(paths))
        out = w.path("out")
        os.makedirs(out)
        for o in p["others"]:
            if o != "sub":
                with open(os.path.join(out, o), "w") as f:
                    f.write("x")
        o, _ = on(w, p["hosts"][0], "save_host", spec, H.idx, p["result"], os.path.join(out, "harm_EV_0.1_x_01_SET.nc"))
        if not o.ok:
            w.violate("save-failed", repr(o))
            return
        want = results.snapshot(results.make_result(w.ns, spec, H.idx, p["result"]["seed"], p["result"]["values"], p["result"]["extra"]))
        first = None
        for h in p["hosts"]:
            o, _ = on(w, h, "load_host", out)
            w.state(shape, h, "result", p["result"])
            w.note(h, o.how)
            if not o.ok:
                w.violate("load-failed", "host %s: %r" % (h, o))
                return
            bad = results.differences(o.value[0], want)
            if bad:
                w.violate("wrong-result", "host %s: %s" % (h, bad))
                return
            if first is None:
                first = o.value[1]
            elif o.value[1] != first:
                w.violate("result-host-dependent", "host %s loaded the same result differently" % h)
                return
