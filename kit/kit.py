"""Demonstration kit: import the built tree, make match-up data in a scratch folder, fork simulated processes."""
import importlib
import os
import pickle
import random
import shutil
import sys
import tempfile

TREE = os.environ.get("DEMO_TREE", "/opt/harmonisation-build")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(TREE, "harmonisation_eiv")]
import numpy as np
import netCDF4
import kitdata as data
import kitoracle as oracle


class NS(object):
    pass


def libraries():
    _sp = np.set_printoptions

    def set_printoptions(*a, **k):
        t = k.get("threshold")
        if t is not None and t != t:
            k["threshold"] = sys.maxsize
        return _sp(*a, **k)
    np.set_printoptions = set_printoptions
    _sample = random.sample

    def sample(population, k, **kw):
        if not isinstance(population, (list, tuple, range, str)):
            population = list(population)
        return _sample(population, int(k), **kw)
    random.sample = sample
    _s2c = netCDF4.stringtochar

    def stringtochar(a, *args, **kw):
        a = np.asarray(a)
        return _s2c(a.astype("S%d" % max(1, a.dtype.itemsize // 4)) if a.dtype.kind == "U" else a, *args, **kw)
    netCDF4.stringtochar = stringtochar


def wire():
    libraries()
    import harmonisation as H
    w = NS()

    def put(mod, *names):
        m = importlib.import_module("harmonisation." + mod)
        for n in names:
            setattr(H, n, getattr(m, n))
            setattr(w, n, getattr(m, n))
        return m
    P = "core.matchup."
    T = P + "matchupToolbox.harmonisation.harmonisationProcessing."
    put(P + "matchupIO.MatchUp", "MatchUp")
    put(P + "matchupIO.MatchUpReader", "open_matchup", "MatchUpReader")
    put(P + "matchupIO.MatchUpWriter", "MatchUpWriter")
    put(P + "matchupIO.Uncertainty", "Uncertainty")
    put(P + "matchupToolbox.utils.matchup_maths", "evaluate_measurand", "evaluate_adjusted_measurand", "evaluate_K")
    put(P + "matchupProcessing.sample2ind.Sample2Ind", "Sample2Ind")
    put(P + "matchupProcessing.transform2normind.Transform2NormInd", "Transform2NormInd")
    put(P + "matchupProcessing.simulate_matchup.SimulateMatchUp", "SimulateMatchUp")
    put(P + "matchupToolbox.harmonisation.harmonisationIO.HarmonisationResult", "HarmonisationResult")
    put(T + "harmonisation_eiv_pc.HarmonisationEIVPC", "HarmonisationEIVPC")
    w.eiv_module = put(T + "harmonisation_eiv.HarmonisationEIV", "HarmonisationEIV")
    w.gn_module = put(T + "harmonisation_eiv.GN_algo", "GNAlgo")
    put(T + "harmonisation_eiv_pc.pc_algo", "PCAlgo")
    w.tools = lambda name: importlib.import_module("harmonisation.tools." + name)
    w.H = H
    return w


_scratch = None


def scratch(*parts):
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="demo.")
    return os.path.join(_scratch, *parts)


def finish(failed):
    if _scratch:
        shutil.rmtree(_scratch, ignore_errors=True)
    print("FAIL: %s" % failed if failed else "ok")
    sys.stdout.flush()
    os._exit(1 if failed else 0)


def process(fn):
    """fn() in a forked process: ('ok', value), ('raised', text) or ('crashed', status)."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            out = ("ok", fn())
        except BaseException as e:
            if os.environ.get("DEMO_DEBUG"):
                import traceback
                traceback.print_exc()
            out = ("raised", "%s: %s" % (type(e).__name__, e))
        with os.fdopen(w, "wb") as f:
            pickle.dump(out, f)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        b = f.read()
    st = os.waitpid(pid, 0)[1]
    return pickle.loads(b) if b else ("crashed", st)


def make(seed, **kw):
    """A dataset in the scratch folder: spec, truth, paths."""
    spec = data.gen_spec(random.Random(seed), **kw)
    tr = data.truth(spec)
    return spec, tr, data.write_dataset(spec, scratch("data%d" % seed), tr)


def open_data(ns, spec, paths, tr):
    H = ns.open_matchup(paths)
    H.setSensorData(data.sensor_data(spec, tr))
    return H


def problem(ns, H, spec, tr):
    return oracle.Problem(spec, tr, H.idx, oracle.unc_info(H.unc))


def solver(ns, spec, paths, tr, preconditioned=True):
    H = ns.Transform2NormInd().run(open_data(ns, spec, paths, tr))
    V = None
    if preconditioned:
        V = np.asarray(problem(ns, H, spec, tr).covariance(np.concatenate([H.values, H.a]))[0], dtype=np.float32)
    return ns.GNAlgo(H, V) if V is not None else ns.GNAlgo(H)


def close(a, b, rtol=1e-3, atol=0.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= atol + rtol * np.max(np.abs(b))))
