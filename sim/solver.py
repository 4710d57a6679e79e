"""Driving the system's solver from a dataset spec."""

import os

import numpy as np

from . import data, oracle


def open_data(ns, spec, paths, tr=None):
    H = ns.open_matchup(paths)
    H.setSensorData(data.sensor_data(spec, tr))
    return H


def make_solver(ns, spec, paths, tr, s_seed=0, x_seed=0):
    """A GNAlgo on the transformed data. The preconditioner approximates the true covariance as the preconditioner's
    solution does (s_seed 0: none); the state is moved off the data by x_seed."""
    H = ns.Transform2NormInd().run(open_data(ns, spec, paths, tr))
    V = None
    if s_seed:
        prob = oracle.Problem(spec, tr, H.idx, oracle.unc_info(H.unc))
        V = approximate(prob.covariance(np.concatenate([H.values, H.a]))[0], s_seed)
    GN = ns.GNAlgo(H, V) if V is not None else ns.GNAlgo(H)
    move(GN, x_seed)
    return GN


def approximate(V, seed):
    r = np.random.RandomState(seed)
    n = len(V)
    A = np.eye(n) * r.uniform(0.7, 1.4, n) + 0.1 * r.randn(n, n)
    L = np.linalg.cholesky(V)
    return np.asarray(L.dot(A).dot(A.T).dot(L.T), dtype=np.float32)


def move(GN, x_seed):
    if x_seed:
        q = np.random.RandomState(x_seed)
        nv = int(GN.HData.idx["idx"][-1])
        d = 0.3 * q.randn(len(GN.xyza))
        d[nv:] = 0.02 * q.randn(len(GN.xyza) - nv)
        GN.xyza = (GN.xyza + d).astype(GN.xyza.dtype)
