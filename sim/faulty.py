"""Drawing fault points, and comparing what came back."""

import numpy as np

from . import simio

CRASHES = ["CRASH_BEFORE", "CRASH_AFTER", "CRASH_TORN"]
WRITE_ERRORS = ["ERR", "TORN_ERR", "FULL", "SHORT", "EINTR"]
READ_ERRORS = ["ERR", "SHORT", "EINTR"]
ERRNOS_W = [5, 28, 122, 13, 30]   # EIO ENOSPC EDQUOT EACCES EROFS
ERRNOS_R = [5, 13, 2, 116, 24]    # EIO EACCES ENOENT ESTALE EMFILE


def crash_point(rng, late=None):
    return {"act": rng.choice(CRASHES), "pick": rng.random() if late is None else 1 - late * rng.random(), "writes_only": rng.random() < 0.7,
            "arg": rng.randrange(1, 1000)}


def write_error(rng):
    """A third of them among the last operations: the library writes what it still holds when a file is closed, and whether that
    went well is what a writer is most easily wrong about. A full disk stays full, so that no later attempt mends the file."""
    last = rng.random() < 0.35
    act = rng.choice(["FULL", "FULL", "ERR", "TORN_ERR"]) if last else rng.choice(WRITE_ERRORS + ["ERR"])
    return {"act": act, "pick": 1 - 0.12 * rng.random() ** 2 if last else rng.random(), "writes_only": last or rng.random() < 0.8,
            "err": rng.choice(ERRNOS_W), "arg": rng.randrange(1, 1000)}


def read_error(rng):
    return {"act": rng.choice(READ_ERRORS + ["ERR", "ERR"]), "pick": rng.random(), "err": rng.choice(ERRNOS_R), "arg": rng.randrange(1, 1000)}


def is_crash(point):
    return point["act"].startswith("CRASH")


def kind(x):
    """The name of a logged operation."""
    return simio.KINDS[x[0]]


def act(x):
    """The name of the fault a logged operation met."""
    return simio.ACTNAME[x[6]]


def config_read_failed(log):
    """libgfortran takes a failed read in the midst of a namelist for a separator and goes on, with status zero: no program can tell."""
    return any(kind(x) == "READ" and act(x) == "ERR" and x[1].endswith(".nml") for x in log if x[6])


def plain(x):
    """Nested Python values of what may hold arrays, for equality and for pickling."""
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, bytes):
        return x.decode("latin1")
    return x


def arr(x):
    """An array as float64; masked elements count as NaN."""
    x = np.ma.filled(np.ma.asarray(x).astype(np.float64), np.nan)
    return np.asarray(x)


def close(x, y, rel=1e-6, abs_=0.0):
    """Same shape, and equal to a relative tolerance; NaN equals nothing."""
    x, y = arr(x), arr(y)
    if x.shape != y.shape:
        return False
    if x.size == 0:
        return True
    return bool(np.all(np.abs(x - y) <= abs_ + rel * np.maximum(np.abs(x), np.abs(y))))


def as_f4(x):
    return np.asarray(x, dtype=np.float32).astype(np.float64)
