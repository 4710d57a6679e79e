"""The simulator's I/O seam, from Python: the shared-memory region of simio.c and its fault plans."""

import ctypes
import os

ERR, SHORT, TORN_ERR, CRASH_BEFORE, CRASH_AFTER, CRASH_TORN, FULL, EINTR = range(1, 9)
ACT = {"ERR": ERR, "SHORT": SHORT, "TORN_ERR": TORN_ERR, "CRASH_BEFORE": CRASH_BEFORE, "CRASH_AFTER": CRASH_AFTER,
       "CRASH_TORN": CRASH_TORN, "FULL": FULL, "EINTR": EINTR}
ACTNAME = {v: k for k, v in ACT.items()}
KINDS = ["?", "OPEN_R", "OPEN_W", "READ", "WRITE", "TRUNC", "SYNC", "RENAME", "UNLINK", "MKDIR", "CLOSE", "OPENDIR",
         "LINK", "RMDIR"]
KIND = {k: i for i, k in enumerate(KINDS)}
WRITE_KINDS = {KIND[k] for k in ("OPEN_W", "WRITE", "TRUNC", "SYNC", "RENAME", "UNLINK", "MKDIR", "LINK", "RMDIR")}
READ_KINDS = {KIND[k] for k in ("OPEN_R", "READ", "OPENDIR")}
CRASH_RC = 137
MAXLOG, MAXFAULT, NAMELEN = 16384, 64, 88


class Entry(ctypes.Structure):
    _fields_ = [("kind", ctypes.c_int32), ("res", ctypes.c_int32), ("err", ctypes.c_int32), ("fault", ctypes.c_int32),
                ("off", ctypes.c_int64), ("len", ctypes.c_int64), ("name", ctypes.c_char * NAMELEN)]


class Fault(ctypes.Structure):
    _fields_ = [("at", ctypes.c_int64), ("act", ctypes.c_int32), ("err", ctypes.c_int32), ("arg", ctypes.c_int64),
                ("fired", ctypes.c_int32), ("_p", ctypes.c_int32)]


class Shm(ctypes.Structure):
    _fields_ = [("armed", ctypes.c_int32), ("nfaults", ctypes.c_int32), ("full", ctypes.c_int32),
                ("clock_on", ctypes.c_int32), ("nops", ctypes.c_int64), ("nlog", ctypes.c_int64),
                ("nclock", ctypes.c_int64), ("nsleep", ctypes.c_int64), ("dirseed", ctypes.c_uint64),
                ("clock_ns", ctypes.c_int64), ("clock_step", ctypes.c_int64), ("mono_ns", ctypes.c_int64),
                ("jump_at", ctypes.c_int64 * 8), ("jump_by", ctypes.c_int64 * 8), ("njumps", ctypes.c_int32),
                ("watchfd", ctypes.c_int32), ("vslept_ns", ctypes.c_int64), ("entropy", ctypes.c_uint64),
                ("root", ctypes.c_char * 512), ("input", ctypes.c_char * 512), ("input_writes", ctypes.c_int64),
                ("faults", Fault * MAXFAULT), ("log", Entry * MAXLOG)]


_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(None)
        _lib.simio_state.restype = ctypes.POINTER(Shm)
        _lib.simio_size.restype = ctypes.c_size_t
        _lib.simio_fault.argtypes = [ctypes.c_int64, ctypes.c_int, ctypes.c_int, ctypes.c_int64]
        _lib.simio_arm.argtypes = [ctypes.c_char_p, ctypes.c_char_p, ctypes.c_uint64]
        _lib.simio_clock.argtypes = [ctypes.c_int64, ctypes.c_int64]
        _lib.simio_jump.argtypes = [ctypes.c_int64, ctypes.c_int64]
        assert _lib.simio_size() == ctypes.sizeof(Shm), (_lib.simio_size(), ctypes.sizeof(Shm))
    return _lib


class SimIO:
    def __init__(self, path):
        self.path = path
        if lib().simio_attach(path.encode()):
            raise RuntimeError("simio_attach failed")
        lib().simio_reset()
        self.s = lib().simio_state().contents

    def reset(self):
        lib().simio_reset()

    def arm(self, root, faults=(), input_prefix=None, dirseed=0, clock=None, step=1000, jumps=(), entropy=1):
        """Start numbering operations under root; faults: list of {at, act, err, arg}."""
        lib().simio_reset()
        for f in faults:
            lib().simio_fault(int(f["at"]), ACT[f["act"]], int(f.get("err", 5)), int(f.get("arg", 500)))
        if clock is not None:
            self.s.entropy = entropy
            lib().simio_clock(int(clock), int(step))
            for at, by in jumps:
                lib().simio_jump(int(at), int(by))
        lib().simio_arm(root.encode(), (input_prefix or "").encode(), dirseed)

    def disarm(self):
        lib().simio_disarm()

    def log(self):
        s = self.s
        return [(e.kind, e.name.decode(errors="replace"), e.off, e.len, e.res, e.err, e.fault)
                for e in s.log[:min(s.nlog, MAXLOG)]]

    @property
    def nops(self):
        return self.s.nops

    @property
    def input_writes(self):
        return self.s.input_writes

    def fired(self):
        """[(act name, kind name)] of the faults that really happened."""
        return [(ACTNAME[e.fault], KINDS[e.kind]) for e in self.s.log[:min(self.s.nlog, MAXLOG)] if e.fault]
