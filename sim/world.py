"""One simulated world: the real FIDUCEO/Harmonisation code, wired up, with every source of nondeterminism behind a seam.

`wire(tree)` imports the mirrored tree and puts the public names on the `harmonisation` package (the repository's own
__init__ has those imports commented out). Seams:
  - file I/O, directory listing order, clocks, sleeps, kernel randomness: simio.c (LD_PRELOAD)
  - random, numpy.random: seeded per simulated process
  - multiprocessing and concurrent.futures pools: SimPool, scheduled by the seed
  - a process of the system: a fork of this one, so a crash loses its memory and keeps the disk"""

import copy
import functools
import importlib
import json
import os
import pickle
import random
import resource
import select
import shutil
import signal
import struct
import sys
import time
import traceback
import types

def REAL_MONO():
    return time.clock_gettime(time.CLOCK_MONOTONIC_RAW)  # the one clock the seam leaves alone


# ------------------------------------------------------------------------------------------------ wiring
CHOOSER = None


def choose(f):
    """Let f(population, k) take the place of random.sample in this process; None: the seeded generator."""
    global CHOOSER
    CHOOSER = f


def patch_libraries():
    import numpy
    import numpy.random
    _sp = numpy.set_printoptions

    def set_printoptions(*a, **k):  # threshold=nan was allowed by the numpy of the project's time
        t = k.get("threshold")
        if t is not None and t != t:
            k["threshold"] = sys.maxsize
        return _sp(*a, **k)

    numpy.set_printoptions = set_printoptions
    _sample = random.sample

    def sample(population, k, **kw):  # Python 2 took any indexable population
        if not isinstance(population, (list, tuple, range, str)):
            population = list(population)
        return CHOOSER(population, int(k)) if CHOOSER else _sample(population, int(k), **kw)

    random.sample = sample
    _rng = numpy.random.default_rng

    def default_rng(seed=None):
        return _rng(random.getrandbits(64) if seed is None else seed)

    numpy.random.default_rng = default_rng
    import netCDF4
    _s2c = netCDF4.stringtochar

    def stringtochar(a, *args, **kw):  # a Python 2 string array holds bytes
        a = numpy.asarray(a)
        return _s2c(a.astype("S%d" % max(1, a.dtype.itemsize // 4)) if a.dtype.kind == "U" else a, *args, **kw)

    netCDF4.stringtochar = stringtochar
    from . import simpool
    simpool.install()


class NS(object):
    pass


def wire(tree):
    """Import the system from the mirrored tree; returns a namespace of what the checks drive."""
    patch_libraries()
    base = os.path.join(tree, "harmonisation_eiv")
    sys.path.insert(0, base)
    sys.dont_write_bytecode = True
    import harmonisation as H
    w = NS()

    def put(mod, *names):
        m = importlib.import_module("harmonisation." + mod)
        for n in names:
            setattr(H, n, getattr(m, n))
            setattr(w, n, getattr(m, n))
        return m

    P = "core.matchup."
    T = P + "matchupToolbox.harmonisation.harmonisationProcessing."
    put(P + "matchupIO.MatchUp", "MatchUp")
    put(P + "matchupIO.MatchUpReader", "open_matchup", "MatchUpReader")
    put(P + "matchupIO.MatchUpWriter", "MatchUpWriter")
    put(P + "matchupIO.Uncertainty", "Uncertainty")
    put(P + "matchupToolbox.utils.matchup_maths", "evaluate_measurand", "evaluate_adjusted_measurand", "evaluate_K")
    put(P + "matchupProcessing.sample2ind.Sample2Ind", "Sample2Ind")
    put(P + "matchupProcessing.transform2normind.Transform2NormInd", "Transform2NormInd")
    put(P + "matchupProcessing.simulate_matchup.SimulateMatchUp", "SimulateMatchUp")
    put(P + "matchupToolbox.harmonisation.harmonisationIO.HarmonisationResult", "HarmonisationResult")
    put(T + "harmonisation_eiv_pc.HarmonisationEIVPC", "HarmonisationEIVPC")
    put(T + "harmonisation_eiv.HarmonisationEIV", "HarmonisationEIV")
    put(T + "harmonisation_eiv.GN_algo", "GNAlgo")
    put(T + "harmonisation_eiv_pc.pc_algo", "PCAlgo")
    w.H = H
    w.tree = tree
    return w


def wire_tools(w):
    """Import the command-line operator (lib2to3 made the tools' imports of each other package imports)."""
    w.HarmonisationOp = importlib.import_module("harmonisation.tools.HarmonisationOp").HarmonisationOp
    return w


# ------------------------------------------------------------------------------------------------ simulated processes
class Outcome(object):
    """How a simulated process ended: 'ok' (value), 'raised' (value = type name, text), 'crashed', 'hung', 'died'."""

    def __init__(self, how, value=None, cpu=0.0):
        self.how, self.value, self.cpu = how, value, cpu

    def __repr__(self):
        return "%s%s" % (self.how, "(%s)" % (self.value,) if self.how == "raised" else "")

    @property
    def ok(self):
        return self.how == "ok"


def _read_all(fd, deadline):
    out = []
    while True:
        left = None if deadline is None else deadline - REAL_MONO()
        if left is not None and left <= 0:
            return None
        r, _, _ = select.select([fd], [], [], left)
        if not r:
            return None
        b = os.read(fd, 1 << 20)
        if not b:
            return b"".join(out)
        out.append(b)


def fork_call(fn, cpu=60, wall=300, quiet=True):
    """Run fn() in a forked process and return its Outcome; what it returns must pickle."""
    r, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.setpgid(0, 0)
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if quiet:
                dn = os.open("/dev/null", os.O_RDWR)
                os.dup2(dn, 0)
                os.dup2(dn, 1)
                if not os.environ.get("SIM_DEBUG"):
                    os.dup2(dn, 2)
            try:
                res = ("ok", fn())
            except SystemExit as e:
                res = ("raised", ("SystemExit", str(e.code)))
            except BaseException as e:
                if os.environ.get("SIM_DEBUG"):
                    traceback.print_exc()
                res = ("raised", (type(e).__name__, str(e)[:500]))
            try:
                data = pickle.dumps(res, protocol=4)
            except Exception as e:
                data = pickle.dumps(("raised", ("HarnessPickle", repr(e))))
            sys_disarm()
            while data:
                n = os.write(wfd, data[:1 << 20])
                data = data[n:]
        finally:
            os._exit(0)
    os.close(wfd)
    data = _read_all(r, REAL_MONO() + wall)
    os.close(r)
    if data is None:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
        return Outcome("hung", "wall clock limit")
    _, status, ru = os.wait4(pid, 0)
    if data:
        how, value = pickle.loads(data)
        return Outcome(how, value, ru.ru_utime + ru.ru_stime)
    if os.WIFSIGNALED(status):
        s = os.WTERMSIG(status)
        return Outcome("hung" if s == signal.SIGXCPU else "died", "signal %d" % s)
    code = os.WEXITSTATUS(status)
    return Outcome("crashed" if code == 137 else "died", "exit %d" % code)


def sys_disarm():
    from . import simio
    if simio._lib is not None and simio.lib().simio_state():
        simio.lib().simio_disarm()


def seed_all(seed):
    import numpy
    random.seed(seed)
    numpy.random.seed(seed & 0xffffffff)


# ------------------------------------------------------------------------------------------------ scratch
def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return "/tmp"


def wipe(path):
    """Remove a folder of the simulation's own; refuses anything that is not under its scratch base."""
    if "/simharm." in path and os.path.realpath(path).startswith(scratch_base()):
        shutil.rmtree(path, ignore_errors=True)


class World(object):
    """What one run of one plan works with."""

    def __init__(self, ns, scratch, shm):
        from .simio import SimIO
        self.ns = ns
        self.dir = scratch
        self.io = SimIO(shm)
        self.stats = {"executions": 0, "faults": {}, "sim_ns": 0, "ops": 0, "clock_reads": 0}
        self.states = set()
        self.schedules = set()
        self.violations = []
        self.trace = []
        self._n = 0

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def fresh(self, name="d"):
        self._n += 1
        p = os.path.join(self.dir, "%s%d" % (name, self._n))
        os.makedirs(p)
        return p

    def copy(self, src):
        self._n += 1
        p = os.path.join(self.dir, "c%d" % self._n)
        shutil.copytree(src, p)
        return p

    def violate(self, kind, detail, **extra):
        self.violations.append(dict(kind=kind, detail=str(detail)[:1500], **extra))

    def process(self, fn, faults=(), seed=0, dirseed=0, clock=None, step=1000, jumps=(), root=None, input_prefix=None,
                cpu=60, wall=300, keep_log=True):
        """One process of the system: fork, arm the seams, run fn. Returns (Outcome, log of its operations)."""
        self.io.arm(root or self.dir, faults, input_prefix, dirseed, clock, step, jumps, entropy=seed + 1)
        self.io.disarm()

        def body():
            seed_all(seed)
            s = self.io.s
            self.io.arm(root or self.dir, faults, input_prefix, dirseed, clock, step, jumps, entropy=seed + 1)
            try:
                return fn()
            finally:
                s.armed = 0

        o = fork_call(body, cpu=cpu, wall=wall)
        self.io.s.armed = 0
        self.io.s.clock_on = 0
        log = self.io.log() if keep_log else []
        self.stats["executions"] += 1
        self.stats["ops"] += self.io.nops
        self.stats["sim_ns"] += max(0, self.io.s.mono_ns - 1000000000) if clock is not None else 0
        self.stats["clock_reads"] += self.io.s.nclock
        for a, k in self.io.fired():
            key = "%s@%s" % (a, k)
            self.stats["faults"][key] = self.stats["faults"].get(key, 0) + 1
        return o, log

    def state(self, *parts):
        import hashlib
        self.states.add(hashlib.sha1(repr(parts).replace(self.dir, "").encode()).hexdigest()[:16])

    def note(self, *parts):
        self.trace.append(parts)


def log_shape(log):
    """The part of an operation log that identifies an interleaving of I/O: kinds and names, not sizes."""
    return tuple((k, n) for k, n, *_ in log)


def eligible(log, act):
    """Operation numbers of a dry run at which a fault of this kind makes sense."""
    from .simio import KIND, WRITE_KINDS, READ_KINDS
    R, Wr, C = KIND["READ"], KIND["WRITE"], KIND["CLOSE"]
    out = []
    for i, (k, *_rest) in enumerate(log):
        if act in ("SHORT", "EINTR"):
            good = k in (R, Wr)
        elif act in ("TORN_ERR", "CRASH_TORN"):
            good = k == Wr
        elif act == "FULL":
            good = k in WRITE_KINDS
        elif act == "ERR":
            good = True
        else:
            good = True
        if good:
            out.append(i)
    return out


def resolve(point, log):
    """Fix a fault point's operation number from a dry run's log: 'pick' in [0,1) chooses among the eligible ones."""
    if "at" in point:
        return dict(point)
    el = eligible(log, point["act"])
    if point.get("writes_only"):
        from .simio import WRITE_KINDS
        el = [i for i in el if log[i][0] in WRITE_KINDS] or el
    if not el:
        return None
    p = dict(point)
    p["at"] = el[int(point["pick"] * len(el)) % len(el)]
    return p
