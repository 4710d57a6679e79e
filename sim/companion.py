"""Other interpreters of the simulation: the string-hash seed is fixed when an interpreter starts, so each one needs its own.

A companion imports the system under its hash seed, and forks a simulated process for every request it gets."""

import ctypes
import importlib
import os
import pickle
import signal
import socket
import struct
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))


def send(s, x):
    b = pickle.dumps(x, protocol=4)
    s.sendall(struct.pack(">Q", len(b)) + b)


def recv(s):
    def n(k):
        b = b""
        while len(b) < k:
            x = s.recv(min(1 << 20, k - len(b)))
            if not x:
                raise EOFError
            b += x
        return b
    return pickle.loads(n(struct.unpack(">Q", n(8))[0]))


def in_zone(tz, fn):
    def f():
        os.environ["TZ"] = tz
        time.tzset()
        return fn()
    return f


def handle(ns, world, req):
    w = world.World(ns, req["root"], req["shm"])
    mod = importlib.import_module(req["mod"])
    fn = in_zone(req.get("tz") or "UTC", lambda: getattr(mod, req["fn"])(ns, *req["args"]))
    o, log = w.process(fn, root=req["root"], **req["env"])
    return (o.how, o.value, o.cpu), log, w.stats


def serve(path, tree, prop):
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    parent = os.getppid()
    from sim import world
    ns = world.wire(tree)
    mod = importlib.import_module("props." + prop)
    if hasattr(mod, "setup"):
        mod.setup(ns)
    l = socket.socket(socket.AF_UNIX)
    l.bind(path + ".new")
    l.listen(64)
    os.rename(path + ".new", path)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    l.settimeout(2)
    while os.getppid() == parent:
        try:
            c, _ = l.accept()
        except socket.timeout:
            continue
        if os.fork() == 0:
            try:
                signal.signal(signal.SIGCHLD, signal.SIG_DFL)
                l.close()
                c.settimeout(None)
                send(c, handle(ns, world, recv(c)))
            finally:
                os._exit(0)
        c.close()


class Companions(object):
    def __init__(self, base, tree, prop, hashseeds):
        self.paths = {}
        for h in hashseeds:
            p = os.path.join(base, "hash%s" % h)
            env = dict(os.environ, PYTHONHASHSEED=str(h))
            subprocess.Popen([sys.executable, "-W", "ignore", os.path.abspath(__file__), p, tree, prop], env=env,
                             stdout=subprocess.DEVNULL, stdin=subprocess.DEVNULL)
            self.paths[h] = p

    def wait(self, timeout=120):
        end = time.perf_counter() + timeout
        while not all(os.path.exists(p) for p in self.paths.values()):
            if time.perf_counter() > end:
                raise RuntimeError("companions did not start")
            time.sleep(0.05)

    def call(self, w, hashseed, mod, fn, args, tz="UTC", **env):
        """Run mod.fn(ns, *args) as a simulated process of another interpreter; as World.process."""
        from . import world
        w._n += 1
        s = socket.socket(socket.AF_UNIX)
        s.connect(self.paths[hashseed])
        try:
            send(s, dict(mod=mod, fn=fn, args=args, tz=tz, root=w.dir, shm=w.dir + ".shm%d" % w._n, env=env))
            (how, value, cpu), log, stats = recv(s)
        finally:
            s.close()
        for k in ("executions", "ops", "sim_ns", "clock_reads"):
            w.stats[k] += stats[k]
        for k, v in stats["faults"].items():
            w.stats["faults"][k] = w.stats["faults"].get(k, 0) + v
        return world.Outcome(how, value, cpu), log


if __name__ == "__main__":
    serve(*sys.argv[1:4])
