"""A simulated batch system (LSF) in virtual time, for the scripts that schedule harmonisation jobs on it.

The real script runs under the real bash; `bsub`, `sleep`, `date` and `python` on its PATH are a stub that hands each call to
this simulator and waits for the answer, so exactly one side runs at any moment. Time passes only in `sleep` and, a little,
in `bsub`. The seed decides how long jobs queue, in which order they start, how long they take, and which fail."""

import heapq
import os
import random
import resource
import select
import shutil
import socket
import struct
import subprocess
import time
import warnings

from . import world

ROOT = "/group_workspaces"   # where the scripts keep their own scripts and logs
NOBODY = 65534


def converted(text, cache={}):
    """A Python 2 program as Python 3."""
    if text not in cache:
        warnings.simplefilter("ignore")
        from lib2to3 import refactor
        tool = refactor.RefactoringTool(refactor.get_fixers_from_package("lib2to3.fixes"), {})
        cache[text] = str(tool.refactor_string(text if text.endswith("\n") else text + "\n", "heredoc"))
    return cache[text]


def demote(cpu=20):
    resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if os.getuid() == 0:
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)


class Job(object):
    def __init__(self, number, text, log, script, when):
        self.number, self.text, self.log, self.script, self.when = number, text, log, script, when
        self.programs = []    # what the script runs: argument lists
        self.state = "queued"
        self.fails = False


class Batch(object):
    """on(job, "submit"|"start"|"done"|"end") is called as the job passes these points in virtual time: it writes its results when
    done, and the log file appears a little later, when LSF ends it."""

    def __init__(self, base, stub, clock, plan, on):
        self.base, self.now, self.plan, self.on = base, clock, plan, on
        self.rng = random.Random(plan["seed"])
        self.jobs, self.events, self.order = [], [], 0
        self.free = plan["slots"]
        self.waiting = []
        self.history = []
        self.polls = 0        # sleeps since the last job ended or was submitted
        self.calls = 0
        self.stop = None      # why the script was ended by the simulator
        self.bin = os.path.join(base, "bin")
        if not os.path.isdir(self.bin):
            os.mkdir(self.bin)
            for n in ("bsub", "sleep", "date", "python", "python2", "python2.7", "bjobs", "bkill", "demote"):
                shutil.copy(stub, os.path.join(self.bin, n))
        self.at = os.path.join(base, "s")
        if os.path.exists(self.at):
            os.unlink(self.at)
        self.sock = socket.socket(socket.AF_UNIX)
        self.sock.bind(self.at)
        os.chmod(self.at, 0o777)
        self.sock.listen(8)

    def close(self):
        self.sock.close()
        os.unlink(self.at)

    # -------------------------------------------------------------------------------------------- time
    def at_time(self, t, what, job):
        self.order += 1
        heapq.heappush(self.events, (t, self.order, what, job))

    def advance(self, seconds):
        end = self.now + seconds
        while self.events and self.events[0][0] <= end:
            t, _, what, job = heapq.heappop(self.events)
            self.now = max(self.now, t)
            self.happen(what, job)
        self.now = max(self.now, end)

    def happen(self, what, job):
        if what == "ready":
            self.waiting.append(job)
            self.dispatch()
            return
        job.state = what
        self.history.append((what, job.number))
        self.on(job, what)
        if what == "end":
            self.polls = 0
            self.free += 1
            self.dispatch()

    def dispatch(self):
        while self.free > 0 and self.waiting:
            job = self.waiting.pop(self.rng.randrange(len(self.waiting)) if self.plan["jumbled"] else 0)
            self.free -= 1
            job.state = "start"
            self.history.append(("start", job.number))
            self.on(job, "start")
            q, run, tail = job.times
            self.at_time(self.now + run, "done", job)
            self.at_time(self.now + run + tail, "end", job)

    @property
    def busy(self):
        return any(j.state != "end" for j in self.jobs)

    def drain(self):
        while self.events:
            self.advance(max(0.0, self.events[0][0] - self.now))

    # -------------------------------------------------------------------------------------------- processes
    def spawn(self, args, cwd, job=""):
        env = {"PATH": self.bin + ":/usr/bin:/bin", "SIM_BATCH": self.at, "SIM_JOB": job, "LC_ALL": "C", "HOME": self.base, "TMPDIR": self.base,
               "USER": "nobody", "PWD": cwd}
        if self.plan.get("trace"):
            args = args[:1] + ["-x"] + args[1:]
        return subprocess.Popen([os.path.join(self.bin, "demote"), "20", str(NOBODY)] + args, cwd=cwd, env=env, stdin=subprocess.DEVNULL,
                                stdout=None if os.environ.get("SIM_DEBUG") else subprocess.DEVNULL,
                                stderr=None if os.environ.get("SIM_DEBUG") else subprocess.DEVNULL, start_new_session=True)

    def serve(self, p, job=None, wall=60):
        """Answer the stub's calls until process p ends; None: it had to be ended."""
        fd = os.pidfd_open(p.pid)
        end = world.REAL_MONO() + wall
        try:
            while True:
                r, _, _ = select.select([self.sock, fd], [], [], max(0, end - world.REAL_MONO()))
                if self.sock in r:
                    c, _ = self.sock.accept()
                    self.answer(c)
                    c.close()
                elif fd in r:
                    return p.wait()
                elif world.REAL_MONO() >= end:
                    self.stop = self.stop or "wall"
                if self.stop:
                    os.killpg(p.pid, 9)
                    p.wait()
                    return None
        finally:
            os.close(fd)

    def run_script(self, job):
        path = os.path.join(self.base, "job.sh")
        with open(path, "wb") as f:
            f.write(job.text)
        p = self.spawn(["/bin/bash", path], job.cwd, str(job.number))
        job.status = self.serve(p)

    def orchestrate(self, script, args, cwd):
        """Run the script to its end in virtual time; its exit status, or None if the simulator had to end it."""
        return self.serve(self.spawn(["/bin/bash", script] + args, cwd), wall=300)

    # -------------------------------------------------------------------------------------------- the stub's calls
    def answer(self, c):
        def take(n):
            out = b""
            while len(out) < n:
                b = c.recv(n - len(out))
                if not b:
                    raise EOFError
                out += b
            return out
        try:
            n, = struct.unpack("I", take(4))
            fields = [take(struct.unpack("I", take(4))[0]) for _ in range(n)]
        except EOFError:
            return
        name, job, stdin, cwd = [f.decode(errors="replace") for f in fields[:4]]
        status, text = self.call(name, job, stdin, cwd, fields[4], [f.decode(errors="replace") for f in fields[5:]])
        try:
            c.sendall(struct.pack("II", status, len(text)) + text)
        except OSError:
            pass

    def call(self, name, job, stdin, cwd, text, args):
        self.calls += 1
        if job:
            j = self.jobs[int(job)]
            if name.startswith("python"):
                j.programs.append(args)
            return 0, b""
        if self.calls == self.plan.get("killed"):
            self.stop = "killed"
            return 1, b""
        if self.calls > 4000:
            self.stop = "busy"
            return 1, b""
        if name == "sleep":
            try:
                d = sum(float(a.rstrip("smhd")) * {"m": 60, "h": 3600, "d": 86400}.get(a[-1:], 1) for a in args)
            except ValueError:
                return 1, b""
            self.history.append(("sleep", d))
            self.advance(d)
            self.polls += 1
            if self.polls > 8 and not self.busy:
                self.stop = "idle"
            if self.polls > 3000:
                self.stop = "busy"
            return 0, b""
        if name == "date":
            f = next((a[1:] for a in args if a.startswith("+")), "%a %b %e %H:%M:%S UTC %Y")
            return 0, (time.strftime(f.replace("%s", str(int(self.now))).replace("%N", "000000000"), time.gmtime(self.now)) + "\n").encode()
        if name == "bsub":
            return self.submit(stdin, cwd, text, args)
        if name.startswith("python"):
            if text:
                return self.python(text, cwd, args)
            self.history.append(("python", tuple(args)))
            return 0, b""
        return 0, b""

    def submit(self, stdin, cwd, text, args):
        log = args[args.index("-o") + 1] if "-o" in args[:-1] else None
        if log and not log.startswith("/"):
            log = os.path.join(cwd, log)
        script = stdin if stdin.startswith("/") and not stdin.startswith("/dev/") else None
        n = len(self.jobs)
        if n == self.plan.get("refused"):
            self.plan = dict(self.plan, refused=None)
            self.history.append(("refused",))
            return 255, b"Failed in LSF library call.\n"
        j = Job(n, text, log, script, self.now)
        j.cwd = cwd
        self.jobs.append(j)
        self.run_script(j)   # which programs it runs; LSF takes its copy of the script now
        slow = self.rng.choice(self.plan["slow"])
        j.times = (self.rng.choice([0, 0, 0, self.rng.uniform(0, 30), self.rng.uniform(0, 120)]),
                   self.rng.choice([self.rng.uniform(1, 20)] * 4 + [self.rng.uniform(1, 200)]) * slow,
                   self.rng.choice([0.1, self.rng.uniform(0, 5), self.rng.uniform(0, 60)]))
        self.polls = 0
        self.history.append(("submit", n))
        self.on(j, "submit")
        if self.rng.random() < self.plan["long"]:
            j.times = (j.times[0], self.rng.uniform(300, 3000), j.times[2])
        self.at_time(self.now + j.times[0], "ready", j)
        self.advance(self.plan["bsub"])
        return 0, ("Job <%d> is submitted to queue <par-single>.\n" % (1000 + n)).encode()

    def python(self, text, cwd, args):
        """A program the script itself gives Python to run."""
        program = converted(text.decode())

        def f():
            import contextlib
            import io
            import sys
            demote(30)
            os.chdir(cwd)
            sys.argv = args or [""]
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                exec(compile(program, "heredoc", "exec"), {"__name__": "__main__"})
            return out.getvalue()
        o = world.fork_call(f, cpu=40, wall=60)
        return (0, o.value.encode()) if o.ok else (1, b"")
