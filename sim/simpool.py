"""SimPool: the simulator's process pool. Takes the place of multiprocessing's and concurrent.futures' pools.

The seed decides the number of workers, how tasks are grouped into chunks, which worker runs which chunk, in what order
chunks run and complete, and which task fails. A worker is a fork of the process taken when the pool is made, as with
multiprocessing's fork start method: it shares no memory, sees what the process's memory held at that time and what its
own earlier chunks left there, and gets functions, tasks and results as pickles. One chunk runs at a time."""

import concurrent.futures
import concurrent.futures.process
import concurrent.futures.thread
import multiprocessing
import multiprocessing.dummy
import multiprocessing.pool
import os
import pickle
import random as _random

CURRENT = None  # the Schedule in force; None: one worker, in order


class Schedule(object):
    """The pool's decisions, all from one seed; they are recorded in `trace`."""

    def __init__(self, seed, workers=None, chunk=None, fail=None, inprocess=False):
        self.rng = _random.Random(seed)
        self.workers, self.chunk, self.fail = workers, chunk, fail
        self.inprocess = inprocess
        self.trace = []
        self.calls = 0
        self.failed = False
        self.tasks = 0


class InjectedWorkerFailure(MemoryError):
    pass


def use(schedule):
    global CURRENT
    CURRENT = schedule


_live = []  # pipe ends of the workers alive in this process, which a new worker must not keep open


class _Worker(object):
    """A simulated worker: forked when the pool is made, fed pickled chunks when the scheduler says so."""

    def __init__(self, initializer=None, initargs=()):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                for fd in _live:
                    try:
                        os.close(fd)
                    except OSError:
                        pass
                if initializer:
                    initializer(*initargs)
                self._serve(os.fdopen(r1, "rb"), os.fdopen(w2, "wb"))
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        _live.extend([w1, r2])
        self.pid, self.fds = pid, (w1, r2)
        self.win, self.rout = os.fdopen(w1, "wb"), os.fdopen(r2, "rb")

    @staticmethod
    def _serve(fin, fout):
        while True:
            try:
                size = int.from_bytes(fin.read(8), "little")
                data = fin.read(size)
            except (EOFError, OSError):
                return
            if not size:
                return
            out = []
            try:
                fn, star, items, fail_at = pickle.loads(data)
            except Exception as e:
                out = [(False, e)]
                items = []
            for k, x in items:
                try:
                    if k == fail_at:
                        raise InjectedWorkerFailure("injected: worker could not evaluate task %d" % k)
                    out.append((True, fn(*x[0], **x[1]) if star == "apply" else fn(*x) if star else fn(x)))
                except Exception as e:
                    out.append((False, e))
                    break
            try:
                data = pickle.dumps(out, protocol=4)
            except Exception as e:
                data = pickle.dumps([(False, RuntimeError("result not picklable: %r" % (e,)))])
            fout.write(data)
            fout.flush()

    def run(self, fn, star, items, fail_at):
        data = pickle.dumps((fn, star, items, fail_at), protocol=4)  # raises in the caller, as a real pool does
        try:
            self.win.write(len(data).to_bytes(8, "little") + data)
            self.win.flush()
            return pickle.load(self.rout)
        except (EOFError, OSError):
            st = self.stop()
            if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 137:
                os._exit(137)  # a crash of a worker is a crash of the node
            return [(False, RuntimeError("worker died"))]

    def stop(self):
        if self.pid is None:
            return 0
        for f in (self.win, self.rout):
            try:
                f.close()
            except OSError:
                pass
        for fd in self.fds:
            if fd in _live:
                _live.remove(fd)
        pid, self.pid = self.pid, None
        try:
            return os.waitpid(pid, 0)[1]
        except OSError:
            return 0


class _Thread(object):
    """A worker that shares the caller's memory."""

    def __init__(self, initializer=None, initargs=()):
        if initializer:
            initializer(*initargs)

    def run(self, fn, star, items, fail_at):
        out = []
        for k, x in items:
            try:
                if k == fail_at:
                    raise InjectedWorkerFailure("injected: worker could not evaluate task %d" % k)
                out.append((True, fn(*x[0], **x[1]) if star == "apply" else fn(*x) if star else fn(x)))
            except Exception as e:
                out.append((False, e))
                break
        return out

    def stop(self):
        return 0


class Result(object):
    def __init__(self, out, callback=None, error_callback=None, single=False):
        self._out, self._single = out, single
        bad = [v for ok, v in out if not ok]
        if bad and error_callback:
            error_callback(bad[0])
        if not bad and callback:
            callback(self.get())

    def get(self, timeout=None):
        for ok, v in self._out:
            if not ok:
                raise v
        vals = [v for ok, v in self._out]
        return vals[0] if self._single else vals

    def result(self, timeout=None):
        return self.get()

    def exception(self, timeout=None):
        for ok, v in self._out:
            if not ok:
                return v
        return None

    def add_done_callback(self, fn):
        fn(self)

    def done(self):
        return True

    running = cancelled = cancel = lambda self: False

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return all(ok for ok, v in self._out)


class SimPool(object):
    worker_type = _Worker

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None,
                 max_workers=None, mp_context=None, **kw):
        self.sched = CURRENT or Schedule(0, workers=1, chunk=1)
        want = processes or max_workers
        self.n = self.sched.workers or self.sched.rng.choice([1, 2, 3, 4, 7])
        if want:
            self.n = min(int(want), 16)
        if self.n < 1:
            raise ValueError("Number of processes must be at least 1")
        self.closed = False
        self.owner_pid = os.getpid()
        self.workers = [self.worker_type(initializer, initargs) for _ in range(self.n)]
        self.sched.trace.append(("pool", self.n))

    def _stop(self):
        if self.owner_pid == os.getpid():
            for w in self.workers:
                w.stop()
        self.workers = []

    def __del__(self):
        try:
            self._stop()
        except Exception:
            pass

    # ---- the one place where tasks are executed
    def _execute(self, fn, items, star, chunksize):
        if self.closed:
            raise ValueError("Pool not running")
        s = self.sched
        items = list(items)
        n = len(items)
        s.calls += 1
        s.tasks += n
        cs = int(chunksize or s.chunk or s.rng.randint(1, max(1, n)))
        chunks = [list(range(i, min(i + cs, n))) for i in range(0, n, cs)]
        order = list(range(len(chunks)))
        s.rng.shuffle(order)
        owner = {c: s.rng.randrange(self.n) for c in order}
        fail_at = s.fail
        if fail_at is not None and n:
            fail_at = int(fail_at * n) % n if isinstance(fail_at, float) else fail_at % n
        s.trace.append(("map", n, cs, tuple((c, owner[c]) for c in order), fail_at))
        out = [None] * n
        self.completed = []
        for c in order:
            res = self.workers[owner[c]].run(fn, star, [(k, items[k]) for k in chunks[c]], fail_at)
            if fail_at in chunks[c]:
                s.failed = True
            for pos, k in enumerate(chunks[c]):
                out[k] = res[pos] if pos < len(res) else (False, res[-1][1])
            if any(not ok for ok, v in res):
                for k in chunks[c]:  # a failing task loses its whole chunk, as in multiprocessing
                    if out[k][0]:
                        out[k] = (False, res[-1][1])
            self.completed.append(c)
        self.order = [k for c in order for k in chunks[c]]
        return out

    def map(self, fn, iterable, chunksize=None, *more, **kw):
        return Result(self._execute(fn, iterable, False, chunksize)).get()

    def starmap(self, fn, iterable, chunksize=None):
        return Result(self._execute(fn, iterable, True, chunksize)).get()

    def map_async(self, fn, iterable, chunksize=None, callback=None, error_callback=None):
        return Result(self._execute(fn, iterable, False, chunksize), callback, error_callback)

    def starmap_async(self, fn, iterable, chunksize=None, callback=None, error_callback=None):
        return Result(self._execute(fn, iterable, True, chunksize), callback, error_callback)

    def imap(self, fn, iterable, chunksize=1):
        for ok, v in self._execute(fn, iterable, False, None):
            if not ok:
                raise v
            yield v

    def imap_unordered(self, fn, iterable, chunksize=1):
        out = self._execute(fn, iterable, False, None)
        for k in self.order:  # results come in completion order
            ok, v = out[k]
            if not ok:
                raise v
            yield v

    def apply(self, fn, args=(), kwds={}):
        return Result(self._execute(fn, [(args, kwds)], "apply", 1), single=True).get()

    def apply_async(self, fn, args=(), kwds={}, callback=None, error_callback=None):
        return Result(self._execute(fn, [(args, kwds)], "apply", 1), callback, error_callback, single=True)

    def submit(self, fn, *args, **kwds):
        return Result(self._execute(fn, [(args, kwds)], "apply", 1), single=True)

    def close(self):
        self.closed = True

    def terminate(self):
        self.closed = True
        self._stop()

    def shutdown(self, wait=True, **kw):
        self.terminate()

    def join(self):
        if not self.closed:
            raise ValueError("Pool is still running")
        self._stop()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


class SimExecutor(SimPool):
    def map(self, fn, *iterables, **kw):
        out = self._execute(fn, list(zip(*iterables)), True, None)
        return iter(Result(out).get())


class SimThreadPool(SimPool):
    worker_type = _Thread


class SimThreadExecutor(SimExecutor):
    worker_type = _Thread


def install():
    """Before the system is imported: whichever way it asks for a pool, it gets this one."""
    cpu = lambda *a: (CURRENT.workers if CURRENT and CURRENT.workers else 4)
    for m in (multiprocessing, multiprocessing.pool):
        m.Pool = SimPool
    multiprocessing.pool.ThreadPool = SimThreadPool
    multiprocessing.dummy.Pool = SimThreadPool
    for ctx in (multiprocessing.context.BaseContext,):
        ctx.Pool = lambda self, *a, **k: SimPool(*a, **k)
        ctx.cpu_count = cpu
    multiprocessing.cpu_count = cpu
    os.cpu_count = cpu
    concurrent.futures.ProcessPoolExecutor = SimExecutor
    concurrent.futures.ThreadPoolExecutor = SimThreadExecutor
    concurrent.futures.process.ProcessPoolExecutor = SimExecutor
    concurrent.futures.thread.ThreadPoolExecutor = SimThreadExecutor
