"""multiprocessing.Pool on a simulated machine.

Workers are real processes, forked when the pool is created, so that they share exactly what
real ones share. They run in lock step: the parent hands out one task at a time and waits for
its answer. Who gets a task, how long it takes on the virtual clock, in which order results
arrive, who dies, stalls or raises: all of that is decided here, from the run's choices.
"""

import heapq
import os
import pickle
import signal
import struct
import sys

import multiprocessing
import multiprocessing.pool
import multiprocessing.context
from multiprocessing import TimeoutError
from multiprocessing.pool import MaybeEncodingError

import world
from core import HarnessError

_read, _write, _close, _fork, _kill, _waitpid, _pipe, _exit = (
    os.read, os.write, os.close, os.fork, os.kill, os.waitpid, os.pipe, os._exit)

CPUS = 8
HORIZON = 1e7           # virtual seconds nobody waits for
ATTEMPTS = 200          # of a worker at a line that raises each time, before it counts as stuck
LIVE = set()            # worker processes not reaped yet


class WorkerDied(Exception):
    pass


def _send(fd, obj):
    data = pickle.dumps(obj, 2)
    data = struct.pack(">Q", len(data)) + data
    while data:
        data = data[_write(fd, data):]


def _recvn(fd, n):
    out = b""
    while len(out) < n:
        part = _read(fd, n - len(out))
        if not part:
            return None
        out += part
    return out


def _recv(fd):
    head = _recvn(fd, 8)
    if head is None:
        return None
    body = _recvn(fd, struct.unpack(">Q", head)[0])
    return None if body is None else pickle.loads(body)


def _child(rfd, wfd, initializer, initargs):
    code = 1
    try:
        sys.settrace(None)
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        if world.WORLD is not None:
            world.WORLD.yield_hook = None
            world.WORLD.plan = {}
            world.WORLD.pid += 1
        if initializer is not None:
            initializer(*initargs)
        import inject
        while True:
            msg = _recv(rfd)
            if msg is None:
                code = 0
                break
            payload, strike, exc, again = msg
            status, body = "ok", None
            try:
                func, args, kwds = pickle.loads(payload)
                if strike is None:
                    result = func(*args, **kwds)
                else:
                    hits = []

                    def stuck():
                        hits.append(1)
                        if len(hits) > ATTEMPTS:
                            _send(wfd, ("stuck", None))
                            _exit(0)
                    with inject.Lines(strike, exc, again=stuck if again else None):
                        result = func(*args, **kwds)
                try:
                    body = pickle.dumps(result, 2)
                except Exception as e:
                    status, body = "err", pickle.dumps(MaybeEncodingError(e, repr(type(result))), 2)
            except Exception as e:
                status = "err"
                try:
                    body = pickle.dumps(e, 2)
                except Exception:
                    body = pickle.dumps(RuntimeError(repr(e)), 2)
            except BaseException:
                status = "died"         # a worker does not survive these
            _send(wfd, (status, body))
            if status == "died":
                break
    except BaseException:
        pass
    finally:
        _exit(code)


class Worker(object):
    def __init__(self, initializer, initargs):
        r1, w1 = _pipe()
        r2, w2 = _pipe()
        self.pid = _fork()
        if self.pid == 0:
            try:
                _close(w1)
                _close(r2)
            except OSError:
                pass
            _child(r1, w2, initializer, initargs)
        _close(r1)
        _close(w2)
        self.w, self.r = w1, r2
        self.tasks = 0
        LIVE.add(self)

    def run(self, payload, strike, exc, again):
        _send(self.w, (payload, strike, exc, again))
        got = _recv(self.r)
        return ("died", None) if got is None else got

    def stop(self):
        if self in LIVE:
            LIVE.discard(self)
            for fd in (self.w, self.r):
                try:
                    _close(fd)
                except OSError:
                    pass
            try:
                _kill(self.pid, signal.SIGKILL)
            except OSError:
                pass
            try:
                _waitpid(self.pid, 0)
            except OSError:
                pass


class Inline(object):
    """A worker of a thread pool: shares everything."""

    def __init__(self, initializer, initargs):
        if initializer is not None:
            initializer(*initargs)
        self.tasks = 0

    def run(self, payload, strike, exc, again):
        func, args, kwds = payload
        try:
            return ("ok", func(*args, **kwds))
        except Exception as e:
            return ("err", e)

    def stop(self):
        pass


def reap():
    for w in list(LIVE):
        w.stop()


class Model(object):
    """What the workers do in one run. faults: task ordinal -> (kind, detail)."""

    def __init__(self, ctx, faults=None, fork_fails=False, interrupt_at=None, slow=(), scale=1.0, lasting=None):
        self.ctx = ctx
        self.faults = faults or {}
        self.fork_fails = fork_fails
        self.interrupt_at = interrupt_at      # event ordinal at which the waiting caller is interrupted
        self.slow = slow
        self.lasting = lasting                # (ordinal, fault): that task and all after it
        self.scale = scale                    # seconds the longest ordinary task takes
        self.pools = []
        self.ordinal = 0
        self.events = 0
        self.order = []                       # completion order, for the distinct schedules count


class SimPool(object):
    threads = False

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        w = world.WORLD
        m = self.model = w.pool_model
        self.ctx = m.ctx
        if processes is None:
            processes = CPUS
        if processes < 1:
            raise ValueError("Number of processes must be at least 1")
        if initializer is not None and not callable(initializer):
            raise TypeError("initializer must be a callable")
        self.n = processes
        self.init = (initializer, initargs)
        self.maxtasks = maxtasksperchild
        self.state = "RUN"
        self.workers = []       # [process, busy-until job or None]
        self.queue = []
        self.heap = []
        self.seq = 0
        self.pending = 0        # tasks neither finished nor lost
        self.lost = 0
        self.ctx.log("pool", processes)
        if m.fork_fails:
            self.ctx.fault("fork-fails")
            raise OSError(11, "Resource temporarily unavailable")
        m.pools.append(self)
        for i in range(processes):
            self.workers.append(self._spawn())

    def _spawn(self):
        return {"p": (Inline if self.threads else Worker)(*self.init), "busy": False, "dead": False}

    @property
    def _processes(self):
        return self.n

    # -- the event loop ----------------------------------------------------------------

    def _duration(self, ordinal):
        c = self.ctx.c
        if ordinal in self.model.slow:
            self.ctx.fault("slow-worker")
            return 40000.0
        return (1 + c.choose(64)) / 64.0 * self.model.scale

    def _dispatch(self):
        while self.queue and self.state != "TERMINATE":
            idle = [i for i, x in enumerate(self.workers) if not x["busy"] and not x["dead"]]
            if not idle:
                return
            i = idle[self.ctx.c.choose(len(idle))]
            job, idx, func, args, kwds = self.queue.pop(0)
            slot = self.workers[i]
            slot["busy"] = True
            n = self.model.ordinal
            self.model.ordinal += 1
            fault = self.model.faults.get(n)
            if fault is None and self.model.lasting is not None and n >= self.model.lasting[0]:
                fault = self.model.lasting[1]
            now = world.WORLD.now
            try:
                payload = (func, args, kwds) if self.threads else pickle.dumps((func, args, kwds), 2)
            except Exception as e:
                self._at(now, ("done", i, job, idx, False, e, n))
                continue
            end = now + self._duration(n)
            self.ctx.log("task", n, "worker", i)
            if fault is not None and fault[0] == "kill":
                self.ctx.fault("worker-killed")
                self._at(end, ("die", i, job, idx, n))
                continue
            if fault is not None and fault[0] == "hang":
                self.ctx.fault("worker-hangs")
                continue
            strike, exc, again = fault[1:] if fault is not None and fault[0] == "raise" else (None, None, False)
            if strike is not None:
                self.ctx.fault("%s-in-worker%s" % (exc.__name__, "-again" if again else ""))
            status, body = slot["p"].run(payload, strike, exc, again)
            if status == "stuck":
                self.ctx.fault("worker-hangs")
                slot["p"].stop()
                continue
            if status == "died":
                self.ctx.fault("worker-dies")
                self._at(end, ("die", i, job, idx, n))
            else:
                value = body if self.threads else pickle.loads(body)
                self._at(end, ("done", i, job, idx, status == "ok", value, n))

    def _at(self, when, ev):
        self.seq += 1
        heapq.heappush(self.heap, (when, self.seq, ev))

    def _step(self, deadline):
        """Advances to the next event. False: nothing happens before the deadline."""
        m, w = self.model, world.WORLD
        if w.stopped:
            raise world.SimStop()
        self._dispatch()
        if m.interrupt_at is not None and m.events >= m.interrupt_at:
            m.interrupt_at = None
            self.ctx.fault("interrupt-in-caller")
            raise KeyboardInterrupt()
        if not self.heap or self.heap[0][0] > deadline:
            if deadline >= w.now + HORIZON:
                w.stopped = "deadlock: the caller waits for workers that never answer"
                self.ctx.log("deadlock")
                raise world.SimStop()
            w.now = max(w.now, deadline)
            self.ctx.log("timeout")
            self.ctx.fault("timeout-in-caller")
            return False
        m.events += 1
        when, _, ev = heapq.heappop(self.heap)
        w.now = max(w.now, when)
        slot = self.workers[ev[1]]
        slot["busy"] = False
        if ev[0] == "die":
            self.pending -= 1
            self.lost += 1
            self.ctx.log("died", ev[4])
            slot["p"].stop()
            slot["p"] = self._spawn()["p"]
        else:
            _, i, job, idx, ok, value, n = ev
            self.pending -= 1
            m.order.append(n)
            self.ctx.log("done", n, "worker", i, ok)
            slot["p"].tasks += 1
            if self.maxtasks and slot["p"].tasks >= self.maxtasks:
                slot["p"].stop()
                slot["p"] = self._spawn()["p"]
            job._set(idx, ok, value)
        return True

    def _until(self, done, timeout):
        w = world.WORLD
        deadline = w.now + (timeout if timeout is not None else 10 * HORIZON)
        while not done():
            if not self._step(deadline):
                return False
        return True

    def _put(self, job, idx, func, args, kwds):
        self.queue.append((job, idx, func, args, kwds))
        self.pending += 1

    def _check(self):
        if self.state != "RUN":
            raise ValueError("Pool not running")

    # -- the interface of multiprocessing.Pool -----------------------------------------

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        self._check()
        job = Result(self, 1, False, callback, error_callback)
        self._put(job, 0, func, tuple(args), dict(kwds))
        return job

    def _map(self, func, iterable, chunksize, mapper, callback=None, error_callback=None):
        self._check()
        items = list(iterable)
        if chunksize is None:
            chunksize, extra = divmod(len(items), self.n * 4)
            if extra:
                chunksize += 1
        chunksize = max(1, chunksize)
        chunks = [items[i:i + chunksize] for i in range(0, len(items), chunksize)]
        job = Result(self, len(chunks), True, callback, error_callback)
        for i, part in enumerate(chunks):
            self._put(job, i, mapper, (func, part), {})
        return job

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map(func, iterable, chunksize, _mapstar, callback, error_callback)

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable, chunksize).get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map(func, iterable, chunksize, _starmapstar, callback, error_callback)

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable, chunksize).get()

    def imap(self, func, iterable, chunksize=1):
        return Iter(self, func, iterable, chunksize, True)

    def imap_unordered(self, func, iterable, chunksize=1):
        return Iter(self, func, iterable, chunksize, False)

    def close(self):
        if self.state == "RUN":
            self.state = "CLOSE"

    def terminate(self):
        self.state = "TERMINATE"
        self.queue = []
        self.heap = []
        for x in self.workers:
            x["dead"] = True
            x["p"].stop()

    def join(self):
        if self.state == "RUN":
            raise ValueError("Pool is still running")
        if self.state == "CLOSE":
            self._until(lambda: self.pending == 0 and self.lost == 0, None)
            self.state = "TERMINATE"
            self.terminate()

    def released(self):
        """Terminated, or told to finish and able to."""
        if self.state == "TERMINATE":
            return True
        return self.state == "CLOSE" and self.pending == 0 and self.lost == 0

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *exc):
        self.terminate()

    def __reduce__(self):
        raise NotImplementedError("pool objects cannot be passed between processes or pickled")


class SimThreadPool(SimPool):
    threads = True

    def __init__(self, processes=None, initializer=None, initargs=()):
        SimPool.__init__(self, processes, initializer, initargs)


def _mapstar(func, part):
    return [func(x) for x in part]


def _starmapstar(func, part):
    return [func(*x) for x in part]


class Result(object):
    def __init__(self, pool, parts, is_map, callback, error_callback):
        self.pool, self.parts, self.is_map = pool, parts, is_map
        self.left = parts
        self.values = [None] * parts
        self.ok = True
        self.error = None
        self.callback, self.error_callback = callback, error_callback

    def _set(self, idx, ok, value):
        self.left -= 1
        if ok:
            self.values[idx] = value
        elif self.ok:
            self.ok = False
            self.error = value
        if self.left == 0:
            if self.ok and self.callback:
                self.callback(self._value())
            elif not self.ok and self.error_callback:
                self.error_callback(self.error)

    def _value(self):
        if self.is_map:
            return [x for part in self.values for x in part]
        return self.values[0]

    def ready(self):
        # polling lets time pass
        if self.left:
            self.pool._step(world.WORLD.now + 1.0)
        return self.left == 0

    def successful(self):
        if self.left:
            raise ValueError("{0!r} not ready".format(self))
        return self.ok

    def wait(self, timeout=None):
        self.pool._until(lambda: self.left == 0, timeout)

    def get(self, timeout=None):
        self.wait(timeout)
        if self.left:
            raise TimeoutError
        if self.ok:
            return self._value()
        raise self.error


class Iter(object):
    def __init__(self, pool, func, iterable, chunksize, ordered):
        pool._check()
        self.pool, self.ordered = pool, ordered
        items = list(iterable)
        chunks = [items[i:i + chunksize] for i in range(0, len(items), chunksize)]
        self.total = len(chunks)
        self.done = []
        self.got = {}
        self.i = 0
        self.buffer = []
        for i, part in enumerate(chunks):
            pool._put(self, i, _mapstar, (func, part), {})

    def _set(self, idx, ok, value):
        self.got[idx] = (ok, value)
        self.done.append(idx)

    def __iter__(self):
        return self

    def next(self, timeout=None):
        if self.buffer:
            return self.buffer.pop(0)
        if self.i >= self.total:
            raise StopIteration
        have = (lambda: self.i in self.got) if self.ordered else (lambda: len(self.done) > self.i)
        self.pool._until(have, timeout)
        if not have():
            raise TimeoutError
        ok, value = self.got[self.i if self.ordered else self.done[self.i]]
        self.i += 1
        if not ok:
            raise value
        self.buffer = list(value)
        return self.buffer.pop(0)

    __next__ = next


_real_pool = multiprocessing.Pool
_real_cls = multiprocessing.pool.Pool
_real_threads = multiprocessing.pool.ThreadPool


def Pool(processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
    if world.WORLD is None:
        raise HarnessError("a pool outside the simulation")
    return SimPool(processes, initializer, initargs, maxtasksperchild)


def ThreadPool(processes=None, initializer=None, initargs=()):
    if world.WORLD is None:
        raise HarnessError("a pool outside the simulation")
    return SimThreadPool(processes, initializer, initargs)


def install():
    multiprocessing.Pool = Pool
    multiprocessing.pool.Pool = Pool
    multiprocessing.pool.ThreadPool = ThreadPool
    multiprocessing.context.BaseContext.Pool = lambda self, *a, **kw: Pool(*a, **kw)
    multiprocessing.cpu_count = lambda: CPUS
    os.cpu_count = lambda: CPUS
