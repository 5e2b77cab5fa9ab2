"""Searches seeds for a violation, reproduces, minimises and reports it.

The parent imports the code under test once and forks eight shards. Run i of a batch is seeded
from (VERIF_SEED, property, i) alone and always executed by shard i mod 8, after runs i-8, i-16,
...: which runs share a process is fixed, so a violation that needs the state earlier runs left
behind is replayed as that sequence of runs.
"""

import gc
import hashlib
import json
import os
import pickle
import resource
import select
import signal
import sys
import traceback

import core
from core import Chooser, Ctx, HarnessError, Violation, real_time

SHARDS = 8
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(VERIF, "replays")
RUN_LIMIT_S = 100
MEMORY = 6 << 30        # per process: a run that eats memory fails instead of the machine

_os_open, _os_read, _os_write, _os_close = os.open, os.read, os.write, os.close
_fork, _waitpid, _kill, _exit, _pipe = os.fork, os.waitpid, os.kill, os._exit, os.pipe


class Hang(BaseException):
    pass


def seed_of(base, pid, i):
    h = hashlib.sha256(("%d/%s/%d" % (base, pid, i)).encode()).digest()
    return int.from_bytes(h[:8], "big")


def _from_repo(tb):
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith("/repo/python"):
            return True
        tb = tb.tb_next
    return False


def execute(mod, chooser, tier, keep_log=False):
    """One simulated run in this process. Returns (ctx, violation or None)."""
    import env
    import simpool
    import world
    ctx = Ctx(chooser, tier, keep_log)
    ctx.worlds = []
    env.reset()
    bad = None

    def alarm(signum, frame):
        raise Hang()

    old = signal.signal(signal.SIGALRM, alarm)
    # seconds of computing, or several times that on a busy machine
    old2 = signal.signal(signal.SIGPROF, alarm)
    signal.setitimer(signal.ITIMER_PROF, RUN_LIMIT_S)
    signal.setitimer(signal.ITIMER_REAL, 3 * RUN_LIMIT_S)
    try:
        mod.run(ctx)
    except Violation as v:
        bad = (v.cls, v.detail)
    except Hang:
        bad = ("no-progress", "the run made no progress")
    except HarnessError:
        raise
    except world.SimStop:
        w = ctx.worlds[-1] if ctx.worlds else None
        bad = ("no-progress", "%s" % (w.stopped if w is not None else "stopped"))
    except Exception as e:
        if not _from_repo(e.__traceback__):
            raise
        last = traceback.extract_tb(e.__traceback__)[-1]
        bad = ("unexpected-%s" % type(e).__name__, "%s: %s (%s:%s)" % (
            type(e).__name__, e, os.path.basename(last.filename), last.name))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGALRM, old)
        signal.signal(signal.SIGPROF, old2)
        sys.settrace(None)
        for w in ctx.worlds:
            ctx.sim_time += w.now - w.start
            w.abandon()
        world.WORLD = None
        simpool.reap()
    if bad is not None:
        ctx.log("VIOLATION", bad[0])
    return ctx, bad


# -- child processes ------------------------------------------------------------------------

def in_child(fn, limit_s):
    """fn() in a fork of this process. Returns its result, or raises HarnessError."""
    r, w = _pipe()
    pid = _fork()
    if pid == 0:
        code = 3
        try:
            _os_close(r)
            os.setpgid(0, 0)
            gc.disable()
            try:
                out = ("ok", fn())
            except BaseException:
                out = ("err", traceback.format_exc())
            data = pickle.dumps(out, 2)
            while data:
                data = data[_os_write(w, data):]
            code = 0
        finally:
            _exit(code)
    _os_close(w)
    buf, deadline = [], real_time() + limit_s
    timed_out = False
    while True:
        left = deadline - real_time()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            timed_out = True
            break
        part = _os_read(r, 1 << 20)
        if not part:
            break
        buf.append(part)
    _os_close(r)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    try:
        _kill(pid, signal.SIGKILL)
    except OSError:
        pass
    _waitpid(pid, 0)
    if timed_out:
        raise HarnessError("child exceeded %d s" % limit_s)
    if not buf:
        raise HarnessError("child died")
    status, value = pickle.loads(b"".join(buf))
    if status == "err":
        raise HarnessError(value)
    return value


def play(mod, scripts, tier, keep_log=False):
    """Runs the scripts one after another in this process; the verdict is that of the last one,
    or of the first that fails."""
    out = None
    for k, s in enumerate(scripts):
        ctx, bad = execute(mod, Chooser(script=s), tier, keep_log and k == len(scripts) - 1)
        out = {"bad": bad, "record": ctx.c.record, "digest": ctx.digest(), "log": ctx.keep,
               "at": k, "sites": getattr(ctx, "site", None)}
        if bad is not None and k < len(scripts) - 1:
            break
    return out


def shard_main(mod, shard, base, pid, total, deadline, tier, wfd):
    gc.disable()
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    res = {"runs": 0, "faults": {}, "probes": {}, "digests": set(), "states": set(), "nontrivial": set(),
           "sim_time": 0.0, "events": 0, "violation": None, "samples": [], "stopped_early": False,
           "first": [], "error": None}
    i = shard
    try:
        while i < total:
            if real_time() > deadline:
                res["stopped_early"] = True
                break
            ctx, bad = execute(mod, Chooser(seed_of(base, pid, i)), tier, i == shard)
            res["runs"] += 1
            for k, v in ctx.faults.items():
                res["faults"][k] = res["faults"].get(k, 0) + v
            for k, v in ctx.probes.items():
                res["probes"][k] = res["probes"].get(k, 0) + v
            d = ctx.digest()[:16]
            if d not in res["digests"]:
                res["digests"].add(d)
                if ctx.faults or ctx.states or not getattr(mod, "NEEDS_FAULT", True):
                    res["nontrivial"].add(d)
            res["states"] |= ctx.states
            res["sim_time"] += ctx.sim_time
            res["events"] += ctx.events
            if len(res["first"]) < 6:
                res["first"].append((i, ctx.digest(), ctx.keep))
            if len(res["samples"]) < 1 and (ctx.faults or i >= 40):
                res["samples"].append({"run": i, "choices": ctx.c.record[:400], "faults": dict(ctx.faults),
                                       "summary": getattr(ctx, "summary", None), "digest": ctx.digest()})
            if bad is not None:
                res["violation"] = (i, bad, list(ctx.c.record))
                break
            i += SHARDS
            if res["runs"] % 40 == 0:
                gc.collect()
                if resource.getrusage(resource.RUSAGE_SELF).ru_maxrss > 3200000:
                    res["stopped_early"] = True
                    break
    except BaseException:
        res["error"] = (i, traceback.format_exc())
    data = pickle.dumps(res, 2)
    while data:
        data = data[_os_write(wfd, data):]


def search(mod, pid, base, total, wall, tier):
    deadline = real_time() + wall
    kids = {}
    for s in range(SHARDS):
        r, w = _pipe()
        p = _fork()
        if p == 0:
            try:
                os.setpgid(0, 0)
                for fd in kids:
                    _os_close(fd)
                _os_close(r)
                shard_main(mod, s, base, pid, total, deadline, tier, w)
            finally:
                _exit(0)
        _os_close(w)
        kids[r] = [p, s, []]
    hard = deadline + 3 * RUN_LIMIT_S
    open_ = set(kids)
    results = {}
    while open_:
        left = hard - real_time()
        if left <= 0:
            break
        for r in select.select(list(open_), [], [], left)[0]:
            part = _os_read(r, 1 << 20)
            if part:
                kids[r][2].append(part)
            else:
                open_.discard(r)
                results[kids[r][1]] = pickle.loads(b"".join(kids[r][2])) if kids[r][2] else None
    for r, (p, s, _) in kids.items():
        try:
            os.killpg(p, signal.SIGKILL)
        except OSError:
            pass
        try:
            _kill(p, signal.SIGKILL)
        except OSError:
            pass
        _waitpid(p, 0)
        _os_close(r)
    return results


def reproduce(mod, pid, base, tier, i, bad, record):
    """A list of runs that shows the violation in a fresh process, or None."""
    def verdict(scripts):
        try:
            out = in_child(lambda: play(mod, scripts, tier), 3 * RUN_LIMIT_S + 10 + 2 * len(scripts))
        except HarnessError:
            return None
        return out if out["bad"] is not None and out["bad"][0] == bad[0] else None

    if verdict([record]):
        return [record]
    # with what the shard did before

    def history():
        out = []
        for j in range(i % SHARDS, i, SHARDS):
            ctx, b = execute(mod, Chooser(seed_of(base, pid, j)), tier)
            out.append(list(ctx.c.record))
        return out
    try:
        runs = in_child(history, 900) + [record]
    except HarnessError:
        return None
    if not verdict(runs):
        return None
    deadline = real_time() + 40
    size = max(1, (len(runs) - 1) // 2)
    while real_time() < deadline:
        k, progress = 0, False
        while k < len(runs) - 1 and real_time() < deadline:
            cand = runs[:k] + runs[min(k + size, len(runs) - 1):]
            if len(cand) < len(runs) and verdict(cand):
                runs, progress = cand, True
            else:
                k += size
        if size == 1 and not progress:
            break
        size = max(1, size // 2)
    return runs


def minimise(mod, runs, tier, cls, budget_s):
    """Shrinks the last run, keeping the class of the violation."""
    deadline = real_time() + budget_s

    def fails(cand):
        try:
            out = in_child(lambda: play(mod, runs[:-1] + [cand], tier), RUN_LIMIT_S + 50 + len(runs))
        except HarnessError:
            return None
        if out["bad"] is not None and out["bad"][0] == cls and out["at"] == len(runs) - 1:
            return out["record"]
        return None
    small = core.shrink(runs[-1], fails, max(1, deadline - real_time()))
    return runs[:-1] + [small]


def digest_of(mod, tier, base, pid, i):
    ctx, bad = execute(mod, Chooser(seed_of(base, pid, i)), tier, True)
    return ctx.digest(), ctx.keep
