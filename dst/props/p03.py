"""P03: a transform can be shared by threads and survives interrupted calls."""

import copy

import numpy as np

import simthreads
import specs
from core import Violation
from scen import DIR, active, clf, load, machine, save

RUNS = {"quick": (12000, 180), "thorough": (200000, 2400)}
RULE = ("Seeded schedules of 2 to 4 threads calling process on one shared transform - switched at calls, lines and returns in "
        "/repo, by drawn run lengths or by priorities with drawn change points - with an interrupt or exhausted memory at a "
        "chosen line of a chosen call in some runs, on whole transforms and single nodes, on values of their own or shared; non-trivial: distinct event log (schedule and strikes in order).")
STATES = "distinct (node types, number of threads, scheduling mode, who was interrupted, switches bucket) combinations"
NEEDS_FAULT = False
REAL = ["aces.clf: every node's process", "numpy", "real threads, one at a time"]
STUB = ["the thread scheduler", "disk under loaded transforms", "clock"]
ASSUMES = ["threads change over at calls, lines and returns of the repository's code and at system calls, not inside a line or in numpy"]

TYPES = ["Matrix", "Range", "LUT1D", "LUT3D", "ASC_CDL", "ExposureContrast", "Gamma", "Log", "Group"]


class Call(object):
    pass


def make_call(c, spec):
    k = Call()
    k.stride = c.pick([3, 0, 4], [6, 2, 2])
    n = c.pick([1, 2, 5], [5, 3, 1]) if k.stride else 1
    k.vals = specs.probe_values(c, spec, n, k.stride or c.pick([3, 4]))
    k.form = c.pick(["f32", "list", "f64", "tuple"], [4, 3, 1, 1])
    k.verbose = c.flag(0.05)
    # a node called by itself, on values of its own or on values others read as well
    k.node = c.choose(len(spec["nodes"])) if c.flag(0.2) and k.form != "tuple" else None
    k.shared = argument(k) if c.flag(0.2) else None
    return k


def target(pl, k):
    return pl if k.node is None else pl[k.node]


def argument(k):
    return {"f32": lambda: np.array(k.vals, np.float32), "f64": lambda: np.array(k.vals, np.float64),
            "list": lambda: list(k.vals), "tuple": lambda: tuple(k.vals)}[k.form]()


def outcome(fn):
    try:
        r = fn()
    except Exception as e:
        return ("err", type(e).__name__, str(e)), None
    return ("ok", np.array(r, np.float64).tobytes(), len(r)), r


def same(a, b):
    return type(a) is type(b) and len(a) == len(b) and (
        a.tobytes() == b.tobytes() if isinstance(a, np.ndarray) else list(a) == list(b))


def contents(pl):
    return specs.live_model(pl), tables(pl), pl.getInBitDepth(), pl.getOutBitDepth()


def tables(pl):
    out = []

    def walk(n):
        for k in n.getProcesses() if hasattr(n, "getProcesses") else ():
            walk(k)
        if hasattr(n, "getLUTValues"):
            out.append(np.array(n.getLUTValues(), np.float64).tobytes())
        if hasattr(n, "getMatrixValues"):
            out.append(np.array(n.getMatrixValues(), np.float64).tobytes())
    for n in pl:
        walk(n)
    return out


def run(ctx):
    c = ctx.c
    w = machine(ctx, bufsize=8192)
    refs = []
    with active(w):
        if c.flag(0.15):
            r = specs.Gen(c, types=TYPES[:-1], rich=False, wild=False, maxnodes=2).list()
            save(specs.build(clf, r), DIR + "/r.clf")
            refs = [DIR + "/r.clf"]
        loaded = bool(refs) or c.flag(0.3)
        # half of the runs put everything on one kind of node
        focus = not refs and c.flag(0.5)
        kinds = [c.pick(TYPES[:-1], [1, 1, 3, 3, 1, 1, 1, 1])] if focus else TYPES + ["Reference"]
        spec = specs.Gen(c, types=kinds, rich=False, refs=refs, groups=2, maxnodes=1 if focus else 3, bypass=not focus,
                         encodings=not focus, moremaps=focus and c.flag(0.7),
                         halfdomain=0.0 if ctx.tier == "quick" else 0.02, wild=not focus and c.flag(0.2)).list()
        if loaded:
            save(specs.build(clf, spec), DIR + "/t.clf")
            pl, twin = load(DIR + "/t.clf"), load(DIR + "/t.clf")
        else:
            pl, twin = specs.build(clf, spec), None
        n = c.pick([2, 3, 4, 1], [5, 3, 1, 1])
        mode = c.pick(["runs", "priorities"], [3, 2])
        ctx.summary = [specs.describe(spec), n, mode]
        ctx.log("job", specs.describe(spec), n, mode, loaded)
        before = contents(pl)
        work = []
        for t in range(n):
            calls = [make_call(c, spec) for i in range(c.pick([1, 2, 3], [1, 3, 3] if focus else [4, 3, 1]))]
            if work and c.flag(0.2):
                # the same call on the same values as another thread
                calls[0] = copy.copy(work[0][0])
                calls[0].shared = work[0][0].shared = argument(calls[0])
            for k in calls:
                k.want = outcome(lambda: target(twin or specs.build(clf, spec), k).process(argument(k), k.stride))[0]
            work.append(calls)
        s = simthreads.Scheduler(ctx, w, mode, lengths=c.pick([(1, 4, 20, 100), (2,), (1, 400), (30,)], [1, 3, 1, 1] if focus else None),
                                 changes=c.choose(4), horizon=c.pick([100, 400, 2000]))
        hit = None
        if c.flag(0.4):
            hit = (c.choose(n), c.choose(c.pick([10, 60, 400])), c.pick([KeyboardInterrupt, MemoryError]))
        kept = []
        wrong = []

        def body(t):
            def go():
                mine = []
                for i, k in enumerate(work[t]):
                    s.resume()
                    arg, keep = argument(k) if k.shared is None else k.shared, argument(k)
                    try:
                        got, res = outcome(lambda: target(pl, k).process(arg, k.stride, verbose=k.verbose))
                    except KeyboardInterrupt:
                        got, res = ("err", "KeyboardInterrupt", ""), None
                    struck = s.tasks[t].fired is not None and s.tasks[t].strike is not None
                    ctx.log("call", t, i, got[0])
                    if struck:
                        s.tasks[t].strike = None        # this was the interrupted call
                        if got[0] == "ok" and got != k.want:
                            wrong.append("an interrupted call returned %s instead of %s" % (show(got), show(k.want)))
                    elif got != k.want:
                        wrong.append("thread %d call %d (%s): %s instead of %s" % (
                            t, i, specs.describe(spec), show(got), show(k.want)))
                    if not same(arg, keep):
                        wrong.append("thread %d call %d changed its input" % (t, i))
                    if res is not None and res is not arg:
                        mine.append((res, np.array(res, np.float64).tobytes()))
                        if len(mine) == 3 or (i == 0 and len(k.vals) % 2):
                            # the caller owns what it got
                            old = mine.pop(0)[0]
                            try:
                                for q in range(len(old)):
                                    old[q] = -7.0
                            except (TypeError, ValueError):
                                pass
                kept.append(mine)
            return go
        for t in range(n):
            task = s.spawn("t%d" % t, body(t))
            if hit is not None and hit[0] == t:
                task.strike = (hit[1], hit[2])
        s.run()
        for t in s.tasks:
            if t.error is not None:
                raise t.error
        struck = [t for t in s.tasks if t.fired]
        if struck:
            ctx.fault("%s-in-call" % hit[2].__name__)
        if s.switches:
            ctx.fault("preemption", s.switches)
        ctx.state((specs.describe(spec), n, mode, struck[0].fired if struck else None, min(s.switches, 20)))
        ctx.check(not wrong, "wrong-result", lambda: wrong[0])
        for mine in kept:
            for r, old in mine:
                ctx.check(np.array(r, np.float64).tobytes() == old, "result-changed", "a result returned earlier has changed")
        d = specs.differ(before[0], specs.live_model(pl))
        ctx.check(d is None or not d, "transform-changed", lambda: "processing changed the transform: %s" % d)
        ctx.check(contents(pl)[1:] == before[1:], "transform-changed", "processing changed a table or bit depth of the transform")
        # calls made afterwards
        for calls in work:
            for k in calls:
                got, _ = outcome(lambda: target(pl, k).process(argument(k), k.stride))
                ctx.check(got == k.want, "wrong-afterwards", lambda: "afterwards %s gives %s instead of %s" % (
                    specs.describe(spec), show(got), show(k.want)))


def show(r):
    return str(np.frombuffer(r[1], np.float64).tolist()) if r[0] == "ok" else " ".join(r[1:])
