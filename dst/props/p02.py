"""P02: a filter run that hits a fault never finishes a wrong image and always ends."""

import array

import imgs
import inject
import simoiio
import simpool
from core import Violation
from scen import DIR, active, call, count_ops, draw_fault, machine, shape
from world import SimStop

RUNS = {"quick": (3200, 120), "thorough": (200000, 2400)}
RULE = ("Seeded filter runs (as P01), each with one or two faults at chosen points: a call of the image library or a system "
        "call fails or raises, workers cannot be started, a worker raises at a chosen line of a chosen row, dies, never "
        "answers or is slower than the filter waits, the caller is interrupted while it waits or at a chosen line; "
        "non-trivial: distinct event log in which a fault fired.")
STATES = "distinct (fault, workers, how the call ended, what the output is) combinations"
REAL = ["aces.filterImageWithCLF, aces.clf", "worker processes (forked, in lock step), pickle between them", "numpy"]
STUB = ["OpenImageIO", "the scheduler of multiprocessing.Pool", "clock", "disk under the transform file"]
ASSUMES = ["multiprocessing hands a killed worker's task to nobody, as the real pool does",
           "an interrupt inside the clean-up itself is left out",
           "an image whose writer was not closed successfully is not finished, as the image library reports it"]
BOUND = 1e6             # virtual seconds


class Fault(Exception):
    """What a worker may raise that cannot cross the process boundary."""

    def __init__(self, a, b):
        Exception.__init__(self)


def run(ctx):
    c = ctx.c
    w = machine(ctx, bufsize=8192)
    j = imgs.make_job(ctx, w, rows=1 + c.choose(c.pick([4, 8, 30], [3, 2, 1])))
    rows = j.img.height
    old = None
    with active(w):
        if j.dst != j.src and c.flag(0.4):
            old = simoiio.Image("uint8", 1, 1, 1, ["Y"], [], array.array("B", [7]))
            simoiio.images()[j.dst] = old
    scale = c.pick([1.0, 60.0], [4, 1])

    def fresh(**kw):
        m = w.pool_model = simpool.Model(ctx, scale=scale, **kw)
        return m

    # what the fault-free run does
    kinds = ["call", "worker", "caller-line", "fork", "caller-waits", "slow", "two"]
    mode = c.pick(kinds, [4, 6, 3, 0.5, 1.5, 1, 2] if j.workers > 1 else [4, 0, 4, 0, 0, 0, 0])
    label, lines, kw, clean_up = mode, None, {}, True

    def worker_fault():
        how = c.pick(["raise", "kill", "hang", "slow"], [4, 2, 2, 1])
        k = c.choose(rows)
        if how == "raise":
            exc = c.pick([ValueError, MemoryError, KeyboardInterrupt, SystemExit, Fault, OSError])
            n = c.pick([c.choose(12), c.choose(200), c.choose(2000)])
            again = exc in (MemoryError, OSError, ValueError) and c.flag(0.5)
            if again and c.flag(0.4):
                # the machine stays short of something
                kw["lasting"] = (k, ("raise", n, exc, True))
                return "%s-in-workers-from-then-on" % exc.__name__
            kw.setdefault("faults", {})[k] = ("raise", n, exc, again)
            return "%s-in-worker%s" % (exc.__name__, "-again" if again else "")
        if how == "slow":
            kw["slow"] = kw.get("slow", ()) + (k,)
        else:
            kw.setdefault("faults", {})[k] = (how,)
        return how

    def library_fault():
        fresh()
        before = dict(w.images)
        ops, _ = count_ops(ctx, w, lambda: imgs.run_job(j))
        w.images = before
        simpool.reap()
        f = draw_fault(ctx, ops)
        return f, shape(f, ops)

    arm = None
    if mode == "call":
        arm, label = library_fault()
    elif mode == "worker":
        label = worker_fault()
    elif mode == "two":
        label = worker_fault() + "+" + worker_fault()
        if c.flag(0.3):
            kw["interrupt_at"] = c.choose(rows + 1)
            label += "+interrupt"
    elif mode == "fork":
        kw["fork_fails"] = True
    elif mode == "caller-waits":
        kw["interrupt_at"] = c.choose(rows + 1)
    elif mode == "slow":
        kw["slow"] = tuple(sorted(set(c.choose(rows) for i in range(1 + c.choose(3)))))
    else:
        fresh()
        before = dict(w.images)
        snap = w.snapshot()
        count = inject.Lines(w=w)
        with active(w), count:
            call(lambda: imgs.run_job(j))
        w.restore(snap)
        w.images = before
        simpool.reap()
        exc = c.pick([KeyboardInterrupt, MemoryError, RuntimeError])
        k = c.choose(max(1, count.count))
        if c.flag(0.4):
            k = count.count - 1 - c.choose(min(60, max(1, count.count)))        # near the writing of the image
        lines = inject.Lines(k, exc, w)
        label = exc.__name__ + "@line"
    m = fresh(**kw)
    start = w.now
    if arm is not None:
        w.arm(*arm)
    with active(w):
        if lines is not None:
            with lines:
                got = call(lambda: imgs.run_job(j))
            if lines.fired:
                ctx.fault(label)
                ctx.log("at", lines.fired)
        else:
            got = call(lambda: imgs.run_job(j))
        img = simoiio.images().get(j.dst)
    if isinstance(got[1], SimStop) or w.stopped:
        raise Violation("no-progress", "%s: %s" % (label, w.stopped))
    ctx.log(got[0], type(got[1]).__name__, m.order)
    took = w.now - start
    ctx.check(took <= BOUND, "no-progress", lambda: "%s: the call took %.0f s" % (label, took))
    kind = "none" if img is None else "old" if img is old else "input" if img is j.img else (
        "finished" if img.finished else "unfinished")
    ctx.probe("output-" + kind)
    ctx.state((label, lines.fired if lines else None, j.workers, got[0], type(got[1]).__name__, kind))
    for p in m.pools:
        ctx.check(p.released(), "workers-left", lambda: "%s: the call %s, %d workers are still there" % (
            label, "returned" if got[0] == "ok" else "raised %s" % type(got[1]).__name__, p.n))
    if kind == "finished":
        why = imgs.judge(j, img)
        ctx.check(why is None, "wrong-image", lambda: "%s: the call %s: %s" % (
            label, "returned" if got[0] == "ok" else "raised %s" % type(got[1]).__name__, why))
    if kind == "old":
        ctx.check(old.data.tobytes() == b"\x07" and old.finished, "wrong-image", "the image that was there is damaged")
    if img is not j.img or j.src != j.dst:
        ctx.check(j.img.data.tobytes() == j.before[0] and list(j.img.attribs) == j.before[1], "input-changed",
                  "the input image was changed")
    # once the fault is gone, the same process filters the image again
    if c.flag(0.35) and j.img.data.tobytes() == j.before[0] and list(j.img.attribs) == j.before[1]:
        w.plan = {}
        w.sticky = []
        with active(w):
            simoiio.images()[j.src] = j.img
            if j.src != j.dst:
                simoiio.images().pop(j.dst, None)
            fresh()
            got = call(lambda: imgs.run_job(j))
            img = simoiio.images().get(j.dst)
        if isinstance(got[1], SimStop) or w.stopped:
            raise Violation("no-progress", "after %s: %s" % (label, w.stopped))
        ctx.probe("again")
        if j.want is not None:
            ctx.check(got[0] == "ok", "fails-afterwards", lambda: "after %s: %s" % (label, got[1]))
            ctx.check(img is not None and img.finished and (img is not j.img or j.src != j.dst), "fails-afterwards",
                      lambda: "after %s: no image was written once the fault was gone" % label)
            why = imgs.judge(j, img)
            ctx.check(why is None, "wrong-afterwards", lambda: "after %s: %s" % (label, why))
        else:
            ctx.check(img is None or img is j.img or not img.finished, "image-from-nothing",
                      "the transform cannot be applied, but there is an output image")
