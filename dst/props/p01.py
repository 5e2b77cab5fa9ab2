"""P01: the filtered image is right for every worker count and row schedule."""

import array

import imgs
import simoiio
import simpool
from core import Violation
from scen import DIR, active, call, machine

RUNS = {"quick": (3000, 120), "thorough": (200000, 2400)}
RULE = ("Seeded images (six stored depths, 1 to 5 channels, 1 to 24 rows), transforms, output depths, worker counts and row "
        "schedules: which worker takes which row, how long it takes on the virtual clock and in which order rows come back; one to three filter runs in one process, often of the same image; "
        "non-trivial: distinct event log of a run in which a transform was applied to an image.")
STATES = "distinct (stored depth, output depth, channels, workers, order in which rows came back) combinations"
NEEDS_FAULT = False
REAL = ["aces.filterImageWithCLF, aces.clf", "worker processes (forked, in lock step), pickle between them", "numpy"]
STUB = ["OpenImageIO", "the scheduler of multiprocessing.Pool", "clock", "disk under the transform file"]
ASSUMES = ["processing the whole image stays below the 65535 seconds the filter waits",
           "the colour of one pixel is what ProcessList.process gives for it alone; that nodes compute what the specification says is P30 and P31"]


def run(ctx):
    c = ctx.c
    w = machine(ctx, bufsize=8192)
    job = None
    for n in range(c.pick([1, 2, 3], [6, 3, 1])):
        job = one(ctx, w, n, job)


def one(ctx, w, n, like):
    """One filter run of the process. Everything earlier runs did has to be without effect."""
    c = ctx.c
    j = imgs.make_job(ctx, w, like=like, n=n)
    scale = min(c.pick([1.0, 60.0, 2000.0], [4, 1, 1]), 60000.0 / j.img.height)
    m = w.pool_model = simpool.Model(ctx, scale=scale)
    w.tick = c.pick([0.001, 0.0, 5.0])
    old = None
    with active(w):
        if j.dst != j.src and n == 0 and c.flag(0.2):
            old = simoiio.Image("uint8", 1, 1, 1, ["Y"], [], array.array("B", [7]))
            simoiio.images()[j.dst] = old
            ctx.probe("output-exists")
        elif j.dst != j.src:
            old = simoiio.images().get(j.dst)
        others = {p: i for p, i in simoiio.images().items() if p not in (j.src, j.dst)}
        keep = {p: (i.data.tobytes(), list(i.attribs)) for p, i in others.items() if i.finished}
        got = call(lambda: imgs.run_job(j))
        img = simoiio.images().get(j.dst)
    if w.stopped:
        raise Violation("no-progress", w.stopped)
    ctx.log(got[0], type(got[1]).__name__, "order", m.order)
    if n:
        ctx.probe("run-%d-of-process" % (n + 1))
    if m.order and m.order != sorted(m.order):
        ctx.probe("rows-out-of-order")
    if j.workers > 1 and len(m.pools) == 1:
        ctx.probe("parallel")
    ctx.state((j.kind, j.outdepth, j.img.channels, j.workers, n, tuple(m.order)))
    if j.want is None:
        ctx.probe("transform-fails")
        ctx.check(img is None or img is old or img is j.img or not img.finished, "image-from-nothing",
                  "the transform cannot be applied, but there is an output image")
    else:
        ctx.check(got[0] == "ok", "failed", lambda: "filtering raised %s: %s" % (type(got[1]).__name__, got[1]))
        ctx.check(img is not None and img is not old and (img is not j.img or j.dst != j.src), "no-output",
                  "no output image was written")
        ctx.check(img.finished, "unfinished", "the output image was not finished")
        why = imgs.judge(j, img)
        ctx.check(why is None, "wrong-image", why)
    ctx.check(j.img.data.tobytes() == j.before[0] and list(j.img.attribs) == j.before[1], "input-changed",
              "the input image was changed")
    ctx.check(set(w.images) - set(others) <= {j.src, j.dst}, "extra-images", lambda: "images %s" % sorted(w.images))
    for p, k in sorted(keep.items()):
        ctx.check(w.images.get(p) is others[p] and (others[p].data.tobytes(), list(others[p].attribs)) == k,
                  "other-image", lambda: "the image %s of an earlier run was changed" % p)
    return j
