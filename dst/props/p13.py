"""P13: saved content depends only on the transform, and save-load cycles are stable."""

import hashlib
import json
import os
import subprocess
import sys
import threading

import numpy as np

import env
import inject
import runner
import specs
import world
from core import Chooser, Ctx, Violation
from scen import (DIR, active, call, clf, count_ops, draw_fault, gen_spec, jump_clock, load, machine, must, plain, resize,
                  save, shape, whole)

RUNS = {"quick": (3000, 90), "thorough": (150000, 1500)}
NEEDS_FAULT = False
RULE = ("Seeded histories in which one transform is saved again and again - at other times, to other paths, compressed or "
        "not, by a thread, by a forked process, by interpreters with other hash seeds, after failed and interrupted saves "
        "and loads of other content - and cycles of loading and saving it; non-trivial: distinct event log.")
STATES = "distinct (steps between two saves, node kinds, compression) combinations"
REAL = ["aces.clf save, load and process", "xml.etree, expat and minidom", "gzip, zlib, Python buffered and text I/O", "numpy",
        "threads (one at a time), forked processes, interpreters started with other hash seeds"]
STUB = ["system calls below Python's raw files: in-memory disk with injected errors", "clock", "process life"]
ASSUMES = ["the feature switch stays the same between the saves compared"]

HASHSEEDS = ["1", "77", "4242"]
POOL = 240
TABLE = {}          # hash seed -> list of digests


# -- interpreters with other hash seeds ------------------------------------------------------

def pool_spec(k):
    c = Chooser(runner.seed_of(0, "P13-pool", k))
    return c, specs.Gen(c, groups=2, blanks=0.25).list()


def pool_digest(k):
    c, spec = pool_spec(k)
    ctx = Ctx(c)
    ctx.worlds = []
    w = world.World(ctx)
    w.mkdir(DIR)
    try:
        with active(w):
            def one():
                pl = specs.build(clf, spec)
                save(pl, DIR + "/p.clf")
                a = w.get(DIR + "/p.clf")
                save(load(DIR + "/p.clf"), DIR + "/q.clf", True)
                return hashlib.sha1(a + b"|" + plain(w.get(DIR + "/q.clf"))).hexdigest()
            got = call(one)
    finally:
        w.abandon()
        world.WORLD = None
    return got[1] if got[0] == "ok" else "error %s" % type(got[1]).__name__


def prepare(tier):
    if TABLE:
        return
    kids = []
    for s in HASHSEEDS:
        e = dict(os.environ, PYTHONHASHSEED=s, PYTHONPATH=env.HERE)
        kids.append((s, subprocess.Popen([sys.executable, os.path.abspath(__file__)], env=e, stdout=subprocess.PIPE)))
    for s, p in kids:
        out = p.communicate(timeout=300)[0]
        if p.returncode:
            raise RuntimeError("the interpreter with hash seed %s failed" % s)
        TABLE[s] = json.loads(out.decode().splitlines()[-1])


def hashing(ctx):
    k = ctx.c.choose(POOL)
    s = ctx.c.pick(HASHSEEDS)
    here = pool_digest(k)
    ctx.log("pool", k, here)
    ctx.fault("other-hash-seed")
    ctx.check(here == TABLE[s][k], "hash-dependent", lambda: (
        "transform %d of the pool (%s) is saved as %s by this interpreter and as %s with PYTHONHASHSEED=%s" % (
            k, specs.describe(pool_spec(k)[1]), here, TABLE[s][k], s)))


# -- what a caller can see of a transform without saving it ------------------------------------

def visible(x, depth=0):
    if isinstance(x, np.ndarray):
        return ("array", str(x.dtype), x.shape, x.tobytes())
    if isinstance(x, np.generic):
        return ("scalar", x.tobytes())
    if isinstance(x, (list, tuple)):
        return [visible(y, depth) for y in x]
    if isinstance(x, dict):
        return [(k, visible(x[k], depth)) for k in sorted(x)]
    if x is None or isinstance(x, (str, bytes, bool, int, float)):
        return repr(x)
    if depth > 8:
        return "..."
    out = [type(x).__name__]
    for name in sorted(dir(type(x))):
        if not name.startswith("get") or name in ("getWriteReferencedNodes", "getClass"):
            continue
        try:
            v = getattr(x, name)()
        except TypeError:
            continue
        except Exception as e:
            v = type(e).__name__
        out.append((name, visible(v, depth + 1)))
    for a in ("id", "name", "bypass", "extra", "style", "interpolation", "rawHalfs", "halfDomain", "path", "basePath"):
        try:
            out.append((a, repr(x.getAttribute(a))))
        except Exception:
            pass
    return out


def changed(a, b, where=""):
    if type(a) is not type(b):
        return "%s: %.60r -> %.60r" % (where, a, b)
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return "%s: %d -> %d entries" % (where, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = changed(x, y, where + "/" + (x[0] if isinstance(x, (list, tuple)) and x and isinstance(x[0], str) else str(i)))
            if d:
                return d
        return None
    return None if a == b else "%s: %.60r -> %.60r" % (where, a, b)


# -- the histories ------------------------------------------------------------------------------

def in_thread(fn):
    box = []

    def body():
        try:
            box.append(("ok", fn()))
        except BaseException as e:
            box.append(("err", e))
    t = threading.Thread(target=body)
    t.start()
    t.join()
    if box[0][0] == "err":
        raise box[0][1]
    return box[0][1]


def first_difference(a, b):
    la, lb = a.split(b"\n"), b.split(b"\n")
    for i, (x, y) in enumerate(zip(la, lb)):
        if x != y:
            return "line %d: %r instead of %r" % (i + 1, y[:200], x[:200])
    return "%d instead of %d lines" % (len(lb), len(la))


def noise(ctx, w, others, pl):
    """Something else happens between two saves. Returns its name."""
    c = ctx.c
    what = c.pick(["nothing", "clock", "other-save", "other-load", "failed-save", "interrupted-save", "failed-load", "process",
                   "restart", "sizes", "own", "features"])
    other, path = c.pick(others)
    if what == "clock":
        jump_clock(ctx, w)
    elif what == "other-save":
        call(lambda: save(other, DIR + "/n.clf", c.flag(0.5)))
    elif what == "own":
        call(lambda: save(other if c.flag(0.5) else pl, DIR + "/n.clf", c.flag(0.5), True))
    elif what == "other-load":
        call(lambda: load(path, c.flag(0.5)))
    elif what == "failed-save":
        gz, own, mine = c.flag(0.5), c.flag(0.3), other if c.flag(0.5) else pl
        ops, _ = count_ops(ctx, w, lambda: save(mine, DIR + "/n.clf", gz, own))
        f = draw_fault(ctx, ops)
        if f:
            w.arm(*f)
        call(lambda: save(mine, DIR + "/n.clf", gz, own))
        w.disarm()
        w.sticky = []
        w.collect()
    elif what == "interrupted-save":
        gz, own, mine = c.flag(0.5), c.flag(0.3), other if c.flag(0.5) else pl
        count = inject.Lines(w=w)
        with count:
            call(lambda: save(mine, DIR + "/n.clf", gz, own))
        with inject.Lines(c.choose(max(1, count.count)), c.pick([KeyboardInterrupt, MemoryError]), w) as ln:
            call(lambda: save(mine, DIR + "/n.clf", gz, own))
        if ln.fired:
            ctx.fault("interrupt@line")
        w.collect()
    elif what == "failed-load":
        w.put(DIR + "/bad", c.pick([b"", b"<ProcessList><Matrix>", b"\x1f\x8b\x08zzz", b"<ProcessList><Array/></ProcessList>"]))
        call(lambda: load(DIR + "/bad", c.flag(0.5)))
    elif what == "process":
        call(lambda: other.process([0.25, 0.5, 0.75], 3))
    elif what == "restart":
        w.collect()
        w.restart()
    elif what == "sizes":
        resize(ctx, w)
    elif what == "features":
        env.set_features(c.pick([0, 1, 2]))
        if c.flag(0.5):
            call(lambda: save(pl, DIR + "/n.clf", c.flag(0.5), c.flag(0.5)))
        call(lambda: save(other, DIR + "/n.clf", c.flag(0.5)))
        call(lambda: load(path, c.flag(0.5)))
        env.set_features(15)
    return what


def content(ctx, w, pl, base):
    """Saves pl some way and returns the uncompressed content."""
    c = ctx.c
    gz = c.flag(0.4)
    path = c.pick([base, DIR + "/other name \u00e9.clf", DIR + "/deep/x.clf"])
    w.mkdir(DIR + "/deep")
    how = c.pick(["here", "thread", "fork"], [10, 3, 0.4])
    ctx.log("save", path, gz, how)

    def do():
        save(pl, path, gz)
        return plain(w.get(path))
    if how == "fork":
        def forked():
            w.pid += 1
            return do()
        return must(ctx, lambda: runner.in_child(forked, 60), "save-fails", "saving in a forked process"), how, gz
    if how == "thread":
        return must(ctx, lambda: in_thread(do), "save-fails", "saving in a thread"), how, gz
    return must(ctx, do, "save-fails", "saving"), how, gz


def run(ctx):
    c = ctx.c
    if c.flag(0.06):
        return hashing(ctx)
    w = machine(ctx)
    vals = [0.25, 0.5, 0.75]
    with active(w):
        refs = []
        if c.flag(0.3):
            r = specs.Gen(c, types=["Matrix", "Range", "ASC_CDL"], rich=False, bypass=False).list()
            save(specs.build(clf, r), DIR + "/ref.clf")
            refs.append(DIR + "/ref.clf")
        others = []
        for i in range(2):
            s = gen_spec(ctx, groups=1, maxnodes=2, refs=refs)
            o = specs.build(clf, s)
            save(o, DIR + "/o%d.clf" % i)
            others.append((o, DIR + "/o%d.clf" % i))
        spec = gen_spec(ctx, refs=refs, groups=2)

        def blank(nodes):
            for n in nodes:
                if c.flag(0.2):
                    n["id"] = ""
                if c.flag(0.2):
                    n["name"] = ""
                blank(n.get("nodes", ()))
        blank(spec["nodes"])
        for a in ("id", "name"):
            if c.flag(0.12):
                spec["attrs"].pop(a, None)
                if c.flag(0.5):
                    spec["attrs"][a] = ""
        pl = must(ctx, lambda: specs.build(clf, spec), "build-fails", "building")
        loaded = c.flag(0.5)
        if loaded:
            save(pl, DIR + "/start.clf", c.flag(0.4))
            pl = must(ctx, lambda: load(DIR + "/start.clf"), "load-fails", "loading")
        seen = visible(pl)
        res = whole(ctx, spec, pl, vals)
        first, _, _ = content(ctx, w, pl, DIR + "/t.clf")
        trail = []
        for k in range(2 + c.choose(4)):
            what = noise(ctx, w, others, pl)
            if c.flag(0.2) and not loaded:
                twin = must(ctx, lambda: specs.build(clf, spec), "build-fails", "building the same transform again")
                what += "+twin"
            elif c.flag(0.2) and loaded:
                twin = must(ctx, lambda: load(DIR + "/start.clf"), "load-fails", "loading the same file again")
                what += "+twin"
            else:
                twin = pl
            trail.append(what)
            got, how, gz = content(ctx, w, twin, DIR + "/t.clf")
            ctx.state((what, how, gz, specs.describe(spec)))
            ctx.check(got == first, "content-differs", lambda: "saving %s again (%s, %s) gave other content: %s" % (
                specs.describe(spec), ", ".join(trail), how, first_difference(first, got)))
        now = visible(pl)
        ctx.check(now == seen, "save-changes-transform", lambda: "saving changed the transform: %s" % changed(seen, now))
        ctx.check(whole(ctx, spec, pl, vals) == res, "save-changes-results", "saving changed the results of the transform")
        # cycles
        path = DIR + "/cycle.clf"
        must(ctx, lambda: save(pl, path, c.flag(0.4)), "save-fails", "saving")
        prev = None
        for k in range(c.pick([2, 3, 5, 12], [6, 3, 1, 0.3])):
            cur = must(ctx, lambda: load(path, c.flag(0.3)), "load-fails", "loading")
            r = (whole(ctx, spec, cur, vals), visible(cur))
            if c.flag(0.3):
                trail.append(noise(ctx, w, others, cur))
            data, how, gz = content(ctx, w, cur, path)
            if how == "fork" or w.get(path) is None or plain(w.get(path)) != data or c.flag(0.2):
                must(ctx, lambda: save(cur, path, c.flag(0.4)), "save-fails", "saving")
            if prev is not None:
                ctx.check(data == prev[0], "cycle-content", lambda: "cycle %d of %s (%s) changed the content: %s" % (
                    k, specs.describe(spec), ", ".join(trail), first_difference(prev[0], data)))
                ctx.check(r[0] == prev[1][0], "cycle-results", lambda: "cycle %d changed the results" % k)
                ctx.check(r[1] == prev[1][1], "cycle-visible", lambda: "cycle %d changed the transform: %s" % (
                    k, changed(prev[1][1], r[1])))
            elif loaded:
                ctx.check(data == first, "cycle-content", lambda: "reloading %s changed the content: %s" % (
                    specs.describe(spec), first_difference(first, data)))
            prev = (data, r)


if __name__ == "__main__":
    sys.path.insert(0, env.HERE)
    env.reset()
    print(json.dumps([pool_digest(k) for k in range(POOL)]))
