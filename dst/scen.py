"""Parts of scenarios that the properties share."""

import errno
import gzip
import io
import zlib

import env
import specs
import world
from core import HarnessError, Violation
from world import SimCrash, SimStop, World, active

clf = env.clf

DIR = "/simfs/data"
CLOCKS = [1.4e9, 0.0, 86400.5, 2.0e9, 4.29e9, 951782400.0]


def machine(ctx, swarm=True, **kw):
    """A simulated machine; buffer and transfer sizes and the clock vary from run to run."""
    c = ctx.c
    if swarm:
        kw.setdefault("bufsize", c.pick([8192, 64, 512, 4096, 1 << 16], [5, 1, 2, 2, 1]))
        kw.setdefault("cap", c.pick([None, 4096, 100, 7], [6, 2, 2, 0.5]))
        kw.setdefault("now", c.pick(CLOCKS))
    w = World(ctx, **kw)
    w.mkdir(DIR)
    w.entropy.seed(c.choose(1 << 16))
    return w


def resize(ctx, w):
    """Other transfer sizes from here on."""
    c = ctx.c
    w.cap = c.pick([None, 4096, 100, 13], [6, 2, 2, 0.5])
    w.bufsize = c.pick([8192, 512, 1 << 16, 64], [4, 2, 1, 1])


def jump_clock(ctx, w):
    kind = ctx.c.choose(4)
    if kind:
        w.now = [0, w.now + 3600.0, max(0.0, w.now - 7200.0), ctx.c.pick(CLOCKS)][kind]
        ctx.fault("clock-jump")


FAILURES = (Exception, KeyboardInterrupt)


def call(fn):
    """('ok', value) or ('err', exception). Only what a caller could see: simulated death and
    the end of the run pass through."""
    try:
        return ("ok", fn())
    except (Violation, HarnessError):
        raise
    except FAILURES as e:
        return ("err", e)


def must(ctx, fn, cls, what):
    """fn() without injected faults has to work."""
    got = call(fn)
    if got[0] == "err":
        e = got[1]
        if isinstance(e, (SimCrash, SimStop)):
            raise e
        raise Violation(cls, "%s failed: %s: %s" % (what, type(e).__name__, str(e)[:300]))
    return got[1]


def save(pl, path, gz=False, selfc=False):
    return pl.writeFile(path, writeSelfContained=selfc, writeGzip=gz)


def load(path, strict=False):
    return clf.ProcessList(path, strict)


def plain(data):
    """Uncompressed content of a stored file."""
    if data[:2] == b"\x1f\x8b":
        with gzip.GzipFile(fileobj=io.BytesIO(data)) as f:
            return f.read()
    return data


def valid_content(data):
    """The parsed model if the bytes are a whole, well-formed file, else None."""
    try:
        return specs.file_model(plain(data))
    except (OSError, EOFError, zlib.error, ValueError, SyntaxError, IndexError):
        return None


def count_ops(ctx, w, fn):
    """The system calls of fn(), found by running it once and undoing it."""
    snap = w.snapshot()
    keep = (w.now, w.nops)
    w.ops = []
    hook, w.yield_hook = w.yield_hook, None
    try:
        with active(w):
            got = call(fn)
    finally:
        ops, w.ops = w.ops, None
        w.yield_hook = hook
    w.collect()
    w.restore(snap)
    w.now = keep[0]
    return ops, got


ERRNOS = {"open": [errno.EACCES, errno.EMFILE, errno.EIO, errno.ENOSPC], "read": [errno.EIO],
          "write": [errno.ENOSPC, errno.EIO, errno.EDQUOT], "close": [errno.EIO, errno.ENOSPC], "fsync": [errno.EIO],
          "rename": [errno.EIO, errno.EACCES], "truncate": [errno.EIO], "unlink": [errno.EACCES]}


def draw_fault(ctx, ops, errnos=True, raises=True, crash=False, kinds=None):
    """(index, fault) aimed at one of the counted system calls, or None."""
    c = ctx.c
    ok = [i for i, (k, p, n) in enumerate(ops) if (kinds is None or k in kinds)]
    if not ok:
        return None
    # open, close and the last calls are rarer than writes and matter more
    first = ok[0]
    heavy = [i for i in ok if ops[i][0] != "write" or i == ok[-1]]
    i = c.pick(heavy) if c.flag(0.4) and heavy else c.pick(ok)
    kind, path, n = ops[i]
    what = []
    if kind.startswith("img-"):
        what += ["fail"] * 3
    elif errnos and kind in ERRNOS:
        what += ["errno"] * 3
    if raises and kind not in ("close", "img-close"):
        what += ["raise"]
    if crash:
        what += ["crash"] * 2
    if not what:
        return None
    how = c.pick(what)
    f = {"what": how}
    if how == "errno":
        f["errno"] = c.pick(ERRNOS[kind])
        if kind == "write":
            f["part"] = c.choose(max(1, n)) if c.flag(0.5) else 0
        if kind == "close":
            f["part"] = c.choose(4096) if c.flag(0.7) else 0
        if kind in ("open", "write") and c.flag(0.3):
            f["sticky"] = (kind,)
            f["path"] = path
    elif how == "raise":
        f["exc"] = c.pick([KeyboardInterrupt, MemoryError])
    else:
        f["part"] = c.choose(n + 1) if kind == "write" else 0
    return i, f


def shape(fault, ops):
    if fault is None:
        return "none"
    i, f = fault
    return "%s@%s" % (f.get("exc", f.get("errno", f["what"])), ops[i][0])


def gen_spec(ctx, **kw):
    g = specs.Gen(ctx.c, **kw)
    return g.list()


def table_check(ctx, n, node, cls, where):
    """Stored tables, bit for bit, through the public getters."""
    if n["t"] == "Group":
        for k, x in zip(n["nodes"], node.getProcesses()):
            table_check(ctx, k, x, cls, where + "/Group")
    if n["t"] not in ("LUT1D", "LUT3D"):
        return
    got = [float(v) for v in node.getLUTValues()]
    want = [float(v) for v in n["values"]]
    if len(got) != len(want):
        raise Violation(cls, "%s: %d table values instead of %d" % (where, len(got), len(want)))
    exact = n["enc"] != "string" or n.get("rawHalfs")
    for i, (x, y) in enumerate(zip(want, got)):
        if not (specs.same_float(x, y) if exact else abs(x - y) <= 5.1e-10):
            raise Violation(cls, "%s: table value %d is %r instead of %r" % (where, i, y, x))


def check_loaded(ctx, spec, built, loaded, vals, cls, dyn=True):
    """loaded holds exactly the transform that spec describes."""
    d = specs.differ(specs.expect(spec, dyn), specs.live_model(loaded))
    if d:
        raise Violation(cls, "loaded transform: " + d)
    for i, n in enumerate(spec["nodes"]):
        table_check(ctx, n, loaded[i], cls, "node %d" % i)
        for p in n["dyn"]:
            if loaded[i].getDynamicParam(p) != dyn:
                raise Violation(cls, "node %d: dynamic parameter %r" % (i, p))
        if n["t"] != "ColorCorrection":
            if loaded[i].getInBitDepth() != n["in"] or loaded[i].getOutBitDepth() != n["out"]:
                raise Violation(cls, "node %d: bit depths" % i)
    if loaded.getID() != spec["attrs"].get("id") or loaded.getName() != spec["attrs"].get("name") or \
            loaded.getNamespace() != spec["attrs"].get("xmlns"):
        raise Violation(cls, "id, name or namespace of the loaded transform")
    d = specs.compare_results(spec["nodes"], built, loaded, vals)
    if d:
        raise Violation(cls, "loaded transform" + d)


def has_type(nodes, *types):
    return any(n["t"] in types or has_type(n.get("nodes", ()), *types) for n in nodes)


def whole(ctx, spec, pl, vals):
    """The result of the whole transform, or None where it cannot be processed."""
    if has_type(spec["nodes"], "ColorCorrection"):
        return None
    return specs.result_of(pl, vals)
