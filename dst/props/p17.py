"""P17: what was done with a transform never shows in it."""

import copy
import pickle

import numpy as np

import env
import imgs
import inject
import simoiio
import specs
from env import filt, lutFormats
from props import p13
from scen import DIR, active, call, clf, draw_fault, jump_clock, load, machine, plain, resize, save

RUNS = {"quick": (4000, 150), "thorough": (120000, 1500)}
NEEDS_FAULT = False
RULE = ("Seeded histories of one transform object: edits through its setters, and between them uses - processing whole and node "
        "by node, saves, exports, filter runs, printing, copies, with the feature switch changed, on a full disk, with injected "
        "errors and interrupts; what it holds, computes and saves is compared with a transform made anew that had only the "
        "edits; non-trivial: distinct event log.")
STATES = "distinct (use, edit that follows it, node kind, how the use ended) combinations"
REAL = ["aces.clf, the exporters of aces.lutFormats, single-threaded filter", "xml.etree, expat, minidom, gzip, Python buffered and text I/O",
        "numpy", "pickle, copy"]
STUB = ["system calls below Python's raw files", "OpenImageIO", "clock"]
ASSUMES = ["edits go through the setters; tables handed out by getters are not written to",
           "an edit itself is not interrupted"]

LEAF = ["Matrix", "Range", "LUT1D", "LUT3D", "ASC_CDL", "ExposureContrast", "Gamma", "Log"]
PROBES = [([0.25, 0.5, 0.75], 3), ([-0.125, 1.5, 0.0, 0.9, 0.9, 0.1], 3), ([0.18, 0.9, 0.33, 0.5], 4), ([0.4, 0.6, 0.7], 0)]


def at(pl, where):
    x = pl
    for i in where:
        x = x[i] if isinstance(x, clf.ProcessList) else x.getProcesses()[i]
    return x


def places(nodes, where=()):
    out = []
    for i, n in enumerate(nodes):
        out.append((where + (i,), n))
        out += places(n.get("nodes", ()), where + (i,))
    return out


# -- edits -----------------------------------------------------------------------------------

class Edit(object):
    """A call of one setter, repeatable on any transform of the same make."""

    def __init__(self, where, name, *args):
        self.where, self.name, self.args = where, name, copy.deepcopy(args)

    def apply(self, pl):
        x = at(pl, self.where)
        args = copy.deepcopy(self.args)
        if self.name == "addProcess":
            x.addProcess(specs.build_node(clf, args[0]))
        elif self.name == "addElement":
            x.addElement(clf.Description(args[0]))
        else:
            getattr(x, self.name)(*args)

    def __str__(self):
        return "%s%s" % (self.name, list(self.where))


def draw_edit(c, nodes, gen):
    """An edit, and what kind of node it is for."""
    if not nodes or c.flag(0.12):
        kind = c.pick(["add", "setID", "setName", "setInBitDepth", "setOutBitDepth", "element", "attribute"], [3, 1, 1, 2, 2, 1, 1])
        if kind == "add":
            n = gen.node(1)
            nodes.append(n)
            return Edit((), "addProcess", n), "list"
        if kind == "element":
            return Edit((), "addElement", "later"), "list"
        if kind == "attribute":
            return Edit((), "setAttribute", "custom", c.pick(["x", "y"])), "list"
        return Edit((), kind, c.pick(specs.DEPTHS) if "Depth" in kind else c.pick(["n1", "n2"])), "list"
    where, n = c.pick(places(nodes))
    t = n["t"]
    new = gen.node(1, types=[t])
    if t == "Group" and c.flag(0.5):
        k = gen.node(0, types=LEAF)
        n["nodes"].append(k)
        return Edit(where, "addProcess", k), t
    if c.flag(0.7):
        e = own_edit(c, where, n, new)
        if e is not None:
            return e, t
    kind = c.pick(["in", "out", "in-attr", "out-attr", "bypass", "name", "desc", "dyn", "style", "extra"], [3, 3, 1, 1, 2, 1, 1, 1, 2, 1])
    if kind == "in":
        return Edit(where, "setInBitDepth", c.pick(specs.DEPTHS)), t
    if kind == "out":
        return Edit(where, "setOutBitDepth", c.pick(specs.DEPTHS)), t
    if kind == "desc":
        return Edit(where, "addElement", "later"), t
    if kind == "dyn":
        return Edit(where, "setDynamicParam", "LATER"), t
    if kind == "style":
        if "interp" in new:
            return Edit(where, "setAttribute", "interpolation", new["interp"]), t
        if new.get("style"):
            return Edit(where, "setAttribute", "style", new["style"]), t
    name, value = {"in-attr": ("inBitDepth", c.pick(specs.DEPTHS)), "out-attr": ("outBitDepth", c.pick(specs.DEPTHS)),
                   "bypass": ("bypass", True), "name": ("name", "n3"), "extra": ("extra", "e")}.get(kind, ("id", "i3"))
    return Edit(where, "setAttribute", name, value), t


def own_edit(c, where, n, new):
    t = n["t"]
    if t == "Matrix":
        return Edit(where, "setMatrix", new["dims"], new["values"], new["enc"])
    if t == "LUT1D":
        if not n["maps"] and new["maps"] and c.flag(0.5):
            n["maps"] = new["maps"]
            return Edit(where, "setIndexMaps", *new["maps"])
        return Edit(where, "setArray", new["ch"], new["values"], new["enc"])
    if t == "LUT3D":
        if not n["maps"] and new["maps"] and c.flag(0.5):
            n["maps"] = new["maps"]
            return Edit(where, "setIndexMaps", *new["maps"])
        return Edit(where, "setArray", new["dims"], new["values"], new["enc"])
    if t == "Range":
        what = c.pick(["style", "default"] + 4 * sorted(new["vals"]))
        if what == "style":
            return Edit(where, "setStyle", new["style"])
        if what == "default":
            return Edit(where, "setDefaultRange", c.pick([True, None]))
        return Edit(where, "set" + what[0].upper() + what[1:], new["vals"][what])
    if t in ("ASC_CDL", "ColorCorrection"):
        what = c.pick(["slope", "offset", "power", "sat"])
        if what == "sat":
            return Edit(where, "setSaturation", new["sat"])
        return Edit(where, "set" + what.capitalize(), *new[what])
    if t == "ExposureContrast":
        return Edit(where, "setExposureContrastPivot", *new["ec"])
    if t == "Gamma" and new["params"]:
        return Edit(where, "setGamma", *new["params"][0])
    if t == "Log" and new["params"]:
        return Edit(where, "setLogParams", *new["params"][0])
    if t == "Reference":
        if c.flag(0.5):
            return Edit(where, "setPaths", new["path"], new["base"], new["alias"])
        return Edit(where, "setWriteReferencedNodes", True)
    return None


# -- uses ------------------------------------------------------------------------------------

def look(pl):
    p13.visible(pl)
    list(pl)
    len(pl)


def narrow(pl):
    pl.printInfo()


def export(pl, path, fmt, layout):
    kw = {"1D": {"lutResolution1d": 4}, "3D": {"lutResolution3d": 2}, "13": {"lutResolution1d3d1d": [3, 2, 2]}}[layout]
    data = {"1D": lutFormats.LUTDATAFORMAT_1D, "3D": lutFormats.LUTDATAFORMAT_3D, "13": lutFormats.LUTDATAFORMAT_1D_3D_1D}[layout]
    lutFormats.Registry.write(pl, path + "." + fmt, data, **kw)


def draw_use(ctx, nodes):
    c = ctx.c
    what = c.pick(["process", "node", "save", "write", "export", "filter", "look", "print", "load-again"], [6, 4, 4, 1, 2, 0.7, 1, 1, 1])
    path = DIR + "/u%d" % c.choose(2)
    if what == "process":
        vals, stride = c.pick(PROBES)
        form = c.pick([list, tuple, lambda v: np.array(v, np.float32), lambda v: np.array(v, np.float64)])
        loud, times = c.flag(0.05), c.pick([1, 3])
        return what, lambda pl: [pl.process(form(vals), stride, verbose=loud) for i in range(times)]
    if what == "node" and nodes:
        where = c.pick(places(nodes))[0]
        vals, stride = c.pick(PROBES)
        return what, lambda pl: at(pl, where).process(np.array(vals, np.float32), stride)
    if what == "save":
        gz, own = c.flag(0.4), c.flag(0.3)
        return "save" + " own" * own, lambda pl: save(pl, path + ".clf", gz, own)
    if what == "write":
        return what, lambda pl: pl.write()
    if what == "export":
        fmt, layout = c.pick([("spi1d", "1D"), ("spi3d", "3D"), ("csp", "1D"), ("csp", "3D"), ("csp", "13"), ("clf", "13"), ("ctl", "1D")])
        return what, lambda pl: export(pl, path, fmt, layout)
    if what == "filter":
        img, kind, vals = imgs.make_image(ctx, rows=1 + c.choose(2))
        simoiio.images()[path + ".in"] = img
        return what, lambda pl: filt.filterImageWithCLF(path + ".in", path + ".out", pl, outBitDepth="32f", multithreaded=1)
    if what == "print":
        return what, narrow
    if what == "load-again":
        return what, lambda pl: pl.readFile(DIR + "/nothing.clf")
    return "look", look


def use(ctx, w, pl, nodes):
    """Something is done with the transform. Returns what, how it ended."""
    c = ctx.c
    what, do = draw_use(ctx, nodes)
    how = c.pick(["plain", "fault", "line", "full", "features", "library"], [6, 1.5, 3, 0.5, 1.5, 0.5])
    if how == "plain":
        got = call(lambda: do(pl))
    elif how == "features":
        env.set_features(c.pick([0, 1, 2, 3]))
        got = call(lambda: do(pl))
        env.set_features(15)
    elif how == "full":
        w.full_at = c.choose(c.pick([100, 2000, 20000]))
        got = call(lambda: do(pl))
        w.full_at = None
    elif how == "fault":
        twin = copy.deepcopy(pl)
        w.ops = []
        call(lambda: do(twin))
        ops, w.ops = w.ops, None
        w.collect()
        f = draw_fault(ctx, ops)
        if f is not None:
            w.arm(*f)
        got = call(lambda: do(pl))
        w.disarm()
        w.sticky = []
    else:
        with inject.Lines(c.choose(c.pick([10, 60, 400, 3000])), c.pick([KeyboardInterrupt, MemoryError]), w,
                          library=how == "library") as ln:
            got = call(lambda: do(pl))
        if ln.fired:
            ctx.fault("interrupt@line")
            how += "!"
    w.collect()
    return what, how, "ok" if got[0] == "ok" else type(got[1]).__name__


# -- the histories ----------------------------------------------------------------------------

def results(pl, nodes):
    """What it computes, as a whole and node by node."""
    out = [specs.result_of(pl, v, s) for v, s in PROBES[:3]]
    for where, n in places(nodes):
        out.append(specs.outcome(lambda: at(pl, where).process(np.array(PROBES[1][0], np.float32), 3)))
    return out


def saved(ctx, w, pl, name, own):
    got = call(lambda: save(pl, "%s/%s.clf" % (DIR, name), False, own))
    w.collect()
    if got[0] == "err":
        return "%s: %s" % (type(got[1]).__name__, got[1])
    return plain(w.get("%s/%s.clf" % (DIR, name)))


def run(ctx):
    c = ctx.c
    w = machine(ctx)
    with active(w):
        refs = []
        if c.flag(0.25):
            for k in range(2):
                r = specs.Gen(c, types=LEAF[:3], rich=False, wild=False, maxnodes=2).list()
                save(specs.build(clf, r), DIR + "/r%d.clf" % k)
                refs.append(DIR + "/r%d.clf" % k)
        # half of the runs put everything on one kind of node
        focus = c.flag(0.5)
        kinds = [c.pick(LEAF)] if focus else LEAF + ["Group"] + ["Reference"] * (2 if refs else 0)
        gen = specs.Gen(c, types=kinds, rich=False, refs=refs, groups=2, maxnodes=1 if focus else 3, wild=c.flag(0.2), encodings=c.flag(0.3))
        spec = gen.list()
        loaded = c.flag(0.3)
        start = DIR + "/start.clf"
        if loaded:
            save(specs.build(clf, spec), start, c.flag(0.3))
        make = (lambda: load(start)) if loaded else (lambda: specs.build(clf, copy.deepcopy(spec0)))
        spec0 = copy.deepcopy(spec)
        nodes = spec["nodes"]
        pl = make()
        edits, trail, kept = [], [], []
        ctx.summary = [specs.describe(spec), loaded]
        ctx.log("start", specs.describe(spec), loaded)
        last = None
        for step in range(2 + c.choose(7)):
            for k in range(c.pick([1, 2, 3], [3, 2, 1])):
                last = use(ctx, w, pl, nodes)
                trail.append("%s (%s): %s" % last)
                ctx.log("use", *last)
            if c.flag(0.12):
                # goes on with a copy; the original stays what it is
                how = c.pick(["pickle", "deepcopy"])
                kept.append((pl, list(edits), copy.deepcopy(nodes), list(trail)))
                pl = pickle.loads(pickle.dumps(pl, 2)) if how == "pickle" else copy.deepcopy(pl)
                trail.append(how)
                ctx.log("copy", how)
            if c.flag(0.8):
                e, t = draw_edit(c, nodes, gen)
                e.apply(pl)
                edits.append(e)
                trail.append("EDIT " + str(e))
                ctx.log("edit", str(e))
                ctx.state((last[0], last[2], e.name, t))
            jump_clock(ctx, w)
            resize(ctx, w)
            if c.flag(0.3):
                judge(ctx, w, pl, edits, nodes, make, trail)
        judge(ctx, w, pl, edits, nodes, make, trail)
        for old in kept:
            judge(ctx, w, old[0], old[1], old[2], make, old[3] + ["(continued with a copy)"])


def judge(ctx, w, pl, edits, nodes, make, trail):
    """The used transform and one that had only the edits."""
    fresh = make()
    for e in edits:
        e.apply(fresh)
    story = lambda: "; ".join(trail)
    a, b = p13.visible(pl), p13.visible(fresh)
    ctx.check(a == b, "content", lambda: "after [%s] it holds: %s" % (story(), p13.changed(b, a)))
    a, b = results(pl, nodes), results(fresh, nodes)
    bad = [i for i, (x, y) in enumerate(zip(a, b)) if x != y]
    ctx.check(not bad, "result", lambda: "after [%s] result %d is %s instead of %s" % (
        story(), bad[0], specs.show(a[bad[0]]), specs.show(b[bad[0]])))
    for own in (False, True):
        x, y = saved(ctx, w, pl, "x", own), saved(ctx, w, fresh, "x", own)
        ctx.check(x == y, "saved", lambda: "after [%s] it is saved %sdifferently: %s" % (
            story(), "self-contained " if own else "",
            p13.first_difference(y, x) if isinstance(x, bytes) and isinstance(y, bytes) else "%.200r instead of %.200r" % (x, y)))
