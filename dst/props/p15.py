"""P15: the feature switch governs every later operation, whatever came before."""

import copy

import env
import inject
import specs
from core import Violation
from env import lclf
from scen import DIR, active, call, clf, count_ops, draw_fault, load, machine, must, plain, resize, save

RUNS = {"quick": (9000, 90), "thorough": (150000, 1500)}
NEEDS_FAULT = False
RULE = ("Seeded histories of switching features and of strict and lenient loads, plain and compressed saves and processing of "
        "several live transforms and files that use the extensions, with refused, failing and interrupted operations in "
        "between; non-trivial: distinct event log.")
STATES = "distinct (setting, operation, extensions in use, outcome) combinations"
REAL = ["aces.clf load, save and process", "xml.etree, expat and minidom", "gzip, zlib, Python buffered and text I/O", "numpy"]
STUB = ["system calls below Python's raw files: in-memory disk with injected errors", "clock"]
ASSUMES = ["floating point bit depths: adapters next to bypassed nodes do not round"]

SETS = [0, 1, 2, 3, 15]
FD = specs.FLOATS
CTF_STYLES = ("v1.2_Fwd", "noClampFwd", "v1.2_Rev", "noClampRev")


def walk(nodes):
    for n in nodes:
        yield n
        for k in walk(n.get("nodes", ())):
            yield k


def encoded(spec):
    return any(n.get("enc", "string") != "string" for n in walk(spec["nodes"]))


def refused_strict(spec, feats):
    """Whether strict loading of the file of spec has to be refused."""
    for n in walk(spec["nodes"]):
        if n["t"] in specs.AUTODESK and not feats & 1:
            return True
        if n["t"] == "Group" and not feats & 2:
            return True
        if n["dyn"] and not feats & 1:
            return True
    return False


def applied(nodes, feats):
    """The nodes that process colours under a setting, none of them bypassed."""
    out = []
    for n in nodes:
        if n["bypass"] and feats & 1:
            continue
        m = dict(n, bypass=False)
        if n["t"] == "Group":
            m["nodes"] = applied(n["nodes"], feats)
        out.append(m)
    return out


def expected_result(t, feats, vals, files):
    """What processing gives, from transforms without any bypass flag, under the full setting."""
    spec = t.spec
    nodes = flatten(spec["nodes"], feats, files)
    if any(n["t"] == "ASC_CDL" and n["style"] in CTF_STYLES for n in nodes) and not feats & 1:
        return ("err", "UnsupportedExtensionError")
    keep = clf.getFeatureCompatibility()
    env.set_features(15)
    try:
        pl = specs.build(clf, {"attrs": {"id": "x"}, "elements": [], "nodes": nodes})
        if t.loaded:
            # tables that were lists of Python floats become 32 bit floats when loaded
            save(pl, DIR + "/oracle.clf")
            pl = load(DIR + "/oracle.clf")
        return specs.result_of(pl, vals)
    finally:
        env.set_features(keep)


def flatten(nodes, feats, files):
    out = []
    for n in applied(nodes, feats):
        if n["t"] == "Group":
            out += flatten(n["nodes"], feats, files)
        elif n["t"] == "Reference":
            out += flatten(files[n["base"] + "/" + n["path"] if n["base"] else n["path"]]["nodes"], feats, files)
        else:
            out.append(n)
    return out


class Live(object):
    def __init__(self, spec, pl, loaded=False):
        self.spec, self.pl, self.loaded = spec, pl, loaded


def tidy(nodes):
    for n in walk(nodes):
        if n["t"] == "Gamma" and "mon" in n["style"] and len(n["params"]) == 1:
            n["params"][0][2] = None
        if n["t"] == "Matrix":
            n["dims"] = n["dims"][:2]


def run(ctx):
    c = ctx.c
    w = machine(ctx)
    vals = [0.25, 0.5, 0.75]
    with active(w):
        files = {}      # path -> spec of what is stored there
        gzs = {}
        live = []
        refpath = DIR + "/ref.clf"
        types = ["Matrix", "Range", "LUT1D", "ASC_CDL", "ASC_CDL", "ExposureContrast", "Gamma", "Log", "Group"]
        g = specs.Gen(c, types=["ASC_CDL", "Range"], depths=FD, rich=False, wild=False, encodings=False, dyn=False)
        s = g.list()
        tidy(s["nodes"])
        save(specs.build(clf, s), refpath)
        refs = [refpath]
        inner = {refpath: s}
        for i in range(1 + c.choose(3)):
            g = specs.Gen(c, types=types + ["Reference"] * (1 if c.flag(0.3) else 0), depths=FD, rich=False, wild=False,
                          groups=2, refs=refs)
            s = g.list()
            tidy(s["nodes"])
            if c.flag(0.35):
                # nothing but the core of the format
                s["nodes"] = [dict(n, dyn=[], bypass=False) for n in s["nodes"] if n["t"] in ("Matrix", "Range", "ASC_CDL", "LUT1D")]
            live.append(Live(s, specs.build(clf, s)))
            if c.flag(0.7):
                p = DIR + "/f%d.clf" % i
                gzs[p] = c.flag(0.4)
                save(live[-1].pl, p, gzs[p])
                files[p] = s
        known = {p: w.get(p) for p in files}
        feats = 15
        trail = []
        for step in range(3 + c.choose(8)):
            act = c.pick(["set", "strict", "lenient", "save", "process", "fail", "process-one"], [4, 4, 3, 4, 4, 2, 1])
            if act in ("strict", "lenient") and not files:
                act = "save"
            t = c.pick(live)
            tag = ""
            if act == "set":
                feats = c.pick(SETS) if c.flag(0.7) else c.pick([c.choose(16), 4, 5, 6, 1 << 20 | c.choose(4), 0x7fffffff])
                env.set_features(feats)
                tag = feats
            elif act in ("strict", "lenient"):
                p = c.pick(sorted(files))
                spec = files[p]
                got = call(lambda: load(p, act == "strict"))
                name = type(got[1]).__name__ if got[0] == "err" else "ok"
                tag = "%s %s %s" % (specs.describe(spec), gzs[p], name)
                if gzs[p] and not feats & 2:
                    ctx.check(got[0] == "err", "gzip-loaded", "a compressed file was loaded with the extension switched off")
                elif act == "strict" and refused_strict(spec, feats):
                    ctx.check(name == "UnsupportedExtensionError", "strict-accepts" if name == "ok" else "strict-error",
                              lambda: "strict loading of %s with setting %d: %s, after %s" % (specs.describe(spec), feats, name, trail))
                else:
                    ctx.check(name == "ok", "load-refused", lambda: "%s loading of %s with setting %d: %s: %s, after %s" % (
                        act, specs.describe(spec), feats, name, got[1], trail))
                    dyn = bool(feats & 1)
                    # what it holds shows in a full setting
                    env.set_features(15)
                    d = specs.differ(specs.expect(spec, dyn), specs.live_model(got[1]))
                    env.set_features(feats)
                    ctx.check(d is None, "loaded-content", lambda: "%s loaded with setting %d after %s: %s" % (
                        specs.describe(spec), feats, trail, d))
                    if len(live) < 5:
                        live.append(Live(spec if dyn else undyn(spec), got[1], True))
            elif act == "save":
                p = c.pick(sorted(files) + [DIR + "/new%d.clf" % step])
                gz = c.flag(0.5)
                before = w.get(p)
                got = call(lambda: save(t.pl, p, gz))
                name = type(got[1]).__name__ if got[0] == "err" else "ok"
                tag = "%s %s %s" % (specs.describe(t.spec), gz, name)
                if not feats & 2 and (gz or encoded(t.spec)):
                    ctx.check(name == "UnsupportedExtensionError", "save-accepted" if name == "ok" else "save-error",
                              lambda: "%s saving of %s with setting %d: %s, after %s" % (
                                  "compressed" if gz else "plain", specs.describe(t.spec), feats, name, trail))
                    ctx.fault("refused-save")
                    ctx.check(w.get(p) == before, "refused-changed", "a refused save changed the file")
                else:
                    ctx.check(name == "ok", "save-refused", lambda: "%s saving of %s with setting %d: %s: %s, after %s" % (
                        "compressed" if gz else "plain", specs.describe(t.spec), feats, name, got[1], trail))
                    data = w.get(p)
                    ctx.check((data[:2] == b"\x1f\x8b") == gz, "compression", "compressed or not")
                    d = specs.differ(specs.expect(t.spec), specs.file_model(plain(data)))
                    ctx.check(d is None, "saved-content", lambda: "%s saved with setting %d after %s: %s" % (
                        specs.describe(t.spec), feats, trail, d))
                    files[p], gzs[p], known[p] = t.spec, gz, data
            elif act == "process":
                got = specs.result_of(t.pl, vals)
                want = expected_result(t, feats, vals, inner)
                tag = "%s %s" % (specs.describe(t.spec), got[0])
                ctx.check(got == want, "result", lambda: "%s with setting %d after %s gives %s instead of %s" % (
                    specs.describe(t.spec), feats, trail, specs.show(got), specs.show(want)))
            elif act == "process-one":
                # a node on its own: the style is refused there too
                n = dict(copy.deepcopy(next((x for x in walk(t.spec["nodes"]) if x["t"] == "ASC_CDL"), None)) or {})
                if n:
                    node = specs.build_node(clf, n)
                    got = specs.outcome(lambda: node.process(list(vals)))
                    bad = n["style"] in CTF_STYLES and not feats & 1
                    ctx.check((got == ("err", "UnsupportedExtensionError")) == bad and (bad or got[0] == "ok"), "style", lambda: (
                        "a %s node with setting %d: %s" % (n["style"], feats, got[0] if got[0] == "ok" else got[1])))
                    tag = n["style"]
            elif act == "fail":
                tag = failing(ctx, w, t, files, feats)
            trail.append("%s:%s" % (act, str(tag).split(" ")[-1]) if act == "set" else act)
            ctx.log("step", act, feats, tag)
            ctx.state((act, feats, str(tag)))
            ctx.check(clf.getFeatureCompatibility() == feats, "setting", lambda: "%s left the setting at %r instead of %r" % (
                act, clf.getFeatureCompatibility(), feats))
            for p in files:
                ctx.check(w.get(p) == known[p], "file-changed", lambda: "%s changed %s" % (act, p))
            resize(ctx, w)
        # nothing of it left a trace in any transform
        env.set_features(15)
        for t in live:
            d = specs.differ(specs.expect(t.spec), specs.live_model(t.pl))
            ctx.check(d is None, "trace", lambda: "after %s a transform is not what it was: %s" % (trail, d))
            got, want = specs.result_of(t.pl, vals), expected_result(t, 15, vals, inner)
            ctx.check(got == want, "trace", lambda: "after %s %s gives %s instead of %s" % (
                trail, specs.describe(t.spec), specs.show(got), specs.show(want)))


def undyn(spec):
    def strip(nodes):
        return [dict(n, dyn=[], **({"nodes": strip(n["nodes"])} if "nodes" in n else {})) for n in nodes]
    return dict(spec, nodes=strip(spec["nodes"]))


def failing(ctx, w, t, files, feats):
    """An operation that fails or is interrupted. It may leave nothing behind."""
    c = ctx.c
    what = c.pick(["load", "save", "process", "bad"])
    scratch = DIR + "/scratch.clf"
    if what == "load" and files:
        p = c.pick(sorted(files))
        strict = c.flag(0.5)
        do = lambda: load(p, strict)
    elif what == "bad":
        w.put(scratch, c.pick([b"", b"<ProcessList><Group><Nope/></Group></ProcessList>", b"\x1f\x8b\x08xx", b"<a>"]))
        do = lambda: load(scratch, True)
    elif what == "process":
        do = lambda: t.pl.process([0.25, 0.5, 0.75], 3)
    else:
        gz = c.flag(0.5)
        do = lambda: save(t.pl, scratch, gz)
    mode = c.pick(["op", "line", "none"])
    if mode == "op":
        ops, _ = count_ops(ctx, w, do)
        f = draw_fault(ctx, ops)
        if f is not None:
            w.arm(*f)
        got = call(do)
        w.disarm()
        w.sticky = []
    elif mode == "line":
        count = inject.Lines(w=w)
        with count:
            call(do)
        exc = c.pick([KeyboardInterrupt, MemoryError, RuntimeError])
        with inject.Lines(c.choose(max(1, count.count)), exc, w) as ln:
            got = call(do)
        if ln.fired:
            ctx.fault("%s@line" % exc.__name__)
            ctx.log("at", ln.fired)
    else:
        got = call(do)
    w.collect()
    return "%s %s %s" % (what, mode, type(got[1]).__name__ if got[0] == "err" else "ok")
