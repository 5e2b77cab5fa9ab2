"""P12: self-contained saves and loaded transforms outlive the files they refer to."""

import errno

import env
import inject
import specs
from core import Violation
from scen import DIR, active, call, clf, count_ops, draw_fault, jump_clock, load, machine, must, plain, resize, save, shape

RUNS = {"quick": (5000, 90), "thorough": (200000, 1500)}
RULE = ("Seeded histories over chains of files that refer to each other, inside groups and lists, up to five levels: load, "
        "then delete, replace, cut, overwrite or block any of the files, process, save, save self-contained, die, load "
        "again; and loads while one of the files is damaged; non-trivial: distinct event log in which a file was changed "
        "or a fault fired.")
STATES = "distinct (what happened to which file, nesting, compression, step, outcome) combinations"
REAL = ["aces.clf load, save and process", "xml.etree, expat and minidom", "gzip, zlib, Python buffered and text I/O", "numpy"]
STUB = ["system calls below Python's raw files: in-memory disk with injected errors", "clock", "process life"]
ASSUMES = ["a file a transform refers to that does not exist is passed over by design",
           "transforms with floating point bit depths: adapters that a splice adds between them do not round",
           "a change of a plain file that leaves it a well-formed transform is a different transform, not damage"]

LEAF = ["Matrix", "Range", "LUT1D", "LUT3D", "ASC_CDL", "ExposureContrast", "Gamma", "Log"]
EXACT = ["Range", "ASC_CDL", "ExposureContrast", "Gamma", "Log"]
FD = specs.FLOATS


def refs_in(nodes):
    out = []
    for n in nodes:
        if n["t"] == "Reference":
            out.append(n["base"] + "/" + n["path"] if n["base"] else n["path"])
        out += refs_in(n.get("nodes", ()))
    return out


def processable(n):
    """Leaves out parameter sets that nothing can process."""
    if n["t"] == "Gamma" and len(n["params"]) == 1 and n["params"][0][2] is not None and "mon" in n["style"]:
        n["params"][0][2] = None
    if n["t"] == "Matrix" and len(n["dims"]) > 2 and n["dims"][1] == 4:
        n["dims"] = n["dims"][:2]
    for k in n.get("nodes", ()):
        processable(k)


class Files(object):
    """A chain of files on the simulated disk: path -> spec, in the order they were written."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.specs = {}
        self.gz = {}
        self.depth = {}

    def make(self, path, refs, types, **kw):
        ctx, c = self.ctx, self.ctx.c
        ref_bias = ["Reference"] * (3 if refs else 0) + ["Group"]
        g = specs.Gen(c, types=types + ref_bias, depths=FD, rich=c.flag(0.3), refs=refs, groups=2, wild=False, **kw)
        s = g.list()
        for n in s["nodes"]:
            processable(n)
        self.specs[path] = s
        self.gz[path] = c.flag(0.4)
        self.depth[path] = 1 + max([self.depth.get(r, 0) for r in refs_in(s["nodes"])] + [0])
        return s

    def reach(self, path):
        """Every file that loading path opens."""
        seen = []
        todo = [path]
        while todo:
            p = todo.pop()
            if p not in seen and p in self.specs:
                seen.append(p)
                todo += refs_in(self.specs[p]["nodes"])
        return sorted(seen)


def harm(ctx, w, path, old, gz):
    """Something happens to a stored file. Returns what."""
    c = ctx.c
    how = c.pick(["delete", "replace", "cut", "garbage", "blocked", "directory", "empty"])
    if how == "delete":
        w.delete(path)
    elif how == "replace":
        g = specs.Gen(c, types=["Matrix", "ASC_CDL"], depths=FD, rich=False, wild=False, bypass=False)
        save(specs.build(clf, g.list()), path, c.flag(0.4))
    elif how == "cut":
        w.put(path, old[:c.choose(max(1, len(old.rstrip()) - 1))])
    elif how == "garbage":
        w.put(path, c.pick([b"\0" * 4000, b"<ProcessList", b"\x1f\x8b\x08", b"not a file"]))
    elif how == "empty":
        w.put(path, b"")
    elif how == "blocked":
        w.sticky.append((("open",), errno.EACCES, path))
    elif how == "directory":
        w.delete(path)
        w.dirs.add(path)
    ctx.fault("file-" + how)
    return how


def heal(w, path, data):
    w.dirs.discard(path)
    w.sticky = [s for s in w.sticky if s[2] != path]
    w.put(path, data)


def body(data):
    """Where the compressed data starts: the file name and the time before it are not content."""
    return data.index(b"\0", 10) + 1 if data[3] & 8 else 10


def has_refs(model):
    return model[0] == "Reference" or any(has_refs(k) for k in model[3])


def run(ctx):
    c = ctx.c
    w = machine(ctx)
    fs = Files(ctx)
    paths = [DIR + "/r%d.clf" % i for i in range(1 + c.choose(4))]
    probes = [[0.25, 0.5, 0.75], [c.choose(1024) / 512.0 - 0.5, 0.125, c.choose(512) / 512.0]]

    def results(pl):
        return [specs.result_of(pl, v) for v in probes]

    with active(w):
        top = DIR + "/main.clf"
        for i, p in enumerate(paths):
            s = fs.make(p, paths[:i], LEAF, maxnodes=4)
            save(specs.build(clf, s), p, fs.gz[p])
        in_memory = c.flag(0.3)
        spec = fs.make(top, paths, EXACT if in_memory else LEAF, maxnodes=4)
        built = must(ctx, lambda: specs.build(clf, spec), "build-fails", "building")
        must(ctx, lambda: save(built, top, fs.gz[top]), "save-fails", "saving")
        used = [p for p in fs.reach(top) if p != top]
        stored = {p: w.get(p) for p in used + [top]}
        ctx.log("files", len(used), fs.depth[top], specs.describe(spec))

        if used and c.flag(0.3):
            return damaged(ctx, w, fs, top, used, stored, results)

        before = len(w.opened)
        pl = built if in_memory else must(ctx, lambda: load(top), "load-fails", "loading")
        first = results(pl)
        if c.flag(0.5):
            # an interrupted or failed self-contained save beforehand
            ops, _ = count_ops(ctx, w, lambda: save(pl, DIR + "/x.clf", False, True))
            f = draw_fault(ctx, ops)
            if f is not None and c.flag(0.5):
                w.arm(*f)
                call(lambda: save(pl, DIR + "/x.clf", False, True))
                w.disarm()
                w.sticky = []
            elif c.flag(0.5):
                count = inject.Lines(w=w)
                with count:
                    call(lambda: save(pl, DIR + "/x.clf", False, True))
                exc = c.pick([KeyboardInterrupt, MemoryError])
                with inject.Lines(c.choose(max(1, count.count)), exc, w) as ln:
                    call(lambda: save(pl, DIR + "/x.clf", False, True))
                if ln.fired:
                    ctx.fault(exc.__name__ + "@line")
        w.collect()
        own = []            # self-contained files so far: (path, results)
        refd = None         # an ordinary save of the loaded transform
        trail = []
        for step in range(2 + c.choose(5)):
            act = c.pick(["harm", "own", "process", "save", "load-own", "other", "die"], [5, 4, 2, 2, 3, 1, 1])
            trail.append(act)
            ctx.log("step", act)
            if act == "harm" and used + [top]:
                p = c.pick(used + [top])
                heal(w, p, stored[p])
                act += ":" + harm(ctx, w, p, stored[p], fs.gz[p])
            elif act == "own":
                p = DIR + "/own%d.clf" % len(own)
                gz = c.flag(0.4)
                now = len(w.opened)
                must(ctx, lambda: save(pl, p, gz, True), "own-save-fails",
                     "saving self-contained")
                m = specs.file_model(plain(w.get(p)))
                ctx.check(not has_refs(m), "own-refers", lambda: "the self-contained file of %s still refers to files" %
                          specs.describe(spec))
                own.append(p)
                stored[p] = w.get(p)
            elif act == "process":
                pass
            elif act == "save":
                p = DIR + "/plain.clf"
                must(ctx, lambda: save(pl, p, c.flag(0.3)), "save-fails", "saving")
                d = specs.differ(specs.expect(spec), specs.file_model(plain(w.get(p))))
                ctx.check(d is None, "save-changed", lambda: "an ordinary save after %s: %s" % (trail, d))
            elif act == "other":
                # other transforms over the same files come and go
                got = call(lambda: load(c.pick(used + [top])))
                if got[0] == "ok":
                    results(got[1])
            elif act == "die":
                if own and c.flag(0.5):
                    w.restart()
                    ctx.fault("process-death")
                    # the new process only has the files
                    p = c.pick(own)
                    pl = must(ctx, lambda: load(p), "own-load-fails", "loading the self-contained file")
                    spec = None
                    in_memory = False
                    got = results(pl)
                    ctx.check(got == first, "own-results", lambda: "self-contained file loaded by a new process: %s instead of %s" % (
                        list(map(specs.show, got)), list(map(specs.show, first))))
                    for q in used + [top]:
                        heal(w, q, stored[q])
                    own_only(ctx, w, own, stored, first, results, trail)
                    return
            elif act == "load-own" and own:
                p = c.pick(own)
                now = len(w.opened)
                got = must(ctx, lambda: load(p), "own-load-fails", "loading the self-contained file")
                others = sorted(set(q for q, m in w.opened[now:]) - {p})
                ctx.check(not others, "own-opens", lambda: "loading the self-contained file opened %s" % others)
                r = results(got)
                ctx.check(r == first, "own-results", lambda: "self-contained file of %s: %s instead of %s" % (
                    specs.describe(spec), list(map(specs.show, r)), list(map(specs.show, first))))
            jump_clock(ctx, w)
            resize(ctx, w)
            now = len(w.opened)
            got = results(pl)
            ctx.check(got == first, "results-changed", lambda: "after %s the loaded transform gives %s instead of %s" % (
                trail, list(map(specs.show, got)), list(map(specs.show, first))))
            ctx.check(len(w.opened) == now, "process-opens", lambda: "processing opened %s" % (w.opened[now:],))
            ctx.state((act, fs.depth[top], len(used), in_memory, len(own)))
        own_only(ctx, w, own, stored, first, results, trail)


def own_only(ctx, w, own, stored, first, results, trail):
    """Nothing is left but the self-contained files."""
    if not own:
        return
    for q in list(w.files):
        if q not in own:
            w.delete(q)
    w.restart()
    ctx.fault("all-other-files-gone")
    for p in own:
        ctx.check(w.get(p) == stored[p], "own-file-changed", lambda: "%s changed after it was saved" % p)
        got = must(ctx, lambda: load(p, ctx.c.flag(0.5)), "own-load-fails", "loading the self-contained file")
        r = results(got)
        ctx.check(r == first, "own-results", lambda: "self-contained file alone on the disk, after %s: %s instead of %s" % (
            trail, list(map(specs.show, r)), list(map(specs.show, first))))


def damaged(ctx, w, fs, top, used, stored, results):
    """One of the files is there but cannot be read completely: loading what refers to it fails."""
    c = ctx.c
    good = results(must(ctx, lambda: load(top), "load-fails", "loading"))
    for k in range(1 + c.choose(3)):
        p = c.pick(used)
        how = c.pick(["cut", "garbage", "empty", "blocked", "directory", "read", "stat", "flip", "hole", "later"])
        old = stored[p]
        sure = True
        if how == "cut":
            w.put(p, old[:c.choose(max(1, len(old.rstrip()) - 1))])
        elif how == "garbage":
            w.put(p, c.pick([b"\0" * 4000, b"<ProcessList", b"\x1f\x8b\x08", b"not a file"]))
        elif how == "empty":
            w.put(p, b"")
        elif how == "blocked":
            w.sticky.append((("open",), c.pick([errno.EACCES, errno.EIO, errno.EMFILE]), p))
        elif how == "directory":
            w.delete(p)
            w.dirs.add(p)
        elif how == "read":
            w.sticky.append((("read",), errno.EIO, p))
        elif how == "stat":
            w.sticky.append((("stat",), c.pick([errno.EACCES, errno.EIO]), p))
            sure = False        # a loader may not need it
        elif how == "flip" and fs.gz[p]:
            i = body(old) + c.choose(len(old) - body(old))
            w.put(p, old[:i] + bytes([old[i] ^ (1 << c.choose(8))]) + old[i + 1:])
        elif how == "hole":
            lo = body(old) if fs.gz[p] else 1
            i = lo + c.choose(len(old) - 1 - lo)
            n = 1 + c.choose(len(old) - i)
            w.put(p, old[:i] + b"\0" * n + old[i + n:])
            sure = w.get(p) != old
        else:
            how = "cut"
            w.put(p, old[:c.choose(max(1, len(old.rstrip()) - 1))])
        ctx.fault("reference-" + how)
        ctx.log("damaged", p, how)
        # what is broken is broken for everything that leads to it
        for q in [top] + [x for x in fs.reach(top) if x != top and p in fs.reach(x)]:
            if q == p:
                continue
            strict = c.flag(0.3)
            got = call(lambda: load(q, strict))
            ctx.state((how, fs.depth[q], fs.gz[p], got[0]))
            if got[0] == "ok":
                r = results(got[1])
                ctx.check(not sure and r == good if q == top else not sure, "damage-passed-over", lambda: (
                    "%s was %s, but loading %s, which refers to it, returned normally" % (p, how, q)))
        heal(w, p, old)
        again = results(must(ctx, lambda: load(top), "retry-fails", "loading after the file was whole again"))
        ctx.check(again == good, "retry-wrong", "other results after the file was whole again")
