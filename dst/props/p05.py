"""P05: an acknowledged save reads back as the same transform."""

import copy

import env
import specs
from core import Violation
from scen import (DIR, active, call, check_loaded, clf, gen_spec, jump_clock, load, machine, must, plain, resize, save,
                  valid_content, whole)

RUNS = {"quick": (5000, 90), "thorough": (200000, 1500)}
NEEDS_FAULT = False
RULE = ("Seeded histories of saves of generated transforms (every node kind, encoding, attribute and text class) over two "
        "paths with earlier content, short reads and writes, clock jumps and process deaths in between; non-trivial: a "
        "distinct event log.")
STATES = "distinct (node kinds and encodings, compression, earlier content, ending) combinations"
REAL = ["aces.clf save, load and process", "xml.etree, expat and minidom", "gzip, zlib, Python buffered and text I/O", "numpy"]
STUB = ["system calls below Python's raw files: in-memory disk (short reads and writes, descriptors)", "clock", "process life"]
ASSUMES = ["text without control characters; attribute text without tabs and line breaks (XML normalises them)",
           "a saving process that dies after the save returned leaves the page cache intact; power loss is P06"]


def edit(c, spec):
    """The same transform with two entries of a table exchanged or another letter in its id."""
    spec = copy.deepcopy(spec)
    nodes = [n for n in spec["nodes"] if n.get("values") and len(set(n["values"])) > 1]
    if nodes and c.flag(0.7):
        v = c.pick(nodes)["values"]
        i = c.choose(len(v))
        j = [k for k in range(len(v)) if v[k] != v[i]]
        j = j[c.choose(len(j))]
        v[i], v[j] = v[j], v[i]
    else:
        spec["attrs"]["id"] = "b" if spec["attrs"].get("id") == "a" else "a"
    return spec


def run(ctx):
    c = ctx.c
    w = machine(ctx)
    refs = []
    paths = [DIR + "/a.clf", DIR + "/b \u00e9.clf"]
    disk = {}           # path -> (spec, built)
    with active(w):
        if c.flag(0.25):
            r = specs.Gen(c, types=["Matrix", "Range", "ASC_CDL"], rich=False, bypass=False).list()
            save(specs.build(clf, r), DIR + "/ref.clf")
            refs.append(DIR + "/ref.clf")
        for p in paths[:c.choose(3)]:
            kind = c.choose(3)
            w.put(p, [b"x" * 40000, b"\x1f\x8b" + b"\0" * 3000, b"<ProcessList/>"][kind])
            ctx.log("earlier", kind)
        steps = 1 + c.pick([0, 1, 2], [5, 3, 1])
        for k in range(steps):
            path = c.pick(paths)
            spec, gz = None, c.flag(0.4)
            if path in disk and c.flag(0.5):
                # an edit of what is there, that often leaves the length of the file as it was
                spec, gz = edit(c, disk[path][0]), disk[path][2]
                ctx.probe("edited-in-place")
            spec = spec or gen_spec(ctx, refs=refs, groups=2 if c.flag(0.2) else 1)
            need = specs.features_needed(spec) | (2 if gz else 0)
            feats = c.pick([15] + [f for f in (0, 1, 2, 3) if f & need == need])
            built = must(ctx, lambda: specs.build(clf, spec), "build-fails", "building the transform")
            env.set_features(feats)
            ctx.log("save", path, gz, feats, specs.describe(spec))
            got = must(ctx, lambda: save(built, path, gz), "save-fails", "saving")
            disk[path] = (spec, built, gz, feats)
            jump_clock(ctx, w)
            resize(ctx, w)
            end = c.pick(["go on", "die", "collect"])
            if end == "die":
                w.restart()
                ctx.fault("process-death-after-save")
            elif end == "collect":
                w.collect()
            ctx.state((specs.describe(spec), gz, end))
        w.collect()
        for path in sorted(disk):
            spec, built, gz, feats = disk[path]
            env.set_features(feats)
            data = w.get(path)
            m = valid_content(data)
            ctx.check(m is not None, "stored-file-broken", lambda: "%s is not a complete file: %r..." % (path, data[:200]))
            ctx.check((data[:2] == b"\x1f\x8b") == gz, "compression", "the file is %scompressed" % ("not " if gz else ""))
            d = specs.differ(specs.expect(spec), m)
            ctx.check(d is None, "stored-content", lambda: "stored file: " + d)
            loaded = must(ctx, lambda: load(path, c.flag(0.3)), "load-fails", "loading")
            vals = [v / 512.0 for v in (c.choose(1024), c.choose(1024) - 256, c.choose(512))]
            check_loaded(ctx, spec, built, loaded, vals, "content-changed")
            # the next generation is exactly equal
            res = whole(ctx, spec, loaded, vals)
            path2 = DIR + "/copy"
            must(ctx, lambda: save(loaded, path2, gz and c.flag(0.5)), "save-fails", "saving the loaded transform")
            again = must(ctx, lambda: load(path2), "load-fails", "loading the copy")
            check_loaded(ctx, spec, built, again, vals, "copy-changed")
            if res is not None:
                got = whole(ctx, spec, again, vals)
                ctx.check(got == res, "copy-results", lambda: "%s instead of %s" % (specs.show(got), specs.show(res)))
