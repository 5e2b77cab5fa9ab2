"""P06: a torn or damaged CLF file never loads as something else."""

import env
import specs
import world
from core import Violation
from scen import (DIR, active, call, check_loaded, clf, count_ops, gen_spec, jump_clock, load, machine, must, resize, save)

RUNS = {"quick": (9000, 90), "thorough": (300000, 1500)}
RULE = ("Seeded histories save / crash or damage / reload / save again: the process dies at a chosen system call of the save "
        "(with part of a write done), power is lost (unsynced files keep a prefix, lose blocks or revert), a stored file "
        "loses its tail, a compressed file gets another byte; non-trivial: distinct event log with a fault or damage.")
STATES = "distinct (compression before and after, kind of damage, outcome of the load) combinations"
REAL = ["aces.clf save, load and process", "xml.etree, expat and minidom", "gzip, zlib, Python buffered and text I/O", "numpy"]
STUB = ["system calls below Python's raw files: in-memory disk with page cache, lost blocks, lost renames", "clock", "process life"]
ASSUMES = ["saves are not synced: after a power failure an earlier acknowledged transform may be what is left",
           "a block that was never written reads as zeros or, in a file overwritten in place, as its earlier content",
           "one changed byte per compressed file; changed bytes of plain XML text cannot be told from intended ones",
           "a plain file that lost only its last line break is whole"]


def is_same(spec, built, loaded, vals):
    try:
        check_loaded(None, spec, built, loaded, vals, "x")
        return None
    except Violation as v:
        return v.detail


def run(ctx):
    c = ctx.c
    w = machine(ctx)
    path = DIR + "/t.clf"
    small = dict(rich=c.flag(0.6), maxnodes=c.pick([2, 4]), groups=1)
    vals = [0.25, 0.5, 0.875]
    stored = None
    with active(w):
        older = []
        acked = []          # transforms the path may legitimately hold
        for k in range(c.pick([1, 0, 2], [6, 3, 1])):
            spec, gz = gen_spec(ctx, **small), c.flag(0.5)
            built = specs.build(clf, spec)
            must(ctx, lambda: save(built, path, gz), "save-fails", "saving")
            older += acked
            acked = [(spec, built)]
            stored = gz
            if c.flag(0.5):
                w.sync_all()
            jump_clock(ctx, w)
        mode = c.pick(["crash", "power", "tail", "flip"], [4, 4, 3, 3]) if acked else c.pick(["crash", "power"])
        cand = list(acked)
        old = w.get(path)
        if mode in ("crash", "power"):
            spec, gz = gen_spec(ctx, **small), c.flag(0.5)
            built = specs.build(clf, spec)
            ops, _ = count_ops(ctx, w, lambda: save(built, path, gz))
            whole = mode == "power" and c.flag(0.5)
            if not whole:
                i = c.choose(len(ops))
                n = ops[i][2] if ops[i][0] == "write" else 0
                part = c.pick([0, n, c.choose(n + 1)]) if n else 0
                w.arm(i, {"what": "crash", "part": part})
            try:
                got = call(lambda: save(built, path, gz))
                if got[0] == "err":
                    raise got[1]
                finished = True
            except world.SimCrash:
                finished = False
            ctx.check(finished == whole, "crash-swallowed", "the simulated death of the process was caught")
            w.disarm()
            cand.append((spec, built))
            if mode == "power":
                cand = older + cand       # nothing is synced: an earlier save may be all that is left
                w.power_loss(c)
            elif not whole:
                w.restart()
            label = (mode, stored, gz, whole)
        elif mode == "tail":
            cut = c.pick([1, 2, 8, c.choose(len(old)) + 1, len(old)])
            w.put(path, old[:max(0, len(old) - cut)])
            ctx.fault("tail-lost")
            label = (mode, stored)
        else:
            if not stored:
                must(ctx, lambda: save(acked[-1][1], path, True), "save-fails", "saving")
                old = w.get(path)
            k = c.pick([c.choose(len(old)), c.choose(min(len(old), 14)), len(old) - 1 - c.choose(min(len(old), 8))])
            new = c.choose(255)
            b = bytearray(old)
            b[k] = new if new < b[k] else new + 1
            w.put(path, bytes(b))
            ctx.fault("byte-changed")
            label = (mode, True)
        damaged = w.get(path)
        if damaged is None:
            ctx.probe("file-gone")
        resize(ctx, w)
        for k in range(1 + c.choose(2)):
            got = call(lambda: load(path, c.flag(0.3)))
            ctx.log("load", got[0])
            if got[0] == "ok":
                why = [is_same(s, b, got[1], vals) for s, b in cand]
                ctx.check(any(x is None for x in why), "damaged-file-loaded",
                          lambda: "a file that is neither the last saved nor the interrupted transform was loaded (%s of "
                          "%d bytes): %s" % (label, len(damaged or b""), why))
                ctx.probe("loads-interrupted" if why[-1] is None and cand[-1] not in acked else "loads-acknowledged")
            else:
                ctx.probe("refused")
            ctx.state((label, got[0], type(got[1]).__name__ if got[0] == "err" else ""))
        # saving again repairs the file
        spec, gz = (cand[-1][0] if c.flag(0.5) else gen_spec(ctx, **small)), c.flag(0.5)
        built = specs.build(clf, spec)
        must(ctx, lambda: save(built, path, gz), "repair-fails", "saving over the damaged file")
        if c.flag(0.5):
            w.restart()
        w.collect()
        loaded = must(ctx, lambda: load(path), "repair-unreadable", "loading the file saved over the damaged one")
        check_loaded(ctx, spec, built, loaded, vals, "repair-wrong")
