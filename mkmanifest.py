"""Writes MANIFEST.json from the checks there are."""
import json
import os

here = os.path.dirname(os.path.abspath(__file__))
TECH = "deterministic simulation with fault injection: "
NOTES = {
    "P01": ("seeded worker interleavings on a simulated process pool and image library, against per-pixel reference",
            "Seeded search, not exhaustive: images up to a few dozen rows, up to 12 workers, at most 3 faults per run. The worker pool and the image library are models; the filter, the transforms and numpy run for real."),
    "P02": ("seeded worker crashes, hangs, exceptions and I/O errors in the simulated pool; safety of the output and bounded progress",
            "Seeded search over fault placements in small images; the pool and the image library are models of multiprocessing and OpenImageIO."),
    "P03": ("cooperative threads switched at seeded source lines, with interrupts at seeded lines",
            "Seeded search over interleavings at line granularity of the repository's code, 2 to 4 threads; switches inside numpy or the standard library are not explored."),
    "P04": ("cooperative threads switched at seeded source lines and system calls, compared with each operation run alone",
            "Seeded search over interleavings at line and system-call granularity, 2 to 4 threads on a simulated disk."),
    "P05": ("seeded saves and loads on a simulated disk with split transfers, process death, clock jumps, against a reference model",
            "Seeded search over generated transforms of bounded size; decimal tables to 9 decimals as written."),
    "P06": ("seeded crash, power loss, lost tail and changed byte on a simulated disk, against the set of allowed contents",
            "Seeded search over crash and damage points of generated files; power loss drops seeded subsets of unsynced blocks."),
    "P07": ("seeded disk-full, I/O-error, interrupt and memory faults at chosen system calls and lines of a save, then retry",
            "Seeded search, one to three faults a run, over generated transforms."),
    "P08": ("seeded read errors, interrupts, memory exhaustion and damaged or missing files in loads, then retry",
            "Seeded search, one or two faults a run, over generated transforms and references."),
    "P09": ("seeded write faults, full disks and split transfers during exports, checked by independent parsers of each format",
            "Seeded search over small tables (up to about 30 entries 1D, 5 per axis 3D) and one fault per export."),
    "P10": ("seeded truncation, lost blocks, damage and read faults on LUT files, against an independent parse of the stored bytes",
            "Seeded search over small files of the three importable formats."),
    "P11": ("seeded input and output faults during whole conversions, against the original bytes and a reference chain",
            "Seeded search over conversions of small files; the colour configuration library is a model."),
    "P12": ("referenced files deleted, replaced, damaged or crashing between load, save and reload on a simulated disk",
            "Seeded search over reference graphs of bounded depth, float bit depths."),
    "P13": ("seeded histories of clock jumps, failures, threads, hash seeds and save-load cycles, comparing stored bytes",
            "Seeded search over histories of generated transforms; other hash seeds by helper interpreters."),
    "P14": ("descriptor accounting of a simulated disk under faults at every kind of system call and line, with small limits",
            "Seeded search over operations and faults; a descriptor counts as open until the code closes it, collection of garbage is held off."),
    "P15": ("seeded histories of feature settings, refusals and failures, against a model of the switch",
            "Seeded search over histories of settings and operations."),
    "P16": ("seeded histories of operations, faults, interrupts, edits and file replacements, each operation against the same one in a new process",
            "Seeded search over histories of up to 12 operations on small transforms, with colliding paths, sizes and file times."),
    "P17": ("seeded histories of uses, failures, interrupts, copies and edits of one transform, against one that had only the edits",
            "Seeded search over histories of up to 8 edits and 24 uses of small transforms; single-threaded (P03 and P04 share transforms between threads)."),
}
NA = {
    "P30": "pure arithmetic of one call: no schedule, time, I/O, randomness or fault for a simulator to decide",
    "P31": "pure table lookup of one call: nothing a schedule or an injected fault could change",
    "P32": "an algebraic law of pure functions, without concurrency, time or I/O",
    "P33": "an algebraic law of pure functions, without concurrency, time or I/O",
    "P34": "a pure conversion of a number, without concurrency, time or I/O",
    "P35": "approximation quality of a pure resampling; no schedule or fault is involved",
    "P36": "pure translation of parameters of a configuration; the fault side of it is claimed under P11",
    "P37": "formatting of the transform as text; a pure function of its argument",
}
checks = []
for pid in sorted(NOTES):
    if not os.path.exists(os.path.join(here, "dst", "props", pid.lower() + ".py")):
        continue
    checks.append({"property": pid, "quick_cmd": "./check " + pid, "thorough_cmd": "VERIF_TIER=thorough ./check " + pid,
                   "evidence_file": "evidence/%s.json" % pid, "technique": TECH + NOTES[pid][0],
                   "level": "exploration", "level_note": NOTES[pid][1]})
na = [{"property": p, "reason": NA[p]} for p in sorted(NA)]
na += [{"property": p, "reason": "its simulation is not built yet"} for p in sorted(NOTES)
       if p not in [c["property"] for c in checks]]
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -m py_compile dst/main.py dst/runner.py", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
