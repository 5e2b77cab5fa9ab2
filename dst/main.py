"""main.py check PID | replay FILE | digests PID BASE FROM TO | determinism PID"""

import importlib
import json
import os
import re
import subprocess
import sys

try:
    # compiled loops leave out line events at points that depend on real time
    import pypyjit
    pypyjit.set_param("off")
except ImportError:
    pass

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

import core  # noqa: E402
import runner  # noqa: E402
from core import real_time  # noqa: E402

VERIF = runner.VERIF


def load(pid):
    return importlib.import_module("props.%s" % pid.lower())


def known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [x for x in json.load(f).get("findings", []) if x.get("property") == pid]


def match(finding, bad):
    return finding["class"] == bad[0] and re.search(finding["detail"], str(bad[1])) is not None


def check(pid):
    t0 = real_time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    base = int(os.environ.get("VERIF_SEED", "1"))
    print("property=%s seed=%d tier=%s" % (pid, base, tier))
    sys.stdout.flush()
    import env  # noqa: F401  imports the code under test
    mod = load(pid)
    prep = getattr(mod, "prepare", None)
    if prep is not None:
        prep(tier)
    total, wall = mod.RUNS[tier]
    total = int(os.environ.get("DST_RUNS", total))
    t1 = real_time()
    results = runner.search(mod, pid, base, total, wall, tier)
    t2 = real_time()

    errors = ["shard %d gave no result" % s for s in range(runner.SHARDS) if results.get(s) is None]
    results = {s: r for s, r in results.items() if r is not None}
    for s, r in sorted(results.items()):
        if r["error"]:
            errors.append("run %d: %s" % r["error"])
    found = sorted((r["violation"] for r in results.values() if r["violation"]), key=lambda v: v[0])
    listed = known(pid)
    report, seen_known = None, set()
    for i, bad, record in found:
        hit = [k for k, f in enumerate(listed) if match(f, bad)]
        if hit:
            seen_known.update(hit)
        elif report is None:
            report = (i, bad, record)

    # a few runs again, each alone in a fresh process: the same seed must give the same log
    rechecked = diverged = 0
    if report is None and not errors:
        sample = [x for r in results.values() for x in r["first"][:1]]
        for i, d, log in sample:
            got, log2 = runner.in_child(lambda: runner.digest_of(mod, tier, base, pid, i), 120)
            rechecked += 1
            if got != d:
                diverged += 1
                k = next((k for k, (a, b) in enumerate(zip(log, log2)) if a != b), min(len(log), len(log2)))
                sys.stderr.write("run %d diverged at event %d:\n%s\n-- instead of\n%s\n" % (
                    i, k, "\n".join(log[max(0, k - 3):k + 3]), "\n".join(log2[max(0, k - 3):k + 3])))

    violations = 0
    code = 0
    for k, f in enumerate(listed):
        print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    if report is not None:
        i, bad, record = report
        print("run %d: %s: %s" % (i, bad[0], str(bad[1])[:1500]))
        sys.stdout.flush()
        runs = runner.reproduce(mod, pid, base, tier, i, bad, record)
        if runs is None:
            errors.append("violation of run %d did not reproduce: %s" % (i, bad))
        else:
            runs = runner.minimise(mod, runs, tier, bad[0], 25 if tier == "quick" else 120)
            out = runner.in_child(lambda: runner.play(mod, runs, tier, True), 300)
            path = os.path.join(runner.REPLAYS, "%s-%s.json" % (pid, runner.hashlib.sha1(
                json.dumps(runs).encode()).hexdigest()[:10]))
            os.makedirs(runner.REPLAYS, exist_ok=True)
            with open(path, "w") as f:
                json.dump({"property": pid, "tier": tier, "seed": base, "run": i, "violation": list(map(str, out["bad"])),
                           "digest": out["digest"], "runs": runs, "trace": out["log"]}, f, indent=1)
                f.write("\n")
            again = subprocess.run([sys.executable, os.path.abspath(__file__), "replay", path],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            text = again.stdout.decode("utf-8", "replace")
            if again.returncode != 1 or "same execution" not in text:
                errors.append("the replay file did not reproduce exactly in a fresh process: %s" % text[-600:])
            print("minimised: %s: %s" % (out["bad"][0], str(out["bad"][1])[:1500]))
            print("minimised to %d run(s), %d choices" % (len(runs), len(runs[-1])))
            violations = 1
            code = 1
    tot = lambda key: sum(r[key] for r in results.values())
    merge = lambda key: {k: sum(r[key].get(k, 0) for r in results.values())
                         for k in sorted(set(k for r in results.values() for k in r[key]))}
    digests = set().union(*[r["digests"] for r in results.values()]) if results else set()
    states = set().union(*[r["states"] for r in results.values()]) if results else set()
    runs_done = tot("runs") if results else 0
    ev = {
        "property": pid, "tier": tier, "seed": base, "level": "exploration",
        "coverage": {
            "evaluations": runs_done,
            "distinct_nontrivial": len(set().union(*[r["nontrivial"] for r in results.values()])) if results else 0,
            "rule": mod.RULE,
            "samples": [s for r in results.values() for s in r["samples"]][:3],
            "planned_runs": total,
            "stopped_by_wall_cap": any(r["stopped_early"] for r in results.values()),
            "runs_per_hour": int(runs_done / max(1e-9, t2 - t1) * 3600),
            "seeds_per_hour": int(runs_done / max(1e-9, t2 - t1) * 3600),
            "simulated_seconds": round(tot("sim_time"), 3) if results else 0,
            "events": tot("events") if results else 0,
            "faults_fired": merge("faults"),
            "probes": merge("probes"),
            "distinct_executions": len(digests),
            "distinct_executions_measure": "distinct SHA-1 of the event log of a run (every system call, task hand-out, switch and fault in order)",
            "distinct_states": len(states),
            "distinct_states_measure": getattr(mod, "STATES", "distinct (scenario, fault, outcome) combinations"),
            "determinism_rechecked_runs": rechecked,
            "determinism_diverged": diverged,
            "real_components": mod.REAL,
            "simulated_components": mod.STUB,
            "extra": getattr(mod, "EXTRA", None),
        },
        "assumptions": mod.ASSUMES,
        "wall_s": round(real_time() - t0, 2),
        "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", "%s.json" % pid), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    if diverged:
        errors.append("%d of %d rechecked runs diverged" % (diverged, rechecked))
    if code == 0 and not errors and runs_done < min(total, getattr(mod, "MIN_RUNS", 40)):
        errors.append("only %d runs were made" % runs_done)
    for e in errors:
        sys.stderr.write("HARNESS: %s\n" % e)
    if code == 1:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        return 2
    print("held: %d runs, %d distinct executions, faults %s, %.0f s" % (
        runs_done, len(digests), json.dumps(merge("faults")), real_time() - t0))
    return 0


def replay(path):
    with open(path) as f:
        d = json.load(f)
    import env  # noqa: F401
    mod = load(d["property"])
    prep = getattr(mod, "prepare", None)
    if prep is not None:
        prep(d["tier"])
    out = runner.in_child(lambda: runner.play(mod, d["runs"], d["tier"], True), 600)
    for line in out["log"] or ():
        print("  " + line)
    if out["bad"] is None:
        print("no violation")
        return 0
    print("%s: %s" % (out["bad"][0], out["bad"][1]))
    print("same execution" if out["digest"] == d["digest"] else "DIFFERENT execution")
    print("VIOLATION property=%s replay=%s" % (d["property"], path))
    return 1


def digests(pid, base, lo, hi, tier="quick"):
    import env  # noqa: F401
    mod = load(pid)
    prep = getattr(mod, "prepare", None)
    if prep is not None:
        prep(tier)
    for i in range(int(lo), int(hi)):
        print(i, runner.in_child(lambda: runner.digest_of(mod, tier, int(base), pid, i)[0], 300))
    return 0


def one(pid, base, i, tier="quick"):
    """Debugging: run one seed here, with its log."""
    import env  # noqa: F401
    mod = load(pid)
    prep = getattr(mod, "prepare", None)
    if prep is not None:
        prep(tier)
    ctx, bad = runner.execute(mod, core.Chooser(runner.seed_of(int(base), pid, int(i))), tier, True)
    for line in ctx.keep:
        print("  " + line)
    print(ctx.c.record)
    print("->", bad, ctx.faults, ctx.probes)
    return 1 if bad else 0


if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    sys.exit({"check": check, "replay": replay, "digests": digests, "one": one}[cmd](*args))
