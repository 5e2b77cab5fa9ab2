"""Seeded choices, events, violations: the part of the simulator that knows nothing about CLF.

Every decision of a run - what is generated, which fault fires where, who runs next - is drawn
from one Chooser.  It records what it handed out, so a run is replayed from that list of
integers alone, and minimised by editing the list.  0 is always the simplest alternative.
"""

import hashlib
import random
import time as _time

real_time = _time.time
real_perf = _time.perf_counter


class Violation(Exception):
    """The property is broken. `cls` names the way it broke; minimising keeps it fixed."""

    def __init__(self, cls, detail):
        Exception.__init__(self, "%s: %s" % (cls, detail))
        self.cls = cls
        self.detail = detail


class HarnessError(Exception):
    """The simulator itself failed; never reported as a violation."""


class Chooser(object):
    def __init__(self, seed=None, script=None):
        self.rng = random.Random(seed) if script is None else None
        self.script = script
        self.pos = 0
        self.record = []

    def _emit(self, value):
        self.record.append(value)
        return value

    def _scripted(self, n):
        v = self.script[self.pos] if self.pos < len(self.script) else 0
        self.pos += 1
        return max(0, min(int(v), n - 1))

    def choose(self, n, weights=None):
        """An index below n; weights bias the search only."""
        if n <= 1:
            return 0
        if self.script is not None:
            return self._emit(self._scripted(n))
        if weights is None:
            return self._emit(self.rng.randrange(n))
        total = sum(weights)
        x = self.rng.random() * total
        for i, w in enumerate(weights):
            x -= w
            if x < 0:
                return self._emit(i)
        return self._emit(n - 1)

    def flag(self, p):
        """True with probability p; replayed as 0 / 1."""
        if self.script is not None:
            return self._emit(self._scripted(2)) == 1
        return self._emit(1 if self.rng.random() < p else 0) == 1

    def pick(self, options, weights=None):
        return options[self.choose(len(options), weights)]

    def integer(self, lo, hi):
        """lo..hi inclusive, lo is simplest."""
        return lo + self.choose(hi - lo + 1)

    def small(self, lo, hi):
        """lo..hi inclusive, small values likelier."""
        n = hi - lo + 1
        return lo + self.choose(n, [1.0 / (i + 1) for i in range(n)])


class Ctx(object):
    """One simulated run: choices, event log, counters."""

    def __init__(self, chooser, tier="quick", keep_log=False):
        self.c = chooser
        self.tier = tier
        self.hash = hashlib.sha1()
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.sim_time = 0.0
        self.events = 0
        self.keep = [] if keep_log else None

    def log(self, *event):
        self.events += 1
        text = " ".join(map(str, event))
        self.hash.update(text.encode("utf-8", "backslashreplace"))
        self.hash.update(b"\n")
        if self.keep is not None:
            self.keep.append(text if len(text) < 300 else text[:297] + "...")

    def fault(self, kind, n=1):
        """A fault that actually fired."""
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        """A rare condition that was reached."""
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, value):
        self.states.add(hashlib.sha1(repr(value).encode("utf-8", "backslashreplace")).hexdigest()[:12])

    def check(self, ok, cls, detail):
        if not ok:
            raise Violation(cls, detail() if callable(detail) else detail)

    def digest(self):
        return self.hash.hexdigest()


def shrink(script, fails, budget_s, log=None):
    """Smaller script for which fails(script) is still true. fails returns the consumed script."""
    deadline = real_time() + budget_s
    best = list(script)
    seen = set()

    def attempt(cand):
        nonlocal best
        key = tuple(cand)
        if key in seen or real_time() > deadline:
            return False
        seen.add(key)
        got = fails(cand)
        if got is None:
            return False
        # keep what the run actually consumed, without trailing zeros
        got = list(got)
        while got and got[-1] == 0:
            got.pop()
        if (len(got), got) < (len(best), best) or (len(cand), cand) < (len(best), best):
            best = got if (len(got), got) <= (len(cand), cand) else list(cand)
            return True
        return False

    changed = True
    while changed and real_time() < deadline:
        changed = False
        size = max(1, len(best) // 2)
        while size >= 1 and real_time() < deadline:
            i = max(0, len(best) - size)
            while i >= 0 and real_time() < deadline:
                if i + size <= len(best):
                    if attempt(best[:i] + best[i + size:]):
                        changed = True
                    elif any(best[i:i + size]) and attempt(best[:i] + [0] * size + best[i + size:]):
                        changed = True
                if i == 0:
                    break
                i = max(0, i - size)
            size //= 2
        for i in range(len(best)):
            if real_time() > deadline:
                break
            if i >= len(best) or best[i] == 0:
                continue
            for v in (0, 1, best[i] // 2, best[i] - 1):
                if i < len(best) and 0 <= v < best[i] and attempt(best[:i] + [v] + best[i + 1:]):
                    changed = True
                    break
    return best
