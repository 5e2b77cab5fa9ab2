"""Interrupts at arbitrary lines of the code under test.

An interrupt (KeyboardInterrupt, MemoryError, ...) is raised instead of running the n-th line
that the call executes in /repo. Lines where no program could still clean up are left out: the
`try:` and `with` lines themselves, the bodies of except and finally clauses (an interrupt of
the clean-up itself), the first step after an exception, where a `with` is about to leave its block, and the
instant between an open and the assignment of its result (`early` admits that one: a file dropped
there holds no data yet).

`library` strikes at lines of the standard library that compress and decompress instead: exhausted memory and
interrupts occur there as well.
"""

import ast
import sys

import world
from core import HarnessError

ROOT = "/repo/python/"
LIBRARY = {"gzip.py": ("write", "read", "_read_gzip_header", "_read_eof", "_init_read")}
_texts = {}
_unsafe = {}


def hook(py2compat):
    """Keep the translated text of every module, to find its clean-up lines."""
    real = py2compat._refactor

    def _refactor(text, path):
        out = real(text, path)
        _texts[path] = out
        return out
    py2compat._refactor = _refactor


def unsafe_lines(path):
    got = _unsafe.get(path)
    if got is None:
        got = (set(), set())       # lines not to strike at; lines inside clean-up bodies
        text = _texts.get(path)
        if text is None:
            try:
                with world._real.get("open", open)(path, "rb") as f:
                    import py2compat
                    text = py2compat._refactor(f.read().decode("utf-8"), path)
            except (OSError, SyntaxError):
                text = ""
        for node in ast.walk(ast.parse(text)):
            if isinstance(node, ast.Try):
                got[0].add(node.lineno)
                bodies = list(node.finalbody)
                for h in node.handlers:
                    got[0].add(h.lineno)
                    bodies += h.body
                for b in bodies:
                    got[1].update(range(b.lineno, (b.end_lineno or b.lineno) + 1))
            elif isinstance(node, ast.With):
                got[0].update(range(node.lineno, node.body[0].lineno))
        _unsafe[path] = got
    return got


class Lines(object):
    """with Lines(strike=n, exc=KeyboardInterrupt): counts eligible lines, raises at the n-th."""

    def __init__(self, strike=None, exc=None, w=None, action=None, early=False, library=False, again=None):
        self.strike, self.exc, self.world, self.action = strike, exc, w, action
        self.again = again              # raise again each time the same line is reached; called each time
        self.early, self.library = early, library
        self.count = 0
        self.fired = None
        self.place = None
        self.raised = None

    def eligible(self, frame):
        path = frame.f_code.co_filename
        lines, bodies = unsafe_lines(path) if path.startswith(ROOT) else ((), ())
        if frame.f_lineno in lines or frame.f_lineno in bodies:
            return False
        f = frame.f_back
        while f is not None:
            p = f.f_code.co_filename
            if p.startswith(ROOT) and f.f_lineno in unsafe_lines(p)[1]:
                return False
            f = f.f_back
        w = self.world
        if w is not None and not self.early and w.last_op in ("open", "img-open", "img-wopen") and w.fds:
            return False
        return True

    def local(self, frame, event, arg):
        if event == "exception":
            # what follows in this frame is the clean-up of the block the exception leaves
            self.raised = frame
            return self.local
        if event == "line" and self.raised is frame:
            self.raised = None
            return self.local
        if event == "line" and self.again is not None and self.place == (frame.f_code, frame.f_lineno):
            self.again()
            sys.setprofile(self.rearm)
            raise self.exc("injected again")
        if event == "line" and self.fired is None and self.eligible(frame):
            if self.count == self.strike:
                path = frame.f_code.co_filename
                self.place = frame.f_code, frame.f_lineno
                self.fired = "%s:%d" % (path[len(ROOT):] if path.startswith(ROOT) else path.rsplit("/", 1)[1], frame.f_lineno)
                if self.action is not None:
                    self.action()
                else:
                    if self.again is not None:
                        sys.setprofile(self.rearm)
                    raise self.exc("injected")
            self.count += 1
        return self.local

    def rearm(self, frame, event, arg):
        # an exception out of a trace function ends the tracing
        if sys.gettrace() is None:
            sys.settrace(self.trace)

    def trace(self, frame, event, arg):
        path = frame.f_code.co_filename
        if self.library:
            if frame.f_code.co_name in LIBRARY.get(path.rsplit("/", 1)[-1], ()):
                return self.local
        elif path.startswith(ROOT):
            return self.local
        return None

    def __enter__(self):
        if sys.gettrace() is not None:
            raise HarnessError("a tracer is already active")
        sys.settrace(self.trace)
        return self

    def __exit__(self, *exc):
        sys.setprofile(None)
        sys.settrace(None)
        return False
