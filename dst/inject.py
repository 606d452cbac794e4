"""Faults raised inside library code at a chosen step.

A step is a line event of a frame of library code, or a call of a C function made by such a frame
(that is where allocations happen). With safe=True steps inside clean-up code (finally and except
bodies, __exit__, everything called from there) and on try/with lines are not counted: no program
can survive a fault in its own clean-up, and a correct try/finally must not be accused.
"""
import ast
import sys

from . import core, ops, world as W

KINDS = {"MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt, "OSError": OSError}
CALLBACK_EXC = {
    "RuntimeError": RuntimeError,
    "ValueError": ValueError,
    "KeyError": KeyError,
    "TypeError": TypeError,
    "AttributeError": AttributeError,
    "ZeroDivisionError": ZeroDivisionError,
    "IndexError": IndexError,
    "MemoryError": MemoryError,
    "KeyboardInterrupt": KeyboardInterrupt,
}

_EXCL = {}
_GUARD = {}


def guarded_lines(filename):
    """Lines inside try bodies that have handlers (a failure there may be handled)"""
    if filename in _GUARD:
        return _GUARD[filename]
    out = set()
    try:
        with open(filename, encoding="utf-8-sig") as f:
            tree = ast.parse(f.read())
    except (OSError, SyntaxError):
        tree = None
    if tree is not None:
        for node in ast.walk(tree):
            if isinstance(node, ast.Try) and node.handlers:
                for n in node.body:
                    out.update(range(n.lineno, (n.end_lineno or n.lineno) + 1))
            elif isinstance(node, ast.With):  # suppressing context managers
                for n in node.body:
                    out.update(range(n.lineno, (n.end_lineno or n.lineno) + 1))
    _GUARD[filename] = out
    return out


def excluded_lines(filename):
    """Lines of clean-up code of a source file"""
    if filename in _EXCL:
        return _EXCL[filename]
    out = set()
    try:
        with open(filename, encoding="utf-8-sig") as f:
            tree = ast.parse(f.read())
    except (OSError, SyntaxError):
        tree = None

    def span(nodes):
        for n in nodes:
            out.update(range(n.lineno, (n.end_lineno or n.lineno) + 1))

    if tree is not None:
        for node in ast.walk(tree):
            if isinstance(node, ast.Try):
                out.add(node.lineno)
                span(node.finalbody)
                for h in node.handlers:
                    out.add(h.lineno)
                    span(h.body)
            elif isinstance(node, (ast.With, ast.AsyncWith)):
                last = max([i.context_expr.end_lineno or node.lineno for i in node.items])
                out.update(range(node.lineno, last + 1))
            elif isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)) and node.name in ("__exit__", "__del__", "__aexit__"):
                span([node])
    _EXCL[filename] = out
    return out


class Injector:
    """Counts steps; raises exc at step number `at` (1-based)"""

    def __init__(self, at=None, exc=None, safe=True, also=()):
        self.at, self.exc, self.safe = at, exc, safe
        self.prefixes = (core.LIB,) + tuple(also)
        self.k, self.fired, self.where = 0, False, None
        self.trail = None  # list of (site, guarded) per step, when asked for

    def __enter__(self):
        sys.setprofile(self._prof)
        sys.settrace(self._glob)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        sys.setprofile(None)

    def _glob(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.prefixes):
            return self._loc
        return None

    def _loc(self, frame, event, arg):
        if event == "line":
            self._step(frame)
        return self._loc

    def _prof(self, frame, event, arg):
        if event == "c_call" and frame.f_code.co_filename.startswith(self.prefixes):
            self._step(frame)

    def _step(self, frame):
        if self.fired:
            return
        if self.safe:
            f = frame
            while f is not None:
                fn = f.f_code.co_filename
                if fn.startswith(core.LIB) and f.f_lineno in excluded_lines(fn):
                    return
                f = f.f_back
        self.k += 1
        if self.trail is not None:
            guarded, f = False, frame
            while f is not None and not guarded:
                fn = f.f_code.co_filename
                guarded = fn.startswith(core.LIB) and f.f_lineno in guarded_lines(fn)
                f = f.f_back
            self.trail.append(((frame.f_code.co_filename, frame.f_lineno), guarded))
        if self.k == self.at:
            self.fired = True
            fn = frame.f_code.co_filename
            self.where = "%s:%d" % (fn[len(core.LIB) :] if fn.startswith(core.LIB) else fn, frame.f_lineno)
            sys.settrace(None)
            sys.setprofile(None)
            raise self.exc("injected")


def count_steps(prep, safe=True):
    """Fault-free run: list of (site, guarded) of its steps, number of calls of user functions, outcome"""
    inj = Injector(safe=safe)
    inj.trail = []
    W.Callbacks.reset()
    out, _ = ops.outcome(prep, inj)
    return inj.trail, W.Callbacks.calls, out


def faulted(prep, fault, safe=True):
    """Run a prepared operation under one fault; (outcome, raw, fired, steps, where)"""
    kind = fault["kind"]
    W.Callbacks.reset()
    if kind == "callback":
        W.Callbacks.reset(fault["at"], CALLBACK_EXC[fault["exc"]])
        try:
            out, raw = ops.outcome(prep)
            return out, raw, W.Callbacks.calls >= fault["at"], 0, "user function, call %d" % fault["at"]
        finally:
            W.Callbacks.reset()
    inj = Injector(fault["at"], KINDS[kind], safe)
    out, raw = ops.outcome(prep, inj)
    return out, raw, inj.fired, inj.k, inj.where


def draw_faults(rng, trail, calls, n, kinds=("MemoryError", "KeyboardInterrupt", "OSError")):
    """n fault points: a third uniform over the steps, a third uniform over the source lines, a third inside guarded code"""
    out, pts = [], set()
    if n >= len(trail):  # every step
        pts = set(range(1, len(trail) + 1))
    else:
        sites, guarded = {}, {}
        for i, (site, g) in enumerate(trail):
            sites.setdefault(site, []).append(i + 1)
            if g:
                guarded.setdefault(site, []).append(i + 1)
        lists, glists = sorted(sites.values()), sorted(guarded.values())
        for j in range(4 * n):
            if len(pts) >= n:
                break
            if j % 3 == 0:
                pts.add(rng.randrange(1, len(trail) + 1))
            elif j % 3 == 1 or not glists:
                pts.add(rng.choice(rng.choice(lists)))
            else:
                pts.add(rng.choice(rng.choice(glists)))
    for p in sorted(pts):
        out.append({"kind": rng.choice(kinds), "at": p})
    for c in range(1, min(calls, 4) + 1):
        out.append({"kind": "callback", "at": c, "exc": rng.choice(sorted(CALLBACK_EXC))})
    return out
