"""Where a query writes into state that other threads can see.

Shared state is what is reachable, before the query starts, from the objects of the world and from the
library's modules, classes, functions and default arguments. At each step of a recorded execution the
statement about to run is inspected: if it stores into (or calls a mutating method of, or passes as
`out=`) an object of that set, the step is a shared store. Schedules that switch right after such a
step are the ones that can show a race.
"""
import ast
import sys
import types

import numpy as np

from . import core

MUTATORS = {
    "append", "pop", "update", "clear", "insert", "remove", "setdefault", "extend", "popitem", "add", "discard", "sort", "reverse", "fill", "resize", "put", "__setitem__", "__setattr__",
    "itemset", "partition", "setflags", "appendleft", "popleft", "rotate",
}
FUNCTIONS = {"setattr", "copyto", "put", "place", "putmask", "put_along_axis", "fill_diagonal", "delattr"}


def reachable(roots):
    """Objects reachable from the roots that a query could write into: {id: object}"""
    seen = {}
    todo = list(roots)
    while todo:
        x = todo.pop()
        if id(x) in seen or x is None or isinstance(x, (str, bytes, int, float, complex, bool, np.generic, tuple(_LEAF))):
            continue
        if isinstance(x, types.ModuleType):
            if not x.__name__.startswith("SciDataTool"):
                continue
            seen[id(x)] = x
            todo.extend(vars(x).values())
        elif isinstance(x, type):
            if not (x.__module__ or "").startswith("SciDataTool"):
                continue
            seen[id(x)] = x
            todo.extend(vars(x).values())
        elif isinstance(x, (types.FunctionType, types.MethodType)):
            f = getattr(x, "__func__", x)
            if not f.__code__.co_filename.startswith(core.LIB):
                continue
            seen[id(f)] = f
            todo.extend(f.__defaults__ or ())
            todo.extend((f.__kwdefaults__ or {}).values())
            todo.extend(vars(f).values())
            for c in f.__closure__ or ():
                try:
                    todo.append(c.cell_contents)
                except ValueError:
                    pass
        elif isinstance(x, property):
            todo.extend([x.fget, x.fset])
        elif isinstance(x, (staticmethod, classmethod)):
            todo.append(x.__func__)
        elif isinstance(x, dict):
            seen[id(x)] = x
            todo.extend(x.values())
        elif isinstance(x, (list, tuple, set, frozenset)):
            seen[id(x)] = x
            todo.extend(x)
        elif isinstance(x, np.ndarray):
            seen[id(x)] = x
            if x.base is not None:
                todo.append(x.base)
        else:
            seen[id(x)] = x
            d = getattr(x, "__dict__", None)
            if isinstance(d, dict) and (type(x).__module__ or "").startswith("SciDataTool"):
                seen[id(d)] = d
                todo.extend(d.values())
            elif hasattr(x, "__wrapped__"):
                todo.append(x.__wrapped__)
    return seen


_LEAF = (types.BuiltinFunctionType, types.CodeType, np.ufunc, np.dtype)


def library_roots():
    return [m for k, m in list(sys.modules.items()) if k.startswith("SciDataTool") and isinstance(m, types.ModuleType)]


_LIBRARY = {}


def preload():
    """Done once before the first fork: what the library's modules hold, and where its sources write"""
    import glob

    _LIBRARY.update(reachable(library_roots()))
    for f in glob.glob(core.LIB + "**/*.py", recursive=True):
        if "/GUI/" not in f:
            _bases(f)


def known(objects):
    """Shared state of a run: the given objects and the library's own"""
    out = reachable(objects)
    out.update(_LIBRARY)
    return out


_LINES = {}


def _bases(filename):
    """{line: expressions whose objects the statement of that line writes into}; True: a global name"""
    if filename in _LINES:
        return _LINES[filename]
    out = {}
    try:
        with open(filename, encoding="utf-8-sig") as f:
            tree = ast.parse(f.read())
    except (OSError, SyntaxError):
        tree = ast.parse("")

    def note(node, expr):
        for l in range(node.lineno, (node.end_lineno or node.lineno) + 1):
            out.setdefault(l, []).append(expr)

    def target(node, t, globs):
        if isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                target(node, e, globs)
        elif isinstance(t, ast.Starred):
            target(node, t.value, globs)
        elif isinstance(t, ast.Attribute) and t.attr == "parent":
            pass  # back reference set by every read of a stored part; not content
        elif isinstance(t, (ast.Attribute, ast.Subscript)):
            note(node, t.value)
        elif isinstance(t, ast.Name) and t.id in globs:
            note(node, True)

    def walk(node, globs):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            globs = {n for s in ast.walk(node) if isinstance(s, (ast.Global, ast.Nonlocal)) for n in s.names}
        if isinstance(node, (ast.Assign, ast.Delete)):
            for t in node.targets:
                target(node, t, globs)
        elif isinstance(node, (ast.AugAssign, ast.AnnAssign)):
            target(node, node.target, globs)
            if isinstance(node, ast.AugAssign) and isinstance(node.target, ast.Name):
                note(node, node.target)  # in place for arrays and lists
        elif isinstance(node, (ast.For, ast.AsyncFor)):
            target(node.iter, node.target, globs)
        elif isinstance(node, ast.NamedExpr):
            target(node, node.target, globs)
        elif isinstance(node, ast.Call):
            f = node.func
            if isinstance(f, ast.Attribute) and f.attr in MUTATORS:
                note(node, f.value)
            name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", None)
            if name in FUNCTIONS and node.args:
                note(node, node.args[0])
            for k in node.keywords:
                if k.arg == "out":
                    note(node, k.value)
        for c in ast.iter_child_nodes(node):
            walk(c, globs)

    walk(tree, set())
    _LINES[filename] = out
    return out


def _look(expr, frame):
    """Object of a simple expression (names, attributes, items by constant or name), without running user code"""
    if isinstance(expr, ast.Name):
        if expr.id in frame.f_locals:
            return frame.f_locals[expr.id]
        return frame.f_globals.get(expr.id)
    if isinstance(expr, ast.Attribute):
        base = _look(expr.value, frame)
        if isinstance(base, (types.ModuleType, type)):
            return vars(base).get(expr.attr)
        d = getattr(base, "__dict__", None) or {}
        return d.get(expr.attr, d.get("_" + expr.attr, vars(type(base)).get(expr.attr)))
    if isinstance(expr, ast.Subscript):
        base = _look(expr.value, frame)
        if isinstance(base, (dict, list)):
            k = expr.slice.value if isinstance(expr.slice, ast.Constant) else _look(expr.slice, frame) if isinstance(expr.slice, ast.Name) else None
            try:
                return base[k]
            except Exception:
                return None
    return None


def is_shared_store(frame, shared):
    exprs = _bases(frame.f_code.co_filename).get(frame.f_lineno)
    if not exprs:
        return False
    for e in exprs:
        if e is True:
            return True
        x = _look(e, frame)
        if x is not None and id(x) in shared:
            return True
    return False
