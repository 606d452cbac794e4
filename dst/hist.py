"""Histories of operations over a world: generation, execution, shrinking, coverage keys."""
import copy
import random
import re

import numpy as np

from . import core, ops, world as W


def reseed(n=12345):
    random.seed(n)
    np.random.seed(n)


def adopt(env, op, raw):
    """Bind the result of a deriving operation to its name"""
    if op.get("as") and raw is not None:
        r = raw[0] if isinstance(raw, (tuple, list)) and raw else raw
        if core.is_lib_obj(r):
            env[op["as"]] = r


def runnable(env, op):
    keys = [op["on"]] + ([op["other"]] if op.get("other") else []) + list(op.get("others", []))
    return all(k in env for k in keys)


def gen_history(rng, n, kinds=None, small=False, exclude=(), derive=0.6, scratch=None, world=None, bad=0.12, axis_weight=0.15, extra=None):
    """World and list of operations; deriving operations may name their result for later use.

    extra(rng, env, i) may return an operation of the caller's own to insert.
    """
    w = world or W.gen_world(rng, kinds, small=small)
    reseed()
    env = W.build(w)
    out = []
    for i in range(n):
        op = extra(rng, env, i) if extra else None
        if op is None:
            op = ops.gen_op(rng, env, exclude=exclude, axis_weight=axis_weight, scratch=scratch, bad=bad)
            if op is None:
                continue
            if op["op"] in ops.DERIVE and rng.random() < derive:
                op["as"] = "d%d" % i
                adopt(env, op, ops.outcome(ops.Prepared(env, op, scratch))[1])
        out.append(op)
        # the same request again later is what shows staleness
        if op["op"] not in ops.PLOT_OPS and rng.random() < 0.12 and "op" in op:
            out.append({k: v for k, v in op.items() if k != "as"})
    return {"world": w, "ops": out}


# --------------------------------------------------------------------------- coverage keys
_NUM = re.compile(r"-?\d+(\.\d+)?(e-?\d+)?")


def skeleton(x):
    if isinstance(x, str):
        return _NUM.sub("#", x)
    if isinstance(x, dict):
        return tuple(sorted((k, skeleton(v)) for k, v in x.items() if k != "__nd__")) or ("{}",)
    if isinstance(x, (list, tuple)):
        return tuple(skeleton(v) for v in x)
    return type(x).__name__ if not isinstance(x, bool) else x


def config_key(obj):
    """Configuration of an object: classes of axes, symmetries, normalizations"""
    if obj is None:
        return None
    name = type(obj).__name__
    if name == "VectorField":
        return (name, tuple((k, config_key(c)) for k, c in obj.components.items()))
    if hasattr(obj, "axes"):
        axes = ops.axes_of(obj)
        return (name, tuple(config_key(a) for a in axes), tuple(sorted((obj.normalizations or {}).keys())), bool(obj.is_real))
    return (
        name,
        getattr(obj, "name", None),
        tuple(sorted((getattr(obj, "symmetries", None) or {}).keys())),
        tuple((k, type(v).__name__) for k, v in (getattr(obj, "normalizations", None) or {}).items()),
        bool(getattr(obj, "is_components", False)),
    )


def op_key(env, op, outc):
    try:
        c = config_key(env[op["on"]])
    except Exception:
        c = "?"
    return core.derive(c, op["op"], skeleton(op.get("args", [])), skeleton(op.get("kw", {})), outc[0] if outc[0] == "ok" else outc[1])


# --------------------------------------------------------------------------- shrinking
def shrink_list(xs):
    """Smaller variants of a list: halves, quarters, single drops"""
    n = len(xs)
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            yield xs[:i] + xs[i + size :]
        size //= 2


def shrink_op(op):
    for k in list(op.get("kw", {})):
        o = copy.deepcopy(op)
        del o["kw"][k]
        yield o
    for i in range(len(op.get("args", []))):
        if len(op["args"]) > 1:
            o = copy.deepcopy(op)
            del o["args"][i]
            yield o
        a = op["args"][i]
        if isinstance(a, str):
            m = re.match(r"^[A-Za-z ]+", a)
            if m and m.group(0) != a:
                o = copy.deepcopy(op)
                o["args"][i] = m.group(0)
                yield o
    if op.get("others"):
        o = copy.deepcopy(op)
        o["others"] = []
        yield o


def used_names(sc):
    s = set()

    def walk(x):
        if isinstance(x, dict):
            for k, v in x.items():
                if k in ("on", "other", "obj") and isinstance(v, str):
                    s.add(v)
                elif k == "others":
                    s.update(v)
                else:
                    walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)

    walk({k: v for k, v in sc.items() if k != "world"})
    return s


def shrink_world(sc, world_key="world"):
    w = sc[world_key]
    used = used_names(sc)
    refs = set()
    for o in w["obj"]:
        if o and o["k"] == "VectorField":
            refs.update("o%d" % i for i in o["components"].values())
    for i, o in enumerate(w["obj"]):
        if o and "o%d" % i not in used and "o%d" % i not in refs:
            c = copy.deepcopy(sc)
            c[world_key]["obj"][i] = None
            yield c
    axrefs = set()
    for o in w["obj"]:
        if o:
            for k in ("axes", "axes_dt", "axes_df"):
                axrefs.update("a%d" % j for j in o.get(k, []))
    for i, a in enumerate(w["ax"]):
        if not a:
            continue
        if "a%d" % i not in axrefs and "a%d" % i not in used:
            c = copy.deepcopy(sc)
            c[world_key]["ax"][i] = None
            yield c
            continue
        for k in a.get("norms", {}) or {}:
            c = copy.deepcopy(sc)
            del c[world_key]["ax"][i]["norms"][k]
            yield c
        if a.get("sym"):
            c = copy.deepcopy(sc)
            c[world_key]["ax"][i]["sym"] = {}
            yield c
    for i, o in enumerate(w["obj"]):
        if not o:
            continue
        for k in o.get("norms", {}) or {}:
            c = copy.deepcopy(sc)
            del c[world_key]["obj"][i]["norms"][k]
            yield c
        if o["k"] == "VectorField" and len(o["components"]) > 1:
            for k in o["components"]:
                c = copy.deepcopy(sc)
                del c[world_key]["obj"][i]["components"][k]
                yield c


def shrink_history(sc, key="ops"):
    for xs in shrink_list(sc[key]):
        c = dict(sc)
        c[key] = xs
        yield c
    for c in shrink_world(sc):
        yield c
    for i, op in enumerate(sc[key]):
        for o in shrink_op(op):
            c = dict(sc)
            c[key] = sc[key][:i] + [o] + sc[key][i + 1 :]
            yield c


def result(v=None, n=None, faults=None, sets=None, sample=None, log=None):
    """Result of one run; log is the list of what happened (compared when a run is repeated)"""
    return {"v": v, "n": n or {}, "faults": faults or {}, "sets": sets or {}, "sample": sample, "log": log or [], "digest": core.digest(log)}


COMPONENTS = {
    "real": "all of /repo/SciDataTool from the current working tree, numpy, scipy, matplotlib (Agg), csv/json",
    "stubbed": "none",
}
