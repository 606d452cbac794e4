"""Objects and places to save them: contents with versions, styles of paths."""
import json
import os

import numpy as np

from . import core, hist, ops, world as W
from SciDataTool import Data1D, DataDual, DataLinspace, DataND, VectorField
from SciDataTool.Functions.save import save_data

JSON_LIB = os.path.dirname(json.__file__) + "/"
STYLES = ["file", "file", "file", "noext", "dir", "link", "dirlink", "relative", "deep"]


def real(o):
    """Make an object of a world saveable: the JSON format has no complex numbers"""
    if isinstance(o, VectorField):
        for c in o.components.values():
            real(c)
    elif isinstance(o, DataDual):
        o.values_dt, o.values_df = np.real(o.values_dt).copy(), np.real(o.values_df).copy()
    elif isinstance(o, DataND):
        if np.iscomplexobj(o.values):
            o.values = np.real(o.values).copy()
    return o


def _written(x):
    """Function normalizations given as text: a callable cannot be written"""
    if isinstance(x, dict):
        if "cb" in x:
            x = {k: v for k, v in x.items() if k != "cb"}
            x["expr"] = "lambda x: 3 * x + 1"
        return {k: _written(v) for k, v in x.items()}
    if isinstance(x, list):
        return [_written(v) for v in x]
    return x


def build(world):
    hist.reseed()
    env = W.build(_written(world))
    for o in env.values():
        real(o)
    return env


def variant(env, item):
    """Object (or list/dict of objects) of an item {"obj", "v"[, "wrap"]}; versions differ in content"""
    o = env[item["obj"]].copy()
    v = item["v"]
    if hasattr(o, "name"):
        o.name = "%s v%d" % (o.name, v)
    elif hasattr(o, "unit"):
        o.unit = "u%d" % v
    if isinstance(o, DataND) and not isinstance(o, DataDual) and o.values is not None:
        o.values = o.values * (1 + v)
    if item.get("bad"):
        spoil(o)
    w = item.get("wrap")
    if w == "list":
        return [o, o.copy(), 3, "x", [o.copy()]]
    if w == "dict":
        return {"first": o, "n": 3, "more": {"k": o.copy()}}
    return o


def spoil(o):
    """Content that cannot be written"""
    if isinstance(o, VectorField):
        spoil(list(o.components.values())[-1])
    elif isinstance(o, DataDual):
        o.values_df = o.values_df * 1j
    elif isinstance(o, DataND):
        o.values = o.values * (1 + 1j)
    elif hasattr(o, "symmetries"):
        o.symmetries = dict(o.symmetries or {}, bad=1j)
    elif hasattr(o, "unit"):
        o.unit = "bad"


def save(o, arg):
    if isinstance(o, (list, dict)):
        save_data(o, arg)
    else:
        o.save(arg)


def cls_name(env, item):
    return {"list": "list", "dict": "dict"}.get(item.get("wrap")) or type(env[item["obj"]]).__name__


def layout(root):
    """Directories of the simulated disk"""
    for d in ("a", "b", "a/sub"):
        os.makedirs(os.path.join(root, d), exist_ok=True)
    links = {"a/link.json": "../b/real.json", "dl": "b"}
    for k, t in links.items():
        if not os.path.islink(os.path.join(root, k)):
            os.symlink(t, os.path.join(root, k))


def place(root, path, cls):
    """(argument given to save, file that must hold the content relative to root)"""
    s, n = path["style"], path["name"]
    if s == "file":
        return os.path.join(root, "a", n + ".json"), "a/%s.json" % n
    if s == "noext":
        return os.path.join(root, "a", n), "a/%s.json" % n
    if s == "dir":
        return os.path.join(root, "b"), "b/%s.json" % cls
    if s == "link":
        return os.path.join(root, "a", "link.json"), "b/real.json"
    if s == "dirlink":
        return os.path.join(root, "dl", n + ".json"), "b/%s.json" % n
    if s == "relative":
        return n + ".json", "a/%s.json" % n
    if s == "deep":
        return os.path.join(root, "a", "..", "a", "sub", n + ".json"), "a/sub/%s.json" % n
    raise ValueError(s)


def gen_paths(rng, n):
    out = []
    for i in range(n):
        out.append({"style": rng.choice(STYLES), "name": rng.choice(["data", "my field", "x.y", "r" + "e" * 40])})
    return out


def parse(b):
    try:
        return json.loads(b.decode("utf-8"))
    except ValueError:
        return None


def same(b, ref):
    """Whether bytes hold a complete document equal to the reference one"""
    if b == ref:
        return True
    if b is None or ref is None:
        return False
    d = parse(b)
    return d is not None and d == parse(ref)
