"""C09 - what was saved is what is loaded, across restarts."""
import copy
import json
import os

import SciDataTool
from SciDataTool import DataND, VectorField
from SciDataTool.Functions.load import load, load_dict, load_init_dict, load_list

from .. import core, disk, hist, inject, mutate, ops, store, world as W

ID = "C09"
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: seeded histories of saves, loads, modifications, queries, failing saves and process restarts over several objects and paths, refined against a model of what each path holds"
LEVEL_NOTE = (
    "Random seeded histories over generated objects. The model of a path is the content of the object read through its public properties immediately before the save."
)
RULE = (
    "one case = one load (constructor with file path, load, load_list, load_dict, file references for axes and components; absolute and relative paths, several working "
    "directories) inside a seeded history; content is compared property by property and several queries are answered by the loaded object and by an object freshly built "
    "from the model in a pristine process. Distinct = distinct (configuration, way of loading, path style, number of generations, loaded in another process than saved, "
    "what happened to the object or path since); non-trivial = other operations or a restart lie between save and load."
)
ASSUME = [
    "content = public stored properties; order of dictionary keys, and list against array of equal numbers in queries, are part of it only where answers show it",
    "objects with complex values, or function normalizations that are callables, cannot be saved (the save raises)",
]
COMPONENTS = {
    "real": "SciDataTool from the current working tree, json, kernel file system; every simulated process is a real process",
    "stubbed": "none (interrupted saves: exceptions raised at traced library lines)",
}
PLAN = {
    "quick": {"runs": 3000, "seconds": 75, "min_runs": 120},
    "thorough": {"runs": 60000, "seconds": 780, "min_runs": 1200},
}
ASK_NO = tuple(ops.PLOT_OPS) + tuple(ops.FILE_OPS) + ("str",)  # the text of an object shows the order of keys


def gen(seed, tier):
    rng = core.rng_for(seed)
    w = W.gen_world(rng, None, n=rng.choice([1, 2]), small=True)
    root = _fresh()
    paths = store.gen_paths(rng, rng.choice([1, 2, 3]))
    env = store.build(w)
    model, out = {}, []  # model: path index -> wrap of what is there
    tag = 0
    plan = []  # next steps of "save, load, modify, save again, load again"
    for i in range(rng.choice([6, 9, 12]) if tier == "quick" else rng.choice([8, 12, 20])):
        r = rng.random()
        names = [k for k in env if k[0] in "ol"] * 3 + sorted(env)
        op = None
        if plan:
            op = plan.pop(0)
            if op["op"] == "set":
                op = mutate.gen_set(rng, {op["on"]: env[op["on"]]})
        elif r < 0.27 or not model:
            op = {"op": "save", "on": rng.choice(names), "path": rng.randrange(len(paths))}
            if rng.random() < 0.25:
                op["wrap"] = rng.choice(["list", "dict"])
            x = rng.random()
            if x < 0.1:
                op["bad"] = True
                op.pop("wrap", None)
            elif x < 0.25:
                op["exc"] = rng.choice(["KeyboardInterrupt", "MemoryError"])
                op["frac"] = round(rng.random(), 4)
        elif r < 0.6:
            p = rng.choice(sorted(model))
            how = {"list": ["list"], "dict": ["dict"]}.get(model[p], ["ctor", "ctor", "load", "load", "init"])
            op = {"op": "load", "path": p, "how": rng.choice(how), "cwd": rng.choice(["", "a", "b", "a/sub", "a"]), "rel": rng.random() < 0.5}
            if rng.random() < 0.7:
                op["as"] = "l%d" % tag
                tag += 1
        elif r < 0.68:
            cands = [k for k in env if isinstance(env[k], VectorField) or isinstance(env[k], DataND)]
            op = {"op": "refs", "on": rng.choice(cands), "cwd": rng.choice(["", "a", "b"]), "rel": rng.random() < 0.5}
            if rng.random() < 0.5:
                op["as"] = "l%d" % tag
                tag += 1
        elif r < 0.82:
            op = mutate.gen_set(rng, env)
        elif r < 0.92:
            op = ops.gen_op(rng, env, exclude=ops.PLOT_OPS, scratch=core.SCRATCH)
        else:
            op = {"op": "restart"}
        if op is None:
            continue
        if op["op"] == "restart":
            env = store.build(w)
        elif op["op"] == "save":
            if not op.get("bad") and _do(env, op, root, paths, w)["out"] == "returned":
                model[op["path"]] = op.get("wrap", "one")
                if not plan and rng.random() < 0.3:
                    again = {"op": "save", "on": op["on"], "path": op["path"] if rng.random() < 0.7 else rng.randrange(len(paths))}
                    if op.get("wrap"):
                        again["wrap"] = op["wrap"]
                    how = op.get("wrap") or rng.choice(["ctor", "load", "init"])
                    plan = [{"op": "load", "path": p, "how": how, "cwd": rng.choice(["", "a", "b"]), "rel": rng.random() < 0.5} for p in (op["path"], again["path"])]
                    plan = plan[: rng.randrange(2)] + [{"op": "set", "on": op["on"]}, again, plan[1]]
        elif op["op"] in ("load", "refs"):
            ev = _do(env, op, root, paths, w)
            if ev.get("obj") is not None:
                env["?"] = ev["obj"]
                op["ask"] = [a for a in (ops.gen_op(rng, env, on="?", exclude=ASK_NO, bad=0.05) for _ in range(2)) if a and not a.get("other") and not a.get("others")]
                del env["?"]
        elif op["op"] == "set":
            _do(env, op, root, paths, w)
        else:
            _do(env, op, root, paths, w)
        out.append(op)
    disk.empty(root)
    return {"world": w, "paths": paths, "ops": out}


def _fresh():
    root = os.path.join(core.SCRATCH, "disk")
    disk.empty(root)
    store.layout(root)
    return root


def _arg(path, op, root):
    """Change to the working directory of an operation; path as it is given there"""
    here = os.path.join(root, op.get("cwd", ""))
    os.chdir(here)
    return os.path.relpath(path, os.path.realpath(here)) if op.get("rel") else path


def _wrapped(o, wrap):
    if wrap == "list":
        return [o, 3, "x", [o.copy()], {"k": None}]
    if wrap == "dict":
        return {"first": o, "n": 3, "more": {"k": [o.copy(), 1.5]}}
    return o


def _do(env, op, root, paths, world):
    """Carry out one operation in the current process; returns what can be observed"""
    os.chdir(os.path.join(root, "a"))
    kind = op["op"]
    if kind == "save":
        if op["on"] not in env:
            return {"out": "skipped"}
        o = env[op["on"]]
        wrap = op.get("wrap")
        arg, rel = store.place(root, paths[op["path"]], wrap or type(o).__name__)
        if op.get("bad"):
            o = o.copy()
            store.spoil(o)
        data = _wrapped(o, wrap)
        ev = {"rel": rel, "content": core.freeze(data), "cls": type(env[op["on"]]).__name__}
        before = core.canon(o)
        inj = None
        if op.get("exc"):
            dry = inject.Injector()
            dry.trail = []
            with dry:
                try:
                    store.save(data, os.path.join(root, "b", ".dry.json"))
                except Exception:
                    pass
            inj = inject.Injector(1 + int(op["frac"] * len(dry.trail)), inject.KINDS[op["exc"]])
        with ops.quiet():
            try:
                if inj:
                    with inj:
                        store.save(data, arg)
                else:
                    store.save(data, arg)
                ev["out"] = "returned"
            except (Exception, KeyboardInterrupt) as e:
                ev["out"] = "raised " + type(e).__name__
        ev["fired"] = bool(inj and inj.fired)
        if core.canon(o) != before:
            ev["changed"] = core.exact_diff(core.canon(o), before)
        return ev
    if kind == "load":
        ev = {}
        target = op.get("target")
        if target is None:  # file of the path whatever class was saved there last
            target = _latest(root, paths[op["path"]], op["how"])
        if target is None:
            return {"out": "skipped"}
        op = dict(op, how=_how(os.path.join(root, target), op["how"]))
        arg = _arg(os.path.join(root, target), op, root)
        ev["rel"], ev["how"] = target, op["how"]
        with ops.quiet():
            try:
                if op["how"] == "list":
                    x = load_list(arg)
                elif op["how"] == "dict":
                    x = load_dict(arg)
                elif op["how"] == "load":
                    x = load(arg)
                else:
                    d = load_init_dict(arg)[1]
                    cls = getattr(SciDataTool, d["__class__"])
                    x = cls(init_str=arg) if op["how"] == "ctor" else cls(init_dict=d)
                ev["out"] = "returned"
            except Exception as e:
                ev["out"] = "raised %s: %s" % (type(e).__name__, str(e)[:80])
                return ev
        ev["content"] = core.freeze(x)
        ev["canon"] = core.canon(x)
        o = x[0] if op["how"] == "list" else x["first"] if op["how"] == "dict" else x
        ev["obj"] = o
        if op.get("as"):
            env[op["as"]] = o
        return ev
    if kind == "refs":
        return _refs(env, op, root)
    if kind == "restart" or not hist.runnable(env, op):
        return {"out": "skipped"}
    if kind == "set":
        try:
            mutate.apply_set(env, op)
            return {"out": "returned"}
        except Exception:
            return {"out": "raised"}
    oc, _ = ops.outcome(ops.Prepared(env, op, core.SCRATCH))
    return {"out": oc[0]}


def _how(path, how):
    """Way of loading that fits the kind of document last saved there"""
    try:
        with open(path) as f:
            d = json.load(f)
    except ValueError:
        return how
    if isinstance(d, list):
        return "list"
    if "__class__" not in d:
        return "dict"
    return how if how not in ("list", "dict") else "load"


def _latest(root, path, how):
    """Existing file of a path for the way it is loaded"""
    for cls in {"list": ["list"], "dict": ["dict"]}.get(how, ["DataTime", "DataFreq", "DataND", "DataDual", "VectorField", "Data1D", "DataLinspace", "DataPattern"]):
        rel = store.place(root, path, cls)[1]
        if os.path.isfile(os.path.join(root, rel)):
            return rel
    return None


def _refs(env, op, root):
    """Save the parts of an object one by one and build it again from references to the files"""
    o = env.get(op["on"])
    if o is None:
        return {"out": "skipped"}
    ev = {"rel": None, "content0": core.freeze(o), "out": "returned"}
    base = os.path.join(root, "b", "parts")
    os.makedirs(base, exist_ok=True)

    def part(k, x):
        p = os.path.join(base, "%s.json" % k)
        x.save(p)
        return _arg(p, op, root)

    with ops.quiet():
        try:
            props = {p: getattr(o, p) for p in core.lib_props(type(o))}
            if isinstance(o, VectorField):
                props["components"] = {k: part(k, c) for k, c in o.components.items()}
            else:
                for p in ("axes", "axes_dt", "axes_df"):
                    if props.get(p):
                        props[p] = [part("%s%d" % (p, i), a) for i, a in enumerate(props[p])]
            x = type(o)(**props)
        except Exception as e:
            ev["out"] = "raised %s: %s" % (type(e).__name__, str(e)[:80])
            return ev
    ev["content"], ev["canon"], ev["obj"] = core.freeze(x), core.canon(x), x
    if op.get("as"):
        env[op["as"]] = x
    return ev


# --------------------------------------------------------------------------- judgement
def _segment(sc, lo, hi, root):
    """One simulated process: operations lo..hi-1"""
    env = store.build(sc["world"])
    out = []
    for i in range(lo, hi):
        op = sc["ops"][i]
        ev = _do(env, op, root, sc["paths"], sc["world"])
        x = ev.pop("obj", None)
        if x is not None:
            ev["key"] = hist.config_key(x)
            ev["answers"] = core.forkcall(_answers, x, op.get("ask", []))
        out.append(ev)
    return out


def _answers(o, asks):
    hist.reseed()
    out = []
    for a in asks:
        env = {"?": o}
        out.append(ops.outcome(ops.Prepared(env, a, core.SCRATCH))[0])
    return out


def _model(content, asks, first):
    """Content and answers of an object freshly built from the model"""
    x = core.thaw(content)
    o = first and (x[0] if first == "list" else x["first"]) or x
    c = core.canon(x)
    return c, _answers(o, asks)


def unorder(t):
    """Canonical tree with dictionary keys in sorted order"""
    if isinstance(t, tuple):
        if t and t[0] == "d":
            return ("d", sorted(((unorder(k), unorder(v)) for k, v in t[1]), key=lambda kv: repr(kv[0])))
        return tuple(unorder(e) for e in t)
    if isinstance(t, list):
        return [unorder(e) for e in t]
    return t


def judge(sc):
    root = _fresh()
    cuts = [0] + [i for i, o in enumerate(sc["ops"]) if o["op"] == "restart"] + [len(sc["ops"])]
    n = {"comparisons": 0, "operations": 0, "processes": 0, "loads": 0, "saves": 0}
    faults, distinct, log, v = {}, set(), [], None
    model, born, since = {}, {}, {}
    for s, (lo, hi) in enumerate(zip(cuts, cuts[1:])):
        n["processes"] += 1
        for i, ev in zip(range(lo, hi), core.forkcall(_segment, sc, lo, hi, root)):
            op = sc["ops"][i]
            n["operations"] += 1
            what = None
            if op["op"] == "save" and ev["out"] != "skipped":
                n["saves"] += 1
                if ev.get("changed"):
                    what = "saving changed the object: %s" % ev["changed"]
                if ev["fired"]:
                    faults["%s raised inside the save" % op["exc"]] = faults.get("%s raised inside the save" % op["exc"], 0) + 1
                if op.get("bad"):
                    faults["unserialisable content"] = faults.get("unserialisable content", 0) + 1
                if ev["out"] == "returned":
                    model[ev["rel"]] = [ev["content"]]
                    born[ev["rel"]] = (s, i)
                    since[ev["rel"]] = set()
                elif ev["fired"]:
                    model.setdefault(ev["rel"], [None]).append(ev["content"])
                    since.setdefault(ev["rel"], set()).add("failed save")
                    born.setdefault(ev["rel"], (s, i))
                elif not op.get("bad"):
                    what = "the save %s" % ev["out"]
            elif op["op"] in ("load", "refs") and ev["out"] != "skipped" and (op["op"] == "refs" or ev["rel"] in model):
                n["loads"] += 1
                allowed = model[ev["rel"]] if op["op"] == "load" else [ev["content0"]]
                if ev["out"] != "returned":
                    if None not in allowed:
                        what = "the load %s" % ev["out"]
                else:
                    diffs = []
                    for c in allowed:
                        if c is None:
                            continue
                        n["comparisons"] += 1
                        first = ev["how"] if ev.get("how") in ("list", "dict") else None
                        exp, ans = core.forkcall(_model, c, op.get("ask", []), first)
                        d = core.diff(unorder(ev["canon"]), unorder(exp), rtol=0.0)
                        if d:
                            diffs.append("content differs: %s (loaded != saved)" % d)
                            continue
                        for a, x, y in zip(op.get("ask", []), ev["answers"], ans):
                            n["comparisons"] += 1
                            d = core.diff(unorder(x), unorder(y))
                            if d:
                                diffs.append("%s is answered differently: %s (loaded != saved)" % (ops.describe(a), d))
                                break
                        else:
                            diffs = None
                            break
                    if diffs:
                        what = diffs[0]
                    if op["op"] == "load" and since[ev["rel"]] or s != born.get(ev["rel"], (s,))[0] or op["op"] == "refs":
                        distinct.add(core.derive(ev["key"], op.get("how", "refs"), op["rel"], sorted(since.get(ev["rel"], ())), s - born.get(ev["rel"], (s,))[0]))
            for x in since.values():
                x.add(op["op"] if op["op"] in ("save", "load", "set", "refs", "restart") else "query")
            log.append((op["op"], ev["out"], core.digest(ev.get("canon")), core.digest(ev.get("answers"))))
            if what:
                v = {"cls": "%s: %s" % (op["op"], what.split(":")[0]), "what": "step %d, %s: %s" % (i, describe(op, sc), what), "sig": op["op"]}
                break
        if v:
            break
    disk.empty(root)
    sample = "; ".join(describe(o, sc) for o in sc["ops"][:5])
    return hist.result(v, n, faults, {"distinct": distinct}, sample, log)


def describe(op, sc):
    k = op["op"]
    if k == "save":
        return "save %s%s to %s path %d%s" % (op["on"], " in a " + op["wrap"] if op.get("wrap") else "", sc["paths"][op["path"]]["style"], op["path"], " (failing)" if op.get("bad") or op.get("exc") else "")
    if k == "load":
        return "load (%s) %s path %d" % (op["how"], sc["paths"][op["path"]]["style"], op["path"])
    if k == "refs":
        return "rebuild %s from saved parts" % op["on"]
    if k == "restart":
        return "restart"
    return mutate.describe(op) if k == "set" else ops.describe(op)


def shrinks(sc):
    for c in hist.shrink_history(sc):
        yield c
    for i, op in enumerate(sc["ops"]):
        if len(op.get("ask", [])) > 1:
            for j in range(len(op["ask"])):
                o = copy.deepcopy(op)
                o["ask"] = [o["ask"][j]]
                yield dict(sc, ops=sc["ops"][:i] + [o] + sc["ops"][i + 1 :])
