"""C06 - results and derived objects are independent of their source."""
import numpy as np

from .. import core, hist, ops, world as W

ID = "C06"
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: seeded histories of queries and derivations interleaved with in-place modifications of results and sources, all other parties watched"
LEVEL_NOTE = (
    "Random seeded histories over random objects. What is modified is everything reachable from the party that can be written in place; sharing between parts "
    "of one result, and between objects the caller built from the same parts, is by design and not judged."
)
RULE = (
    "one case = one in-place modification of a result, of a derived object or of the sources (or one repetition of a request after such a modification); after "
    "it the content of every other party is compared bit for bit with what it was, and a repeated request with its first answer. Distinct = distinct "
    "(configuration of target, operation, request shape, outcome kind, which side was modified); non-trivial = at least one other party with array, list, "
    "dictionary or object content was watched."
)
ASSUME = [
    "parties: the objects of the world together (they are built from common parts), each result, each derived object, each object built from a description",
    "attribute access and the axes accessor hand out live parts by design; plots are not results",
]
COMPONENTS = dict(hist.COMPONENTS)
PLAN = {
    "quick": {"runs": 12000, "seconds": 75, "min_runs": 300},
    "thorough": {"runs": 200000, "seconds": 780, "min_runs": 3000},
}
EXCLUDE = tuple(ops.PLOT_OPS) + ("get_axes", "eq", "compare", "str", "sizeof", "export_along", "plot_export", "has_period", "get_length", "get_periodicity")
CLASSES = ["Data1D", "DataLinspace", "DataPattern", "DataTime", "DataFreq", "DataND", "DataDual", "VectorField", "Norm_vector", "Norm_ref", "Norm_affine", "Norm_indices", "Norm_func"]


def gen(seed, tier):
    rng = core.rng_for(seed)
    w = W.gen_world(rng, None, n=rng.choice([1, 1, 2]))
    hist.reseed()
    env = W.build(w)
    steps, results = [], []
    n = rng.choice([4, 6, 9]) if tier == "quick" else rng.choice([4, 8, 14])
    for i in range(n):
        r = rng.random()
        if results and r < 0.2:
            steps.append({"again": rng.choice(results)})
        elif results and r < 0.42:
            steps.append({"scribble": rng.choice(results)})
        elif r < 0.5:
            name = rng.choice(sorted(env))
            steps.append({"twins": name, "how": rng.choice(["dict", "dict", "dict", "copy", "default"]), "id": "t%d" % i, "kw": {"keep_function": True} if rng.random() < 0.5 else {}, "cls": rng.choice(CLASSES)})
            results += ["t%d" % i, "t%d'" % i, "t%d''" % i]
        elif results and r < 0.56 and i > 1:
            steps.append({"scribble": "world", "on": rng.choice(sorted(k for k in env if k[0] in "oa"))})
        else:
            op = ops.gen_op(rng, env, scratch=core.SCRATCH, exclude=EXCLUDE, bad=0.0, axis_weight=0.3)
            if op is None:
                continue
            if op["op"] in ops.DERIVE and rng.random() < 0.5:
                op["as"] = "d%d" % i
                hist.adopt(env, op, ops.outcome(ops.Prepared(env, op, core.SCRATCH))[1])
            op["id"] = "r%d" % i
            steps.append(op)
            results.append(op["id"])
    if results:
        steps.append({"scribble": rng.choice(results)})
        steps.append({"again": rng.choice(results)})
        steps.append({"scribble": "world", "on": rng.choice(sorted(k for k in env if k[0] in "oa"))})
    return {"world": w, "ops": steps}


# --------------------------------------------------------------------------- in-place modification of everything reachable
def scribble(x, seen=None):
    """Modify in place whatever can be; returns the number of places"""
    seen = {} if seen is None else seen
    if id(x) in seen:
        return 0
    seen[id(x)] = x
    n = 0
    if isinstance(x, np.ndarray):
        if not x.flags.writeable:
            return 0
        if x.dtype == object:
            for e in x.ravel().tolist():
                n += scribble(e, seen)
            x[...] = "zz"
        elif x.dtype.kind in "US":
            x[...] = "z"
        elif x.dtype.kind == "b":
            np.logical_not(x, out=x)
        else:
            with np.errstate(all="ignore"):
                x[...] = x + x.dtype.type(1) if x.dtype.kind != "f" else np.where(np.isfinite(x), x * 1.5 + 1, 0.25)
        return n + (1 if x.size else 0)
    if isinstance(x, list):
        parts = any(core.is_lib_obj(e) for e in x)
        for e in list(x):
            n += scribble(e, seen)
        if parts:
            x.pop()
        else:
            x.append(12345)
        return n + 1
    if isinstance(x, tuple):
        return sum(scribble(e, seen) for e in x)
    if isinstance(x, dict):
        parts = any(core.is_lib_obj(e) for e in x.values())
        for k in list(x):
            n += scribble(x[k], seen)
        if parts:
            x.popitem()
        else:
            x["scribble"] = 1
        return n + 1
    if core.is_lib_obj(x):
        for p in core.lib_props(type(x)):
            try:
                v = getattr(x, p)
            except Exception:
                continue
            n += scribble(v, seen)
            try:
                if isinstance(v, str):
                    setattr(x, p, v + "z")
                    n += 1
                elif isinstance(v, bool):
                    setattr(x, p, not v)
                    n += 1
                elif isinstance(v, float):
                    setattr(x, p, v + 1.0)
                    n += 1
            except Exception:
                pass
        return n
    return 0


def rich(t):
    """Whether a canonical tree holds anything that can be modified in place"""
    return isinstance(t, tuple) and bool(t) and t[0] in ("nd", "ndo", "l", "d", "o", "t")


def judge(sc):
    return core.forkcall(_run, sc, core.SCRATCH)


def _twins(env, st):
    import importlib

    obj = env[st["twins"]]
    if st["how"] == "copy":
        return obj.copy(), obj.copy(), None
    if st["how"] == "default":
        cls = getattr(importlib.import_module("SciDataTool.Classes." + st["cls"]), st["cls"])
        return cls(), cls(), None
    d = obj.as_dict(**st["kw"])
    cls = type(obj)
    return cls(init_dict=d), cls(init_dict=d), d


def _run(sc, scratch):
    hist.reseed()
    env = W.build(sc["world"])
    first = set(env)
    party = {"world": {k: env[k] for k in env}}  # party -> live value
    state = {"world": core.canon(party["world"])}
    origin, answer, of, spoilt = {}, {}, {}, set()
    n = {"comparisons": 0, "operations": 0, "modifications": 0, "places modified": 0, "requests repeated": 0}
    distinct, log, v = set(), [], None

    def watch(changed, what, sig):
        """Every party but the changed one is as before"""
        for k in party:
            if k == changed:
                continue
            now = core.canon(party[k])
            if rich(state[k]):
                n["comparisons"] += 1
            d = core.exact_diff(now, state[k])
            log.append((changed, k, core.digest(now)))
            if d:
                whose = "the sources" if k == "world" else "the result of " + origin.get(k, k)
                return {"cls": "%s shares state with %s" % (sig, "its source" if "world" in (k, changed) else "another result"), "what": "%s changed %s: %s (now != before)" % (what, whose, d), "sig": "shared|" + sig}
        return None

    for st in sc["ops"]:
        if "scribble" in st:
            k = st["scribble"]
            if k not in party or k in spoilt:
                continue
            if k == "world":
                if st["on"] not in env:
                    continue
                n["places modified"] += scribble(env[st["on"]])
                spoilt.update(p for p in party if p == "world")
                what = "modifying %s in place" % st["on"]
                # which result noticed is what matters: attribute to its operation
            else:
                n["places modified"] += scribble(party[k])
                spoilt.add(k)
                what = "modifying in place what %s returned" % origin[k]
            n["modifications"] += 1
            v = watch(k, what, of.get(k, "a result"))
            if v:
                if k == "world":
                    hit = [p for p in party if p != k and core.exact_diff(core.canon(party[p]), state[p])]
                    v["cls"] = "%s shares state with its source" % of.get(hit[0], hit[0])
                    v["sig"] = "shared|" + of.get(hit[0], hit[0])
                break
            state[k] = core.canon(party[k])
            distinct.add(core.derive(of.get(k), k == "world", answer.get(k, {}).get("key")))
            continue
        if "again" in st:
            k = st["again"]
            a = answer.get(k)
            if a is None or a["group"] & spoilt or not hist.runnable(env, a["op"]):
                continue
            oc, raw = ops.outcome(ops.Prepared(env, a["op"], scratch))
            n["requests repeated"] += 1
            n["comparisons"] += 1
            log.append(("again", k, core.digest(oc)))
            d = core.diff(oc, a["out"])
            if d:
                v = {
                    "cls": "later result of %s carries a modification of an earlier one" % of[k],
                    "what": "%s asked again after results were modified in place: %s (again != first)" % (ops.describe(a["op"]), d),
                    "sig": "again|" + of[k],
                }
                break
            continue
        if "twins" in st:
            if st["twins"] not in env or st["how"] != "default" and st["twins"] not in first and st["twins"] in spoilt:
                continue
            with ops.quiet():
                try:
                    a, b, c = _twins(env, st)
                except Exception as e:
                    log.append(("twins", type(e).__name__))
                    continue
            for k, x in ((st["id"], a), (st["id"] + "'", b), (st["id"] + "''", c)):
                if x is None:
                    continue
                party[k], state[k] = x, core.canon(x)
                what = "%s of %s" % ({"dict": "construction from one description", "copy": "copy"}[st["how"]], st["twins"]) if st["how"] != "default" else "construction of %s with default arguments" % st["cls"]
                origin[k] = what if x is not c else "the description of %s" % st["twins"]
                of[k] = "%s %s" % (type(a).__name__, st["how"])
            v = watch(None, what, of[st["id"]])
            if v:
                break
            continue
        op = st
        if not hist.runnable(env, op):
            continue
        keys = [op["on"]] + ([op["other"]] if op.get("other") else [])
        groups = {"world" if k in first else k for k in keys}
        named = {env_party(k, party) for k in groups}
        if named & spoilt:
            continue
        prep = ops.Prepared(env, op, scratch)
        oc, raw = ops.outcome(prep)
        n["operations"] += 1
        cls = type(env[op["on"]]).__name__
        if oc[0] != "ok" or raw is None:
            continue
        k = op["id"]
        party[k], state[k] = raw, core.canon(raw)
        origin[k], of[k] = ops.describe(op), "%s.%s" % (cls, op["op"])
        answer[k] = {"op": {x: y for x, y in op.items() if x != "as"}, "out": oc, "group": named, "key": hist.op_key(env, op, oc)}
        if op.get("as"):
            hist.adopt(env, op, raw)
            ALIAS[op["as"]] = k
        v = watch(None, "calling " + origin[k], of[k])
        if v:
            break
    sample = "; ".join(ops.describe(s) if "op" in s else str(s) for s in sc["ops"][:4])
    return hist.result(v, n, {}, {"distinct": distinct}, sample, log)


ALIAS = {}


def env_party(k, party):
    """Party an environment name belongs to"""
    return k if k == "world" else ALIAS.get(k, k)


shrinks = hist.shrink_history
