"""C02 - an answer depends only on the object's current content."""
from .. import core, hist, mutate, ops, world as W

ID = "C02"
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: seeded call and assignment histories, every answer refined against a fresh object in a pristine process"
LEVEL_NOTE = (
    "Random seeded histories; the oracle is the library itself on a freshly built object of equal content in a process that has made no other call. "
    "Wrong answers that a fresh object gives too are outside this property."
)
RULE = (
    "one case = one query inside a seeded history of queries (successful and failing), assignments through public attributes and object replacements; "
    "its answer is compared with the answer of a freshly built object of the same current content in a pristine process (numbers rtol 1e-9, exceptions by "
    "type). Distinct = distinct (configuration of target, operation, request shape with numbers blanked, outcome kind, kind of the two preceding steps); "
    "non-trivial = at least one call was made in the process before."
)
ASSUME = [
    "content = public stored properties; a fresh object is the class constructor called with them",
    "two evaluations of one request agree within rtol 1e-9 (rounding may depend on memory alignment)",
]
COMPONENTS = dict(hist.COMPONENTS)
PLAN = {
    "quick": {"runs": 3500, "seconds": 80, "min_runs": 120},
    "thorough": {"runs": 60000, "seconds": 780, "min_runs": 1200},
}


def gen(seed, tier):
    rng = core.rng_for(seed)
    n = rng.choice([8, 12, 18] if tier == "thorough" else [8, 12])
    p_set = rng.choice([0.0, 0.15, 0.3, 0.45])
    w = W.gen_world(rng, None, n=rng.choice([1, 2, 2, 3]))
    focus = rng.random() < 0.5  # half of the histories ask variations of few requests

    pool = []

    def extra(rng, env, i):
        if i and rng.random() < p_set:
            op = mutate.gen_set(rng, env, w)
            if op:
                try:
                    mutate.apply_set(env, op, w)
                except Exception:
                    return None
                return op
        if focus and len(pool) >= 3:
            op = rng.choice(pool)
            if hist.runnable(env, op):
                return {k: v for k, v in op.items() if k != "as"}
        return None

    sc = {"world": w, "ops": []}
    hist.reseed()
    env = W.build(w)
    for i in range(n):
        op = extra(rng, env, i)
        if op is None:
            op = ops.gen_op(rng, env, scratch=core.SCRATCH)
            if op is None:
                continue
            if op["op"] in ops.DERIVE and rng.random() < 0.5:
                op["as"] = "d%d" % i
                hist.adopt(env, op, ops.outcome(ops.Prepared(env, op, core.SCRATCH))[1])
            pool.append(op)
        sc["ops"].append(op)
        if op["op"] != "set" and op["op"] not in ops.PLOT_OPS and rng.random() < 0.1:
            sc["ops"].append({k: v for k, v in op.items() if k != "as"})
    return sc


def judge(sc):
    steps = core.forkcall(_run, sc, core.SCRATCH)
    n = {"comparisons": 0, "operations": len(steps), "assignments": 0, "calls that raised": 0}
    distinct, log, v = set(), [], None
    prev = ("", "")
    for i, st in enumerate(steps):
        op = st["op"]
        if op["op"] == "set":
            n["assignments"] += 1
            log.append(("set", st["ok"]))
        else:
            exp = core.forkcall(_alone, st["state"], op, core.SCRATCH)
            n["comparisons"] += 1
            n["calls that raised"] += st["out"][0] == "err"
            if i:
                distinct.add(core.derive(st["key"], prev))
            log.append((ops.describe(op), st["out"][0], core.digest(st["out"]), core.digest(exp)))
            d = core.diff(st["out"], exp)
            if d:
                v = {
                    "cls": "answer of %s.%s depends on history" % (st["cls"], op["op"]),
                    "what": "after %d earlier steps %s answered differently from a fresh object of equal content: %s (history != fresh)" % (i, ops.describe(op), d),
                    "sig": "%s|%s" % (st["cls"], op["op"]),
                }
                break
        prev = (prev[1], op["op"] if op["op"] != "set" else "set " + op["how"])
    sample = "; ".join(ops.describe(s["op"]) if s["op"]["op"] != "set" else mutate.describe(s["op"]) for s in steps[:4])
    return hist.result(v, n, {}, {"distinct": distinct}, sample, log)


def _run(sc, scratch):
    hist.reseed()
    env = W.build(sc["world"])
    out = []
    for op in sc["ops"]:
        if not hist.runnable(env, op):
            continue
        if op["op"] == "set":
            try:
                mutate.apply_set(env, op, sc["world"])
                ok = True
            except Exception:  # an assignment the class refuses
                ok = False
            out.append({"op": op, "ok": ok})
            continue
        keys = [op["on"]] + ([op["other"]] if op.get("other") else []) + list(op.get("others", []))
        state = {k: core.freeze(env[k]) for k in dict.fromkeys(keys)}
        oc, raw = ops.outcome(ops.Prepared(env, op, scratch))
        out.append({"op": op, "state": state, "out": oc, "cls": type(env[op["on"]]).__name__, "key": hist.op_key(env, op, oc)})
        hist.adopt(env, op, raw)
    return out


def _alone(state, op, scratch):
    hist.reseed()
    env = {k: core.thaw(s) for k, s in state.items()}
    return ops.outcome(ops.Prepared(env, op, scratch))[0]


shrinks = hist.shrink_history
