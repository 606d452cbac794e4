"""C01 - queries never change the data they read."""
from .. import core, hist, ops, world as W

ID = "C01"
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: seeded call histories with content invariants after every call"
LEVEL_NOTE = "Random seeded histories over a generated family of objects and requests; every call checked bit for bit. No completeness claim."
RULE = (
    "one case = one query call inside a seeded history (world of data objects, axes, vector fields; 8-16 calls, results re-used as targets); after each "
    "call the deep content of every live object and of all arguments is compared bit for bit with the content before. Distinct = distinct (configuration "
    "of the target, operation, shape of the request with numbers blanked, outcome kind); non-trivial = the call was executed on a live object."
)
ASSUME = [
    "content = the public stored properties of the library classes, recursively; back references (parent) and private attributes are bookkeeping",
    "single thread and no injected faults here (see C03, C05)",
]
COMPONENTS = dict(hist.COMPONENTS)
PLAN = {
    "quick": {"runs": 4000, "seconds": 60, "min_runs": 150},
    "thorough": {"runs": 60000, "seconds": 780, "min_runs": 1500},
}


def gen(seed, tier):
    rng = core.rng_for(seed)
    n = rng.choice([8, 12, 16])
    return hist.gen_history(rng, n, scratch=core.SCRATCH)


def judge(sc):
    return core.forkcall(_run, sc, core.SCRATCH)


def _run(sc, scratch):
    hist.reseed()
    env = W.build(sc["world"])
    n = {"comparisons": 0, "operations": 0, "calls that raised": 0}
    distinct, kinds, log = set(), set(), []
    v = None
    for op in sc["ops"]:
        if not hist.runnable(env, op):
            continue
        names = list(env)
        prep = ops.Prepared(env, op, scratch)
        before = {k: core.canon(env[k]) for k in names}
        abefore = core.canon(prep.arguments())
        out, raw = ops.outcome(prep)
        n["operations"] += 1
        n["comparisons"] += 1
        n["calls that raised"] += out[0] == "err"
        cls = type(env[op["on"]]).__name__
        key = hist.op_key(env, op, out)
        distinct.add(key)
        kinds.add(core.derive(cls, op["op"]))
        log.append((ops.describe(op), out[0], core.digest(out)))
        for k in names:
            d = core.exact_diff(core.canon(env[k]), before[k])
            if d:
                v = {
                    "cls": "content changed by %s.%s" % (cls, op["op"]),
                    "what": "%s changed the stored content of %s: %s (now != before)" % (ops.describe(op), k, d),
                    "sig": "%s|%s|%s" % (cls, op["op"], d.split(":")[0]),
                }
                break
        if not v:
            d = core.exact_diff(core.canon(prep.arguments()), abefore)
            if d:
                v = {
                    "cls": "argument changed by %s.%s" % (cls, op["op"]),
                    "what": "%s changed an argument of the caller: %s (now != before)" % (ops.describe(op), d),
                    "sig": "%s|%s|arg" % (cls, op["op"]),
                }
        if v:
            break
        hist.adopt(env, op, raw)
    sample = "; ".join(ops.describe(o) for o in sc["ops"][:4])
    return hist.result(v, n, {}, {"distinct": distinct, "class x operation": kinds}, sample, log)


shrinks = hist.shrink_history
