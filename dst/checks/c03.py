"""C03 - a query that fails or is interrupted leaves no trace."""
from .. import core, hist, inject, ops, world as W

ID = "C03"
LEVEL = "fault_enumeration"
TECHNIQUE = "deterministic simulation with fault injection at seeded steps of the library's code; content invariants and refinement of later answers"
LEVEL_NOTE = (
    "For each drawn query, faults are raised at seeded steps (all of them when the query is short): line boundaries and C calls of library frames, and calls "
    "of user functions. Steps inside clean-up code (finally/except bodies) are not fault points. Queries and objects are random samples."
)
RULE = (
    "one case = one fault (memory error, keyboard interrupt, I/O error, failing user function) that actually fired inside a query; afterwards the deep "
    "content of every object and argument is compared bit for bit, and probe queries are compared with a fresh object in a pristine process. Distinct = "
    "distinct (configuration, operation, request shape, source function where the fault struck, fault kind); non-trivial = the fault fired."
)
ASSUME = [
    "faults strike at line boundaries and at C calls of library frames, not inside clean-up code",
    "content = public stored properties (see C01)",
]
COMPONENTS = dict(hist.COMPONENTS, stubbed="none; faults enter through the interpreter's trace and profile hooks and through user functions")
PLAN = {
    "quick": {"runs": 4000, "seconds": 75, "min_runs": 120},
    "thorough": {"runs": 60000, "seconds": 780, "min_runs": 1200},
}
EXCLUDE = ("eq", "compare", "str", "sizeof")


def gen(seed, tier):
    rng = core.rng_for(seed)
    w = W.gen_world(rng, None, n=1)
    hist.reseed()
    env = W.build(w)
    pre = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        op = ops.gen_op(rng, env, scratch=core.SCRATCH, exclude=EXCLUDE + tuple(ops.PLOT_OPS))
        if op:
            pre.append(op)
    op = ops.gen_op(rng, env, scratch=core.SCRATCH, exclude=EXCLUDE, bad=0.05)
    probes = [{k: v for k, v in op.items() if k != "as"}]
    for _ in range(2):
        p = ops.gen_op(rng, env, scratch=core.SCRATCH, exclude=EXCLUDE + tuple(ops.PLOT_OPS), bad=0.02)
        if p:
            probes.append(p)
    trail, calls, _ = inject.count_steps(ops.Prepared(env, op, core.SCRATCH))
    k = {"quick": 14, "thorough": 40}[tier]
    if op["op"] in ops.PLOT_OPS:
        k //= 2
    faults = inject.draw_faults(rng, trail, calls, k)
    rng.shuffle(faults)
    for i, f in enumerate(faults):
        f["probe"] = i == len(faults) - 1 or rng.random() < 0.15
    return {"world": w, "pre": pre, "op": op, "faults": faults, "probes": probes}


def judge(sc):
    r = core.forkcall(_run, sc, core.SCRATCH)
    v = r["v"]
    if not v:
        expected = {}
        for fi, pi, out in r["probed"]:
            if pi not in expected:
                expected[pi] = core.forkcall(_alone, r["state"], sc["probes"][pi], core.SCRATCH)
            r["n"]["later answers compared"] += 1
            d = core.diff(out, expected[pi])
            r["log"].append((fi, pi, core.digest(out), core.digest(expected[pi])))
            if d:
                p, f = sc["probes"][pi], sc["faults"][fi]
                v = {
                    "cls": "later answer changed by failed %s" % sc["op"]["op"],
                    "what": "after %s failed (%s at step %d) %s answers differently from a fresh object: %s (now != fresh)"
                    % (ops.describe(sc["op"]), f["kind"], f["at"], ops.describe(p), d),
                    "sig": "probe|%s|%s" % (r["cls"], sc["op"]["op"]),
                }
                break
    return hist.result(v, r["n"], r["faults"], {"distinct": r["distinct"], "fault sites": r["sites"]}, r["sample"], r["log"])


def _run(sc, scratch):
    hist.reseed()
    env = W.build(sc["world"])
    n = {"comparisons": 0, "operations": 0, "library steps": 0, "later answers compared": 0, "faults not reached": 0}
    faults, distinct, sites, log, probed = {}, set(), set(), [], []
    for op in sc["pre"]:
        if hist.runnable(env, op):
            hist.adopt(env, op, ops.outcome(ops.Prepared(env, op, scratch))[1])
    op = sc["op"]
    res = {"v": None, "n": n, "faults": faults, "distinct": distinct, "sites": sites, "log": log, "probed": probed, "state": {}, "cls": "", "sample": ""}
    if not hist.runnable(env, op):
        return res
    cls = res["cls"] = type(env[op["on"]]).__name__
    keys = set()
    for p in sc["probes"]:
        keys.update([p["on"]] + ([p["other"]] if p.get("other") else []) + list(p.get("others", [])))
    res["state"] = {k: core.freeze(env[k]) for k in keys if k in env}
    base = {k: core.canon(env[k]) for k in env}
    for fi, f in enumerate(sc["faults"]):
        prep = ops.Prepared(env, op, scratch)
        abefore = core.canon(prep.arguments())
        out, raw, fired, steps, where = inject.faulted(prep, f)
        raw = None
        n["operations"] += 1
        n["library steps"] += steps
        if not fired:
            n["faults not reached"] += 1
            continue
        name = f["kind"] if f["kind"] != "callback" else "user function raising " + f["exc"]
        faults[name] = faults.get(name, 0) + 1
        n["comparisons"] += 1
        sites.add(where)
        distinct.add(core.derive(hist.op_key(env, op, ("ok",)), where, f["kind"]))
        log.append((f["kind"], f["at"], where, out[0]))
        for k in base:
            d = core.exact_diff(core.canon(env[k]), base[k])
            if d:
                res["v"] = {
                    "cls": "content left changed by failed %s.%s" % (cls, op["op"]),
                    "what": "%s cut short by %s at step %d (%s) left %s changed: %s (now != before)" % (ops.describe(op), name, f["at"], where, k, d),
                    "sig": "content|%s|%s|%s" % (cls, op["op"], d.split(":")[0]),
                }
                return res
        d = core.exact_diff(core.canon(prep.arguments()), abefore)
        if d:
            res["v"] = {
                "cls": "argument left changed by failed %s.%s" % (cls, op["op"]),
                "what": "%s cut short by %s at step %d (%s) left an argument changed: %s (now != before)" % (ops.describe(op), name, f["at"], where, d),
                "sig": "arg|%s|%s" % (cls, op["op"]),
            }
            return res
        if f.get("probe"):
            for pi, p in enumerate(sc["probes"]):
                if hist.runnable(env, p) and all(k in res["state"] for k in [p["on"]]):
                    probed.append((fi, pi, ops.outcome(ops.Prepared(env, p, scratch))[0]))
    res["sample"] = "%s with %s" % (ops.describe(op), ["%s@%d" % (f["kind"], f["at"]) for f in sc["faults"][:4]])
    return res


def _alone(state, op, scratch):
    hist.reseed()
    env = {k: core.thaw(s) for k, s in state.items()}
    return ops.outcome(ops.Prepared(env, op, scratch))[0]


def shrinks(sc):
    for xs in hist.shrink_list(sc["faults"]):
        if xs:
            yield dict(sc, faults=xs)
    for xs in hist.shrink_list(sc["pre"]):
        yield dict(sc, pre=xs)
    if len(sc["probes"]) > 1:
        for xs in hist.shrink_list(sc["probes"]):
            if xs:
                yield dict(sc, probes=xs)
    for c in hist.shrink_world(sc):
        yield c
