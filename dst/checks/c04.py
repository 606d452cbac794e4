"""C04 - failures inside a query surface; never a silently wrong answer."""
import copy

from .. import core, hist, inject, ops, world as W

ID = "C04"
LEVEL = "fault_enumeration"
TECHNIQUE = "deterministic simulation with fault injection at seeded steps of the library's code; outcome compared with the fault-free run"
LEVEL_NOTE = (
    "For each drawn call, faults are raised at seeded steps (all of them when the call is short), clean-up code included, and in calls of user functions. "
    "Calls and objects are random samples."
)
RULE = (
    "one case = one fault (memory error, keyboard interrupt, I/O error, failing user function) that actually fired inside a query, constructor, as_dict or "
    "copy; the call must have raised, or returned the outcome of the same call without the fault (and must have raised if the fault was an interrupt). "
    "Distinct = distinct (configuration, operation, request shape, source line where the fault struck, fault kind); non-trivial = the fault fired."
)
ASSUME = ["faults strike at line boundaries and at C calls of library frames", "the answer without the fault is the library's own"]
COMPONENTS = dict(hist.COMPONENTS, stubbed="none; faults enter through the interpreter's trace and profile hooks and through user functions")
PLAN = {
    "quick": {"runs": 10000, "seconds": 75, "min_runs": 120},
    "thorough": {"runs": 60000, "seconds": 780, "min_runs": 1200},
}
SPECIAL = ("@build", "@fromdict", "@rebuild")


class Special:
    """Constructions: the whole world, one object from its dictionary, one object from its properties"""

    def __init__(self, env, op, world):
        self.op = op
        if op["op"] == "@build":
            self.call = lambda: W.build(world)
        elif op["op"] == "@fromdict":
            obj = env[op["on"]]
            with ops.quiet():
                d = copy.deepcopy(obj.as_dict())
            self.call = lambda: type(obj)(init_dict=d)
        else:
            frozen = core.freeze(env[op["on"]])
            self.call = lambda: core.thaw(frozen)


def prepare(sc, scratch):
    hist.reseed()
    env = W.build(sc["world"])
    if sc["op"]["op"] in SPECIAL:
        return Special(env, sc["op"], sc["world"])
    return ops.Prepared(env, sc["op"], scratch)


def describe(op):
    return "construction %s of %s" % (op["op"][1:], op["on"]) if op["op"] in SPECIAL else ops.describe(op)


def gen(seed, tier):
    rng = core.rng_for(seed)
    w = W.gen_world(rng, None, n=1)
    hist.reseed()
    env = W.build(w)
    r = rng.random()
    if r < 0.16:
        op = {"op": rng.choice(SPECIAL), "on": rng.choice(sorted(env)), "args": [], "kw": {}}
    elif r < 0.26:
        op = ops.gen_op(rng, env, scratch=core.SCRATCH, only=("as_dict", "copy"), axis_weight=0.4)
    elif r < 0.34:
        op = ops.gen_op(rng, env, scratch=core.SCRATCH, only=tuple(ops.PLOT_OPS) + ("plot_export", "export_along"), axis_weight=0)
    else:
        op = ops.gen_op(rng, env, scratch=core.SCRATCH, bad=0.05)
    sc = {"world": w, "op": op, "faults": []}
    try:
        trail, calls, _ = inject.count_steps(prepare(sc, core.SCRATCH), safe=False)
    except Exception:  # as_dict itself refuses this content
        sc["op"] = {"op": "@build", "on": "o0", "args": [], "kw": {}}
        trail, calls, _ = inject.count_steps(prepare(sc, core.SCRATCH), safe=False)
    k = {"quick": 20, "thorough": 60}[tier]
    if op["op"] in ops.PLOT_OPS:
        k //= 2
    sc["faults"] = inject.draw_faults(rng, trail, calls, k)
    return sc


def judge(sc):
    return core.forkcall(_run, sc, core.SCRATCH)


def _run(sc, scratch):
    n = {"comparisons": 0, "operations": 0, "library steps": 0, "calls that raised": 0, "calls that returned": 0, "faults not reached": 0}
    faults, distinct, sites, log, v = {}, set(), set(), [], None
    op = sc["op"]
    env = W.build(sc["world"])
    if op["op"] != "@build" and not hist.runnable(env, op):
        return hist.result(None, n, faults)
    key = hist.op_key(env, op, ("ok",))
    cls = type(env[op["on"]]).__name__ if op["op"] != "@build" else "world"
    W.Callbacks.reset()
    expected, _ = ops.outcome(prepare(sc, scratch))
    for f in sc["faults"]:
        out, raw, fired, steps, where = inject.faulted(prepare(sc, scratch), f, safe=False)
        raw = None
        n["operations"] += 1
        n["library steps"] += steps
        if not fired:
            n["faults not reached"] += 1
            continue
        name = f["kind"] if f["kind"] != "callback" else "user function raising " + f["exc"]
        faults[name] = faults.get(name, 0) + 1
        n["comparisons"] += 1
        sites.add(where)
        distinct.add(core.derive(key, where, f["kind"]))
        log.append((f["kind"], f["at"], where, out[0]))
        if out[0] == "err":
            n["calls that raised"] += 1
            continue
        n["calls that returned"] += 1
        d = core.diff(out, expected)
        if d:
            v = {
                "cls": "%s.%s answered wrongly after %s" % (cls, op["op"], f["kind"]),
                "what": "%s met %s at step %d (%s) and returned another answer: %s (with fault != without)" % (describe(op), name, f["at"], where, d),
                "sig": "wrong|%s|%s|%s" % (cls, op["op"], where.split(":")[0]),
            }
            break
        if f["kind"] == "KeyboardInterrupt" or f.get("exc") == "KeyboardInterrupt":
            v = {
                "cls": "%s.%s swallowed an interrupt" % (cls, op["op"]),
                "what": "%s met a keyboard interrupt at step %d (%s) and returned as if nothing had happened" % (describe(op), f["at"], where),
                "sig": "swallow|%s|%s|%s" % (cls, op["op"], where.split(":")[0]),
            }
            break
    sample = "%s with %s" % (describe(op), ["%s@%d" % (f["kind"], f["at"]) for f in sc["faults"][:4]])
    return hist.result(v, n, faults, {"distinct": distinct, "fault sites": sites}, sample, log)


def shrinks(sc):
    for xs in hist.shrink_list(sc["faults"]):
        if xs:
            yield dict(sc, faults=xs)
    for c in hist.shrink_world(sc):
        yield c
