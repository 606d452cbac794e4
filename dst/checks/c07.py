"""C07 - dual-domain data agree with their two domains in any order."""
import copy
import re

from .. import core, hist, mutate, ops, world as W
from SciDataTool import DataDual, DataFreq, DataTime

ID = "C07"
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: seeded histories of mixed-domain requests on dual objects, every answer refined against plain objects made of its parts in a pristine process"
LEVEL_NOTE = (
    "Random seeded histories over random dual objects, built directly, by to_datadual, by copy or from their description. Judged are requests that name axes of "
    "one domain only; requests mixing both (time with wavenumbers) are made, to disturb, but which part answers them is not specified."
)
RULE = (
    "one case = one request in one domain inside a seeded history of requests in both domains (successful, failing, mixed), copies, descriptions and assignments; "
    "its answer is compared with the answer of a plain DataTime/DataFreq made of the dual object's current time/frequency part in a pristine process (rtol 1e-9, "
    "exceptions by type), and after it both stored representations are compared bit for bit with what they were. Distinct = distinct (configuration, origin of the "
    "object, operation, request shape, domain, domain of the previous request, outcome kind); non-trivial = the other domain was asked before, or the answer is an array."
)
ASSUME = [
    "a request is of the frequency domain if it names freqs or wavenumber, of the time domain if it names time or angle",
    "two evaluations of one request agree within rtol 1e-9 (rounding may depend on memory alignment)",
]
COMPONENTS = dict(hist.COMPONENTS)
PLAN = {
    "quick": {"runs": 3500, "seconds": 75, "min_runs": 120},
    "thorough": {"runs": 60000, "seconds": 780, "min_runs": 1200},
}
QUERIES = ["get_along", "get_magnitude_along", "get_phase_along", "get_data_along", "get_harmonics", "compare_along", "compare_magnitude_along", "compare_phase_along", "export_along", "plot_export", "plot_2D_Data", "plot_3D_Data"]
T, F = re.compile(r"^(time|angle)\b"), re.compile(r"^(freqs|wavenumber)\b")


def domain_of(op):
    args = [a for a in op.get("args", []) if isinstance(a, str)]
    t, f = any(T.match(a) for a in args), any(F.match(a) for a in args)
    return None if t == f else ("t" if t else "f")


def part(d, dom):
    """Plain object made of one part of a dual one"""
    if not isinstance(d, DataDual):
        return d
    kw = dict(name=d.name, symbol=d.symbol, unit=d.unit, normalizations=d.normalizations, is_real=d.is_real, FTparameters=d.FTparameters)
    if dom == "t":
        return DataTime(axes=d.axes_dt, values=d.values_dt, **kw)
    return DataFreq(axes=d.axes_df, values=d.values_df, **kw)


def gen(seed, tier):
    rng = core.rng_for(seed)
    kinds = rng.choice([["DataDual"], ["DataDual"], ["DataDual", "DataDual"], ["DataTime", "DataFreq"], ["DataTime"], ["DataFreq"], ["DataDual", "DataTime"]])
    w = W.gen_world(rng, kinds)
    if rng.random() < 0.4:  # a second dual object over the same or equal axes
        for o in list(w["obj"]):
            if o["k"] == "DataDual":
                c = copy.deepcopy(o)
                c["vals"]["seed"], c["vals_df"]["seed"] = rng.randrange(10**6), rng.randrange(10**6)
                if rng.random() < 0.5:
                    for k in ("axes_dt", "axes_df"):
                        c[k] = [W._clone(w["ax"], j) for j in c[k]]
                w["obj"].append(c)
                break
    hist.reseed()
    env = W.build(w)
    steps = []
    if not any(isinstance(o, DataDual) for o in env.values()):
        for on in [k for k in sorted(env) if type(env[k]).__name__ in ("DataTime", "DataFreq")][:2]:
            op = {"op": "to_datadual", "on": on, "as": "d" + on}
            op.update(ops.gen_dual(rng, env, on))
            hist.adopt(env, op, ops.outcome(ops.Prepared(env, op, core.SCRATCH))[1])
            steps.append(op)
    pool = []
    for i in range(rng.choice([6, 9, 12]) if tier == "quick" else rng.choice([8, 12, 18])):
        duals = [k for k in sorted(env) if isinstance(env[k], DataDual)]
        if not duals:
            break
        on = rng.choice(duals)
        r = rng.random()
        op = None
        if r < 0.09:
            op = {"op": rng.choice(["copy", "copy", "rebuild"]), "on": on, "as": "c%d" % i, "args": [], "kw": {}}
            _derive(env, op)
        elif r < 0.15:
            op = mutate.gen_set(rng, {on: env[on]}, w)
            if op:
                try:
                    mutate.apply_set(env, op, w)
                except Exception:
                    op = None
        elif r < 0.27:  # disturbance: anything, most often mixed or failing
            op = ops.gen_op(rng, env, on=on, exclude=ops.PLOT_OPS, scratch=core.SCRATCH, bad=0.8)
            if op and rng.random() < 0.3:
                op["args"] = list(op.get("args", [])) + [rng.choice(["nosuch", "freqs[", "time=[", "wavenumber[77]"])]
        elif r < 0.4 and pool:
            op = dict(rng.choice(pool))
            if op["on"] not in env:
                op = None
        if op is None:
            op = _query(rng, env, on)
            if op is None:
                continue
            pool.append(op)
            if op["op"] == "get_data_along" and rng.random() < 0.3:
                op["as"] = "g%d" % i
                hist.adopt(env, op, ops.outcome(ops.Prepared(env, op, core.SCRATCH))[1])
        steps.append(op)
    return {"world": w, "ops": steps}


def _query(rng, env, on):
    for _ in range(12):
        dom = rng.choice("tf")
        sub = {k: part(o, dom) for k, o in env.items() if isinstance(o, DataDual) or type(o).__name__ == ("DataTime" if dom == "t" else "DataFreq")}
        bad = 0.1
        op = ops.draw_op(rng, sub, on=on, only=QUERIES)
        if op is None or domain_of(op) != dom:
            continue
        if op["op"] in ops.PLOT_OPS and rng.random() < 0.6:
            continue
        if rng.random() < bad or ops.outcome(ops.Prepared(sub, op, core.SCRATCH))[0][0] == "ok":
            return op
    return None


def _derive(env, op):
    d = env[op["on"]]
    with ops.quiet():
        try:
            env[op["as"]] = d.copy() if op["op"] == "copy" else type(d)(init_dict=d.as_dict(keep_function=True))
        except Exception:
            return False
    return True


def judge(sc):
    steps = core.forkcall(_run, sc, core.SCRATCH)
    n = {"comparisons": 0, "requests in the time domain": 0, "requests in the frequency domain": 0, "disturbances": 0, "copies": 0, "calls that raised": 0}
    distinct, log, v = set(), [], None
    last = {}
    for i, st in enumerate(steps):
        op = st["op"]
        if st.get("lost"):
            v = {
                "cls": "stored representation changed by %s" % op["op"],
                "what": "step %d, %s, changed a stored representation: %s (after != before)" % (i, describe(op), st["lost"]),
                "sig": "lost|" + op["op"],
            }
            break
        if st.get("apart"):
            v = {
                "cls": "%s of a dual object loses content" % op["op"],
                "what": "step %d, %s of %s: %s (new != original)" % (i, op["op"], op["on"], st["apart"]),
                "sig": "apart|" + op["op"],
            }
            break
        if "out" not in st:
            n["copies" if op["op"] in ("copy", "rebuild") else "disturbances"] += 1
            log.append((op["op"], st.get("dig")))
            continue
        dom = st["dom"]
        exp = core.forkcall(_alone, st["state"], op, dom, core.SCRATCH)
        n["comparisons"] += 1
        n["requests in the time domain" if dom == "t" else "requests in the frequency domain"] += 1
        n["calls that raised"] += st["out"][0] == "err"
        distinct.add(core.derive(st["key"], dom, last.get(op["on"]), st["origin"]))
        last[op["on"]] = dom
        log.append((ops.describe(op), st["out"][0], core.digest(st["out"]), core.digest(exp)))
        d = core.diff(st["out"], exp)
        if d:
            which = "time/space" if dom == "t" else "frequency/wavenumber"
            v = {
                "cls": "%s of dual data differs from its %s part" % (op["op"], which),
                "what": "after %d earlier steps %s answered differently from a plain object made of its %s part: %s (dual != plain)" % (i, ops.describe(op), which, d),
                "sig": "%s|%s" % (op["op"], dom),
            }
            break
    sample = "; ".join(describe(s["op"]) for s in steps[:4])
    return hist.result(v, n, {}, {"distinct": distinct}, sample, log)


def describe(op):
    if op["op"] == "set":
        return mutate.describe(op)
    if op["op"] == "rebuild":
        return "%s = DataDual(init_dict=%s.as_dict())" % (op["as"], op["on"])
    return ops.describe(op)


def _parts(d):
    return [core.canon(d.axes_dt), core.canon(d.values_dt), core.canon(d.axes_df), core.canon(d.values_df), d.unit, core.canon(d.normalizations)]


def _run(sc, scratch):
    hist.reseed()
    env = W.build(sc["world"])
    origin = {}
    out = []
    for op in sc["ops"]:
        if not hist.runnable(env, op):
            continue
        if op["op"] == "set":
            try:
                mutate.apply_set(env, op, sc["world"])
            except Exception:
                pass
            out.append({"op": op})
            continue
        duals = [k for k in env if isinstance(env[k], DataDual)]
        before = {k: _parts(env[k]) for k in duals}
        on = env[op["on"]]
        st = {"op": op}
        out.append(st)
        if op["op"] in ("copy", "rebuild") and isinstance(on, DataDual):
            if _derive(env, op):
                origin[op["as"]] = op["op"]
                st["apart"] = core.exact_diff(tuple(_parts(env[op["as"]])), tuple(_parts(on)))
        else:
            dom = domain_of(op) if op["op"] in QUERIES and isinstance(on, DataDual) else None
            if dom:
                keys = [op["on"]] + ([op["other"]] if op.get("other") else []) + list(op.get("others", []))
                st["state"] = {k: core.freeze(env[k]) for k in dict.fromkeys(keys)}
                st["dom"] = dom
            oc, raw = ops.outcome(ops.Prepared(env, op, scratch))
            if dom:
                st["out"] = oc
                st["key"] = hist.op_key(env, op, oc)
                st["origin"] = origin.get(op["on"], "built")
            st["dig"] = core.digest(oc)
            hist.adopt(env, op, raw)
            if op["op"] == "to_datadual" and op.get("as") in env:
                origin[op["as"]] = "to_datadual"
        for k in duals:
            d = core.exact_diff(tuple(_parts(env[k])), tuple(before[k]))
            if d:
                st["lost"] = "%s: %s" % (k, d)
    return out


def _alone(state, op, dom, scratch):
    hist.reseed()
    env = {k: part(core.thaw(s), dom) for k, s in state.items()}
    return ops.outcome(ops.Prepared(env, op, scratch))[0]


shrinks = hist.shrink_history
