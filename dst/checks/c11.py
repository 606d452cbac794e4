"""C11 - library calls leave process-wide state alone."""
import copy
import os
import sys

from SciDataTool.Functions.load import load, load_dict, load_init_dict, load_list

from .. import core, disk, hist, inject, ops, procstate, store, world as W

ID = "C11"
LEVEL = "fault-injection exploration"
TECHNIQUE = "deterministic simulation: seeded histories of every public call in one process with exceptions, interrupts and I/O faults injected; process-wide state compared before and after each"
LEVEL_NOTE = "State is compared when a call has ended, not while it runs. What is compared is listed in dst/procstate.py; containers of the library that are empty at import (caches) are not constants."
RULE = (
    "one case = one public call (query, transformation, save, load, export, plot, plot to file) that returned, raised, or was cut by an injected exception or I/O fault; "
    "working directory, random generators, numpy settings, warning filters, locale, plotting defaults, environment, streams, signal handlers, the library's tables "
    "and default arguments, and open descriptors are compared with those before it. Distinct = distinct (operation, request shape, outcome, fault site and kind); "
    "non-trivial = the call did work inside the library (no immediate refusal of an argument)."
)
ASSUME = ["plot calls may open the figure they draw", "modules imported lazily by a call are not process-wide state"]
COMPONENTS = {
    "real": "all of /repo/SciDataTool from the current working tree, numpy, scipy, matplotlib (Agg), file system below the faults",
    "stubbed": "failing and short system calls (LD_PRELOAD layer)",
}
PLAN = {
    "quick": {"runs": 4000, "seconds": 75, "min_runs": 100},
    "thorough": {"runs": 60000, "seconds": 780, "min_runs": 1000},
}


def gen(seed, tier):
    rng = core.rng_for(seed)
    w = W.gen_world(rng, None, n=1, small=rng.random() < 0.7)
    env = store.build(w)
    root = _fresh()
    disk.region()
    out = []
    for i in range(rng.choice([3, 5])):
        r = rng.random()
        if r < 0.35:
            kind = rng.choice(["save", "load", "load", "ctor", "refs", "data"])
            op = {"op": "file", "kind": kind, "on": rng.choice(sorted(env)), "rel": rng.random() < 0.5, "dir": rng.choice(["", "sub"])}
        elif r < 0.5:
            op = ops.gen_op(rng, env, only=set(ops.PLOT_OPS), scratch=core.SCRATCH)
            if op and rng.random() < 0.7:
                op["png"] = True
            if op and rng.random() < 0.6:
                ops.gen_style(rng, getattr(env[op["on"]], op["op"]), op["kw"])
        elif r < 0.6:
            op = ops.gen_op(rng, env, only=set(ops.FILE_OPS), scratch=core.SCRATCH)
        elif r < 0.8:
            # every operation alike, the rare ones too
            on = rng.choice(sorted(env))
            names = sorted(set(ops.ops_for(env[on])) - ops.PLOT_OPS)
            op = ops.gen_op(rng, env, on=on, only={rng.choice(names)}, scratch=core.SCRATCH, bad=0.3)
        else:
            op = ops.gen_op(rng, env, scratch=core.SCRATCH, exclude=ops.PLOT_OPS, bad=0.3)
        if op is None:
            continue
        trail, recs = core.forkcall(_dry, w, op, root)
        k = 3 if op["op"] in ops.PLOT_OPS else 6
        op["faults"] = inject.draw_faults(rng, [tuple(t) for t in trail], 0, k) if trail else []
        if recs:
            for _ in range(3):
                plan = disk.draw_io(rng, recs)
                if plan:
                    op["faults"].append({"kind": "io", "plan": plan})
        rng.shuffle(op["faults"])
        out.append(op)
    disk.empty(root)
    return {"world": w, "ambient": procstate.ambient(rng), "ops": out}


def _fresh():
    root = os.path.join(core.SCRATCH, "disk")
    disk.empty(root)
    for d in ("a", "a/sub", "out"):
        os.makedirs(os.path.join(root, d))
    return root


def _call(env, op, root):
    """The call as a function without argument; prepares the files it needs"""
    here = os.path.join(root, "a")
    if op["op"] != "file":
        prep = ops.Prepared(env, op, root, "out")
        if op.get("png"):
            prep.kw["save_path"] = os.path.join(root, "out", "fig.png")
        return prep.call
    o = env[op["on"]]
    d = os.path.join(here, op["dir"]) if not op["rel"] else op["dir"]
    p = os.path.join(d, "x.json")
    if op["kind"] == "save":
        return lambda: o.save(p)
    with ops.quiet():
        store.save([o, {"k": o.copy()}] if op["kind"] == "data" else o, p)
    if op["kind"] == "load":
        return lambda: load(p)
    if op["kind"] == "ctor":
        return lambda: type(o)(init_str=p)
    if op["kind"] == "data":
        return lambda: load_list(p)

    props = {k: getattr(o, k) for k in core.lib_props(type(o))}
    for k in ("axes", "axes_dt", "components"):
        if props.get(k):
            val = props[k]
            part = list(val.values())[0] if isinstance(val, dict) else val[0]
            q = os.path.join(d, "part.json")
            with ops.quiet():
                part.save(q)
            new = dict(val) if isinstance(val, dict) else list(val)
            new[list(val)[0] if isinstance(val, dict) else 0] = q
            props[k] = new
            break
    return lambda: type(o)(**props)


def _dry(world, op, root):
    env = store.build(world)
    os.chdir(os.path.join(root, "a"))
    call = _call(env, op, root)
    inj = inject.Injector()
    inj.trail = []
    disk.region()
    with ops.quiet():
        try:
            disk.arm(root)
            call()
        except Exception:
            pass
        disk.disarm()
        recs = disk.log()[0]
        try:
            with ops.limit(ops.WALL_LIMIT), inj:
                call()
        except (Exception, ops.Hang):
            pass
    return inj.trail, recs


def judge(sc):
    root = _fresh()
    r = core.forkcall(_run, sc, root)
    disk.empty(root)
    return hist.result(r["v"], r["n"], r["faults"], {"distinct": r["distinct"], "fault sites": r["sites"]}, r["sample"], r["log"])


def _run(sc, root):
    # output of the calls goes nowhere; the streams themselves stay in place
    null = os.open(os.devnull, os.O_WRONLY)
    sys.stdout.flush()
    os.dup2(null, 1)
    os.dup2(null, 2)
    os.close(null)
    disk.region()
    constants = procstate.init()
    env = store.build(sc["world"])
    n = {"comparisons": 0, "operations": 0, "calls that raised": 0, "constants watched": constants, "faults not reached": 0}
    faults, distinct, sites, log = {}, set(), set(), []
    res = {"v": None, "n": n, "faults": faults, "distinct": distinct, "sites": sites, "log": log, "sample": "; ".join(describe(o) for o in sc["ops"][:4])}
    procstate.apply(sc["ambient"])
    os.chdir(os.path.join(root, "a"))
    for i, op in enumerate(sc["ops"]):
        if op["op"] != "file" and not hist.runnable(env, op) or op["on"] not in env:
            continue
        for f in [None] + op["faults"]:
            os.chdir(os.path.join(root, "a"))
            call = _call(env, op, root)
            W.Callbacks.reset()
            inj = None
            before = procstate.snapshot()
            if f and f["kind"] == "io":
                disk.arm(root, f["plan"])
            elif f and f["kind"] != "callback":
                inj = inject.Injector(f["at"], inject.KINDS[f["kind"]])
            out = _invoke(call, inj)
            fired = []
            if f and f["kind"] == "io":
                disk.disarm()
                fired = [disk.fault_name(x) for x in disk.log()[1]]
            elif inj and inj.fired:
                fired = [f["kind"]]
                sites.add(inj.where)
            after = procstate.snapshot()
            n["operations"] += 1
            n["comparisons"] += 1
            n["calls that raised"] += out != "returned"
            if f and not fired:
                n["faults not reached"] += 1
            for x in fired:
                faults[x] = faults.get(x, 0) + 1
            distinct.add(core.derive(op["op"], op.get("kind"), hist.skeleton(op.get("args", [])), out, fired, inj.where if inj and inj.fired else None))
            log.append((op["op"], out, fired, inj.where if inj and inj.fired else None))
            ch = procstate.changes(before, after)
            if ch:
                how = " cut by %s%s" % ("; ".join(fired), " at " + inj.where if inj else "") if fired else ""
                res["v"] = {
                    "cls": "%s changed by %s" % (ch[0][0], op["op"]),
                    "what": "step %d, %s%s (%s) changed %s: %s" % (i, describe(op), how, out, ch[0][0], ch[0][1]),
                    "sig": "%s|%s" % (ch[0][0], op["op"]),
                }
                return res
    return res


def _invoke(call, inj):
    """Make the call without any protection of the settings it may change"""
    try:
        with ops.limit(ops.WALL_LIMIT):
            if inj:
                with inj:
                    call()
            else:
                call()
        return "returned"
    except ops.Hang:
        return "did not return"
    except (Exception, KeyboardInterrupt) as e:
        return "raised " + type(e).__name__


def describe(op):
    if op["op"] == "file":
        return "%s of %s" % (op["kind"], op["on"])
    return ops.describe(op) + (" to a file" if op.get("png") else "")


def shrinks(sc):
    for xs in hist.shrink_list(sc["ops"]):
        if xs:
            yield dict(sc, ops=xs)
    for i, op in enumerate(sc["ops"]):
        for fs in hist.shrink_list(op["faults"]):
            o = dict(op, faults=fs)
            yield dict(sc, ops=sc["ops"][:i] + [o] + sc["ops"][i + 1 :])
    for c in hist.shrink_world(sc):
        yield c
