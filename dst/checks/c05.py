"""C05 - concurrent queries on shared objects answer as if alone."""
import contextlib

from .. import core, hist, ops, sched, shared, world as W

ID = "C05"
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation of thread schedules: real threads under a cooperative scheduler that switches at seeded steps of the library's code"
LEVEL_NOTE = (
    "Two or three threads, one to three queries each, one to six preemptions per schedule at line boundaries and C calls of library frames (byte codes in a "
    "fifth of the runs). Schedules, queries and objects are random samples; plots are excluded (the plotting library is not thread-safe)."
)
RULE = (
    "one case = one answer given by a thread under a schedule in which at least one switch happened, compared with the answer the same thread's sequence "
    "gives alone in a pristine process (numbers rtol 1e-9, exceptions by type); after each schedule the content of all shared objects is compared bit for "
    "bit. Distinct = distinct interleaving, measured as the set of (thread, source line, next thread) at which control passed, with the operations involved; "
    "non-trivial = at least one switch happened while both threads were inside queries."
)
ASSUME = [
    "control passes between threads at line boundaries, C calls or byte codes of library frames only (as under the interpreter lock, minus switches inside third-party Python code)",
    "content = public stored properties (see C01)",
]
COMPONENTS = dict(hist.COMPONENTS, stubbed="thread scheduler (replaced by seeded schedules); locks created by library code (replaced by simulated locks)")
PLAN = {
    "quick": {"runs": 3000, "seconds": 80, "min_runs": 80},
    "thorough": {"runs": 60000, "seconds": 780, "min_runs": 800},
}
shared.preload()
EXCLUDE = tuple(ops.PLOT_OPS) + ("eq", "compare", "str", "sizeof", "plot_export")


def gen(seed, tier):
    rng = core.rng_for(seed)
    w = W.gen_world(rng, None, n=1)
    hist.reseed()
    env = W.build(w)
    nt = rng.choice([2, 2, 2, 3])
    objs = sorted(k for k in env if k.startswith("o"))
    on = None
    if rng.random() < 0.6:  # all threads on one object
        vf = [k for k in objs if type(env[k]).__name__ == "VectorField"]
        on = rng.choice(vf) if vf and rng.random() < 0.7 else rng.choice(objs)
    threads = []
    draw = lambda on, only=None: ops.gen_op(rng, env, on=on, only=only, scratch=core.SCRATCH, exclude=EXCLUDE, bad=0.03)
    for t in range(nt):
        r = rng.random()
        if threads and r < 0.2:  # the same requests
            seq = [dict(o) for o in threads[0]]
        elif threads and r < 0.6:  # requests of the same kind
            seq = [draw(o["on"], {o["op"]}) for o in threads[0]]
        else:
            seq = [draw(on) for _ in range(rng.choice([1, 1, 2, 3]))]
        threads.append([o for o in seq if o])
    sc = {"world": w, "threads": threads, "fine": rng.random() < 0.2, "schedules": []}
    trails = [core.forkcall(_trail, sc, t, core.SCRATCH) for t in range(nt)]
    steps = [_sites(tr) for tr in trails]
    hot = any(s["hot"] for s in steps)
    n = {"quick": 24 if hot else 6, "thorough": 60 if hot else 16}[tier]
    for _ in range(n):
        sc["schedules"].append(draw_schedule(rng, steps))
    return sc


def _sites(trail):
    """Steps of a trail by source line; those that write into shared state apart"""
    out = {"n": len(trail), "all": {}, "hot": {}}
    for i, (f, l, shared_store) in enumerate(trail):
        out["all"].setdefault((f, l), []).append(i + 1)
        if shared_store:
            out["hot"].setdefault((f, l), []).append(i + 1)
    return out


def draw_schedule(rng, steps):
    """Preemptions of a thread at a step drawn uniformly over its steps, over its source lines, or right after its shared stores"""
    nt = len(steps)
    out = []
    order = list(range(nt))
    rng.shuffle(order)
    if order[0] != 0:
        out.append([0, 1, order[0]])  # who starts
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 6])):
        t = rng.randrange(nt)
        n, every, hot = steps[t]["n"], steps[t]["all"], steps[t]["hot"]
        if not n:
            continue
        if hot and rng.random() < 0.75:
            at = rng.choice(hot[rng.choice(sorted(hot))])
            at = min(n, at + rng.choice([0, 1, 1, 1, 2, 2, 3, 4, 6]))
        elif rng.random() < 0.4:
            at = rng.randrange(1, n + 1)
        else:
            at = rng.choice(every[rng.choice(sorted(every))])
        out.append([t, at, rng.choice([u for u in range(nt) if u != t])])
    return out


def _body(env, seq, scratch, t):
    preps = [ops.Prepared(env, op, scratch, tag="t%d" % t) for op in seq]

    def body(tracing):
        outs = []
        for p in preps:
            try:
                with tracing():
                    raw = p.call()
                outs.append(("ok", ops.canon_result(p, raw)))
            except Exception as e:
                outs.append(("err", type(e).__name__))
        return outs

    return body


def _trail(sc, t, scratch):
    """Steps of a thread's sequence alone: (file, line, whether the line writes into shared state)"""
    hist.reseed()
    env = W.build(sc["world"])
    known = shared.known(list(env.values()))
    trail = []
    s = sched.Scheduler(1, [], sc["fine"])
    s.record = lambda t, frame: trail.append((frame.f_code.co_filename[len(core.LIB) :], frame.f_lineno or 0, shared.is_shared_store(frame, known)))
    with ops.quiet():
        s.run([_body(env, sc["threads"][t], scratch, t)])
    return trail


def judge(sc):
    expected = [core.forkcall(_alone, sc, t, core.SCRATCH) for t in range(len(sc["threads"]))]
    return core.forkcall(_run, sc, expected, core.SCRATCH)


def _alone(sc, t, scratch):
    hist.reseed()
    env = W.build(sc["world"])
    with ops.quiet(), ops.limit(ops.WALL_LIMIT):
        return _body(env, sc["threads"][t], scratch, t)(contextlib.nullcontext)


def _run(sc, expected, scratch):
    n = {"comparisons": 0, "operations": 0, "library steps": 0, "schedules": 0, "schedules without switch": 0, "thread switches": 0}
    distinct, log, v = set(), [], None
    names = ["|".join("%s.%s" % (o["on"], o["op"]) for o in seq) for seq in sc["threads"]]
    for schedule in sc["schedules"]:
        hist.reseed()
        env = W.build(sc["world"])
        before = {k: core.canon(env[k]) for k in env}
        s = sched.Scheduler(len(sc["threads"]), schedule, sc["fine"])
        bodies = [_body(env, seq, scratch, t) for t, seq in enumerate(sc["threads"])]
        n["schedules"] += 1
        what = " || ".join(", ".join(ops.describe(o) for o in seq) for seq in sc["threads"])
        try:
            with ops.quiet():
                outs = s.run(bodies)
        except sched.Deadlock as e:
            v = {"cls": "deadlock", "what": "%s under %s: %s" % (what, s.switches, e), "sig": "deadlock"}
            break
        except sched.Stuck as e:
            raise core.HarnessError(str(e))
        n["library steps"] += sum(s.step)
        n["thread switches"] += len(s.switches)
        real = [x for x in s.switches if s.step[x[0]] > 1]
        log.append((list(s.switches), list(s.step)))
        if not real:
            n["schedules without switch"] += 1
        else:
            distinct.add(core.derive(tuple(names), tuple(s.switches)))
        for t, (got, exp) in enumerate(zip(outs, expected)):
            for op, a, b in zip(sc["threads"][t], got, exp):
                n["operations"] += 1
                if real:
                    n["comparisons"] += 1
                d = core.diff(a, b)
                log.append((t, a[0], core.digest(a)))
                if d and v is None:
                    cls = type(env[op["on"]]).__name__
                    v = {
                        "cls": "answer of %s.%s depends on the schedule" % (cls, op["op"]),
                        "what": "%s in thread %d of [%s] under switches %s: %s (concurrent != alone)" % (ops.describe(op), t, what, s.switches, d),
                        "sig": "answer|%s|%s" % (cls, op["op"]),
                    }
        if v:
            break
        for k in before:
            d = core.exact_diff(core.canon(env[k]), before[k])
            if d:
                v = {
                    "cls": "content changed by concurrent queries",
                    "what": "[%s] under switches %s left %s changed: %s (now != before)" % (what, s.switches, k, d),
                    "sig": "content|" + type(env[k]).__name__,
                }
                break
        if v:
            break
    sample = "%s under %s" % (" || ".join(names), sc["schedules"][:2])
    return hist.result(v, n, {"preemption": n["thread switches"]}, {"distinct": distinct}, sample, log)


def shrinks(sc):
    for xs in hist.shrink_list(sc["schedules"]):
        if xs:
            yield dict(sc, schedules=xs)
    if len(sc["schedules"]) == 1:
        for xs in hist.shrink_list(sc["schedules"][0]):
            yield dict(sc, schedules=[xs])
    for t, seq in enumerate(sc["threads"]):
        for xs in hist.shrink_list(seq):
            if xs or len(sc["threads"]) > 2:
                yield dict(sc, threads=sc["threads"][:t] + [xs] + sc["threads"][t + 1 :])
    for c in hist.shrink_world(sc):
        yield c
