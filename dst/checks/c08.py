"""C08 - saving to a file is all-or-nothing."""
import copy
import os
import random

import SciDataTool
from SciDataTool.Functions.load import load_init_dict

from .. import core, disk, hist, inject, ops, store, world as W

ID = "C08"
LEVEL = "fault-injection exploration"
TECHNIQUE = "deterministic simulation: seeded histories of saves by simulated processes with I/O faults, interrupts, process deaths, power losses and scheduled concurrent savers/loaders, bytes on disk judged after each"
LEVEL_NOTE = (
    "Fault points are drawn per kind of system call from a dry run of the same save, so that rare calls are hit as often as frequent ones; within one power-loss "
    "episode many persistence states are judged, but not all. The disk model keeps directory changes in order."
)
RULE = (
    "one case = one save (healthy, with injected I/O faults, interrupted in Python, with unserialisable content, killed at a system call, cut by a power loss, or "
    "racing with others) after a history of others; the bytes then on disk are compared with the complete previous and the complete new document, and every other "
    "file with what it held. Distinct = distinct (class, path style, previous file or none, kind of episode, faulted call and fault, outcome, old/new left); "
    "non-trivial = a fault fired, a death or power loss happened, or actors interleaved."
)
ASSUME = [
    "system calls on files are atomic steps; a write may be cut anywhere",
    "power loss: directory changes persist as a prefix of their order, at least up to the last fsync of a directory; data of a file up to its last fsync, of the rest any part, lost parts read as zeros or are cut",
    "documents are compared as parsed JSON, so layout may change",
]
COMPONENTS = {
    "real": "SciDataTool save/load from the current working tree, json, Python file objects, kernel file system below the faults",
    "stubbed": "failing, short and killing system calls (LD_PRELOAD layer); persistence after power loss (model over the log of calls)",
}
PLAN = {
    "quick": {"runs": 4000, "seconds": 75, "min_runs": 80},
    "thorough": {"runs": 60000, "seconds": 780, "min_runs": 900},
}
EXCS = ["KeyboardInterrupt", "MemoryError", "OSError"]


def gen(seed, tier):
    rng = core.rng_for(seed)
    w = W.gen_world(rng, None, n=1, small=True)
    env = store.build(w)
    names = sorted(env)
    paths = store.gen_paths(rng, rng.choice([1, 1, 2]))
    root = os.path.join(core.SCRATCH, "disk")
    disk.region()
    disk.empty(root)
    store.layout(root)
    steps, v = [], 0
    wraps = rng.choice([None, None, None, "list", "dict"])

    def item():
        nonlocal v
        v += 1
        it = {"obj": rng.choice([n for n in names if n[0] == "o"] * 3 + names), "v": v}
        if wraps and rng.random() < 0.5:
            it["wrap"] = wraps
        return it

    for i in range(rng.choice([3, 4, 6]) if tier == "quick" else rng.choice([4, 6, 10])):
        kind = rng.choice(["save", "io", "io", "io", "death", "death", "raise", "raise", "unserial", "power", "power", "race", "race"]) if i or rng.random() < 0.3 else "save"
        ep = {"ep": kind, "item": item(), "path": rng.randrange(len(paths))}
        if kind in ("io", "death", "power"):
            before = disk.snapshot(root)
            recs = _do(ep, w, root, paths, {})[2]
            disk.restore(root, before)
            if kind in ("io", "death"):
                ep["plan"] = []
                if kind == "io" or rng.random() < 0.4:
                    ep["plan"] = disk.draw_io(rng, recs, n=1)
                if ep["plan"] and (kind == "death" or rng.random() < 0.4):
                    # another fault in what the save does after the first one
                    recs = _do(ep, w, root, paths, {})[2]
                    disk.restore(root, before)
                at = ep["plan"][0]["at"] if ep["plan"] else 0
                if kind == "death":
                    f = disk.draw_death(rng, recs[at:])
                    ep["plan"] += [dict(f, at=f["at"] + at)] if f else []
                elif len(recs) > at and rng.random() < 0.5:
                    ep["plan"] += [dict(f, at=f["at"] + at) for f in disk.draw_io(rng, recs[at:], n=1)]
            else:
                ep["k"], ep["seed"], ep["many"] = rng.randint(0, len(recs)), rng.randrange(10**6), 24
        elif kind == "raise":
            before = disk.snapshot(root)
            trail = _do(ep, w, root, paths, {"trail": True})[0][0][2]
            disk.restore(root, before)
            sites = {}
            for k, s in enumerate(trail):
                sites.setdefault(s, []).append(k + 1)
            if sites:
                ep["step"] = rng.choice(sites[rng.choice(sorted(sites))])
            ep["exc"] = rng.choice(EXCS)
        elif kind == "unserial":
            ep["item"]["bad"] = True
            ep["item"].pop("wrap", None)
        elif kind == "race":
            actors = [{"item": ep.pop("item"), "do": "save"}]
            for _ in range(rng.choice([1, 1, 2])):
                if rng.random() < 0.5:
                    actors.append({"item": dict(item(), obj=actors[0]["item"]["obj"]), "do": "save"})
                    if "wrap" in actors[0]["item"]:
                        actors[-1]["item"]["wrap"] = actors[0]["item"]["wrap"]
                    else:
                        actors[-1]["item"].pop("wrap", None)
                else:
                    actors.append({"do": "load", "item": actors[0]["item"]})
            ep["actors"] = actors
            ep["together"] = rng.random() < 0.4  # threads of one process
            ep["sched"] = _sched(rng, len(actors))
            if rng.random() < 0.25:
                ep["plan"] = [{"at": rng.randint(1, 14), "kind": rng.choice([disk.EXIT_BEFORE, disk.EXIT_AFTER]), "arg": 0}]
                ep["together"] = False
        steps.append(ep)
        _execute(ep, w, root, paths)
    steps.append({"ep": "save", "item": item(), "path": rng.randrange(len(paths))})
    return {"world": w, "paths": paths, "ops": steps}


def _sched(rng, n):
    """Choices of the scheduler: stays with an actor for a while, or changes all the time"""
    p = rng.choice([0.2, 0.5, 0.9])
    out, cur = [], 0
    for _ in range(60):
        if rng.random() < p:
            cur = rng.randrange(n)
        out.append(cur)
    return out


# --------------------------------------------------------------------------- episodes
def _do(ep, world, root, paths, opts):
    """One process making one save; returns (messages, status, log of calls, faults fired)"""
    msgs, status = disk.process(_saver, ep, world, root, paths, opts)
    recs, fired = disk.log()
    return msgs, status, recs, fired


def _saver(emit, ep, world, root, paths, opts):
    env = store.build(world)
    it = ep["item"]
    o = store.variant(env, it)
    arg, _ = store.place(root, paths[ep["path"]], store.cls_name(env, it))
    os.chdir(os.path.join(root, "a"))
    inj = inject.Injector(ep.get("step"), inject.KINDS.get(ep.get("exc")), also=(store.JSON_LIB,)) if ep.get("step") or opts.get("trail") else None
    if inj and opts.get("trail"):
        inj.trail = []
    disk.arm(root, ep.get("plan", ()))
    with ops.quiet():
        try:
            if inj:
                with inj:
                    store.save(o, arg)
            else:
                store.save(o, arg)
            oc = "returned"
        except (Exception, KeyboardInterrupt) as e:
            oc = "raised " + type(e).__name__
    del o
    disk.disarm()
    trail = ["%s:%d" % s for s, _ in inj.trail] if inj and inj.trail is not None else None
    emit(("out", oc, trail, bool(inj and inj.fired), inj.where if inj else None))


def _execute(ep, world, root, paths):
    """Carry out an episode on the simulated disk; returns what happened"""
    r = {"fired": [], "recs": [], "states": []}
    if ep["ep"] == "race":
        a = _race(ep, world, root, paths)
        r["actors"], r["order"], r["fired"] = a[0], a[1], a[2]
        return r
    before = disk.snapshot(root) if ep["ep"] == "power" else None
    msgs, status, recs, fired = _do(ep, world, root, paths, {})
    r["out"] = msgs[0][1] if msgs else "died"
    if status == "died":
        r["out"] = "died"
    elif msgs[0][3]:
        r["fired"].append(("step", ep["exc"]))
        r["where"] = msgs[0][4]
    r["fired"] += fired
    r["recs"] = [(disk.NAMES[x.op], x.res, x.err) for x in recs]
    if ep["ep"] == "power":
        pl = disk.PowerLoss(root, before, recs)
        k = min(ep["k"], len(recs))
        for j in range(ep.get("many", 1)):
            rng = random.Random(ep["seed"] + j)
            kk = k if j == 0 else rng.randint(0, len(recs))
            snap, how = pl.state(kk, rng)
            r["states"].append((kk, snap, how))
        r["ncalls"] = len(recs)
        disk.restore(root, r["states"][0][1])
        store.layout(root)
    return r


def _race(ep, world, root, paths):
    def actor(a):
        def run():
            o = objs[id(a)]
            arg = args[id(a)]
            try:
                if a["do"] == "save":
                    store.save(o, arg)
                    return ("returned", None)
                return ("returned", _load(files[id(a)]))
            except (Exception, KeyboardInterrupt) as e:
                return ("raised " + type(e).__name__, None)

        return run

    env = core.forkcall(_names, world, ep, root, paths)
    # objects are built in the actors' process: groups are closures over lazily built objects
    objs, args, files = Lazy(world, ep), env["args"], env["files"]
    args = {id(a): env["args"][i] for i, a in enumerate(ep["actors"])}
    files = {id(a): env["files"][i] for i, a in enumerate(ep["actors"])}
    fns = [actor(a) for a in ep["actors"]]
    groups = [fns] if ep.get("together") else [[f] for f in fns]
    sched = list(ep["sched"])
    pos = [0]

    def choose(n):
        c = sched[pos[0] % len(sched)] if sched else 0
        pos[0] += 1
        return c

    # relative paths of the actors
    here = os.getcwd()
    os.chdir(os.path.join(root, "a"))
    try:
        act = disk.Actors(groups, root, choose, ep.get("plan", ())).run()
    finally:
        os.chdir(here)
    out = []
    for i, a in enumerate(ep["actors"]):
        o = act.out.get(i)
        if o is None:
            if i not in act.dead:
                raise core.HarnessError("actor %d vanished" % i)
            o = ("ok", ("died", None))
        if o[0] != "ok":
            raise core.HarnessError(o[1])
        out.append({"out": o[1][0], "content": o[1][1], "start": act.start.get(i, 0), "end": act.end.get(i, 10**9)})
    _, fired = disk.log()
    return out, act.order, fired


class Lazy:
    """Objects of the actors, built once in the process that asks"""

    def __init__(self, world, ep):
        self.world, self.ep, self.made = world, ep, None

    def __getitem__(self, k):
        if self.made is None:
            with ops.quiet():
                env = store.build(self.world)
                self.made = {id(a): store.variant(env, a["item"]) for a in self.ep["actors"]}
        return self.made[k]


def _names(world, ep, root, paths):
    env = store.build(world)
    args, files = [], []
    for a in ep["actors"]:
        arg, rel = store.place(root, paths[ep["path"]], store.cls_name(env, a["item"]))
        args.append(arg)
        files.append(os.path.join(root, rel))
    return {"args": args, "files": files}


def _load(path):
    """Content loaded from a file, read once, as the class it names"""
    d = load_init_dict(path)[1]
    if isinstance(d, dict) and "__class__" in d:
        return core.canon(getattr(SciDataTool, d["__class__"])(init_dict=d))
    return core.canon(d)


def _target(world, it, path, root):
    return store.place(root, path, store.cls_name(store.build(world), it))[1]


def _ref(world, it, where):
    """Complete document of an item, from a healthy save in a process of its own; and the content it loads to"""
    env = store.build(world)
    o = store.variant(env, it)
    p = os.path.join(where, "ref.json")
    if os.path.exists(p):
        os.unlink(p)
    with ops.quiet():
        store.save(o, p)
        with open(p, "rb") as f:
            b = f.read()
        c = _load(p)
    return b, c


# --------------------------------------------------------------------------- judgement
def judge(sc):
    disk.region()
    w, paths = sc["world"], sc["paths"]
    root = os.path.join(core.SCRATCH, "disk")
    disk.empty(root)
    store.layout(root)
    n = {"comparisons": 0, "operations": 0, "persistence states judged": 0, "system calls": 0}
    faults, distinct, scheds, log, v = {}, set(), set(), [], None
    refs = {}

    def ref(it):
        key = repr(sorted(it.items()))
        if key not in refs:
            refs[key] = core.forkcall(_ref, w, it, core.SCRATCH)
        return refs[key]

    for i, ep in enumerate(sc["ops"]):
        path = paths[ep["path"]]
        first = ep["actors"][0]["item"] if ep["ep"] == "race" else ep["item"]
        target = core.forkcall(_target, w, first, path, root)
        before = _visible(disk.snapshot(root))
        old = before.get(target)
        r = _execute(ep, w, root, paths)
        after = _visible(disk.snapshot(root))
        n["operations"] += 1
        n["system calls"] += len(r["recs"])
        for f in r["fired"]:
            k = disk.fault_name(f) if f[0] != "step" else "%s raised inside the save" % f[1]
            faults[k] = faults.get(k, 0) + 1
        now = after.get(target)
        what = None
        if ep["ep"] == "race":
            what, contents = _judge_race(ep, r, old, now, ref)
            n["comparisons"] += 1 + sum(a["do"] == "load" for a in ep["actors"])
            scheds.add(core.derive(r["order"]))
            outc = [a["out"] for a in r["actors"]]
            key = tuple(outc)
        else:
            new = None if first.get("bad") else ref(first)[0]
            if first.get("bad"):
                outc = r["out"]
                n["comparisons"] += 1
                if now != old:
                    what = "an object that cannot be written was saved (%s): the file no longer holds its previous content but %s" % (r["out"], show(now))
                elif r["out"] == "returned" and hasattr_bad(w, first):
                    what = "saving an object that cannot be written returned normally"
            elif ep["ep"] == "power":
                outc = r["out"]
                faults["power loss"] = faults.get("power loss", 0) + len(r["states"])
                for k, snap, how in r["states"]:
                    b = snap.get(target)
                    b = b[1] if b else None
                    done = k >= r["ncalls"] and r["out"] == "returned"
                    n["comparisons"] += 1
                    n["persistence states judged"] += 1
                    if not (store.same(b, new) or not done and b == old):
                        what = "power lost after %d of %d system calls of the save%s: the file holds %s" % (k, r["ncalls"], " (which had returned)" if done else "", show(b, old, new))
                        break
                    distinct.add(core.derive("power", path["style"], old is None, r["recs"][k - 1][0] if k else "", b == old, sorted(how.items())))
            else:
                outc = r["out"]
                n["comparisons"] += 1
                if outc == "returned":
                    if not store.same(now, new):
                        what = "the save returned normally but the file holds %s" % show(now, old, new)
                elif not (now == old or store.same(now, new)):
                    what = "the save %s and the file holds %s" % (outc, show(now, old, new))
                if not what and outc != "returned" and not r["fired"]:
                    what = "the save %s without any fault" % outc
            key = (outc,)
        if not what and ep["ep"] != "power":
            for k in sorted(set(before) | set(after)):
                if k != target and before.get(k) != after.get(k):
                    what = "the save to %s changed %s" % (target, k)
        names = [disk.fault_name(f) if f[0] != "step" else f[1] for f in r["fired"]]
        log.append((ep["ep"], key, core.digest(now), names, core.digest([_visible(s[1]) for s in r["states"]]), r.get("order")))
        if r["fired"] or ep["ep"] in ("race", "power", "unserial"):
            cls = first.get("wrap") or first["obj"][0]
            distinct.add(core.derive(cls, path["style"], old is None, ep["ep"], names, key, now == old))
        if what:
            where = " (%s)" % "; ".join(names) if names else ""
            v = {"cls": "save not all-or-nothing: %s" % ep["ep"], "what": "step %d, %s%s: %s" % (i, describe(ep, path), where, what), "sig": ep["ep"]}
            break
    disk.empty(root)
    sample = "; ".join(describe(e, paths[e["path"]]) for e in sc["ops"][:4])
    return hist.result(v, n, faults, {"distinct": distinct, "schedules": scheds}, sample, log)


def _visible(snap):
    """Documents on the disk (temporary files have names of their own)"""
    return {k: e[1] for k, e in snap.items() if e[0] == "f" and not os.path.basename(k).startswith(".") and k.endswith(".json")}


def hasattr_bad(world, it):
    """Whether the content really cannot be written (normalizations alone have nothing to spoil)"""
    return not world or it["obj"][0] in "oa"


def show(b, old=None, new=None):
    if b is None:
        return "nothing"
    for k, x in (("previous", old), ("new", new)):
        if x is not None and b == x:
            return "its complete %s content" % k
        if x and x.startswith(b):
            return "the first %d of %d bytes of its %s content" % (len(b), len(x), k)
    return "%d bytes that are no complete version (%r...)" % (len(b), b[:40])


def _judge_race(ep, r, old, now, ref):
    acts, res = ep["actors"], r["actors"]
    plan = bool(r["fired"])
    versions = []  # (bytes, content, start, end, returned)
    for a, x in zip(acts, res):
        if a["do"] == "save":
            b, c = ref(a["item"])
            versions.append((b, c, x["start"], x["end"], x["out"]))
            if x["out"].startswith("raised") and not plan:
                return "a concurrent save %s" % x["out"], None
    rets = [x for x in versions if x[4] == "returned"]
    ok = any(store.same(now, x[0]) for x in versions) or (now == old and not rets)
    if ok and rets:
        # a save that began after another one had returned must not be lost
        fin = [x for x in versions if store.same(now, x[0])]
        if not any(all(not (y[2] > x[3]) for y in rets if y is not x) for x in fin):
            ok = False
    if not ok:
        return "after concurrent saves (%s) the file holds %s" % (", ".join(x["out"] for x in res), show(now, old)), None
    previous = core.forkcall(_load_bytes, old, core.SCRATCH) if old is not None and any(a["do"] == "load" for a in acts) else None
    for a, x in zip(acts, res):
        if a["do"] != "load" or x["out"] == "died":
            continue
        before = [y for y in rets if y[3] < x["start"]]
        if x["out"] != "returned":
            if old is None and not before:
                continue
            return "a concurrent load %s although a complete version was there at all times" % x["out"], None
        fine = old is not None and not before and x["content"] == previous
        for y in versions:
            if x["content"] == y[1] and y[2] <= x["end"] and not any(z[2] > y[3] and z[3] < x["start"] for z in rets):
                fine = True
        if not fine:
            return "a concurrent load gave a content that no complete version held at that time", None
    return None, None


def _load_bytes(b, where):
    p = os.path.join(where, "old.json")
    with open(p, "wb") as f:
        f.write(b)
    with ops.quiet():
        return _load(p)


def describe(ep, path):
    def it(x):
        return "%s v%d%s" % (x["obj"], x["v"], " in a " + x["wrap"] if x.get("wrap") else "")

    if ep["ep"] == "race":
        return "concurrent %s on %s path" % (", ".join("%s of %s" % (a["do"], it(a["item"])) for a in ep["actors"]), path["style"])
    kind = {"save": "save", "io": "save with I/O faults", "death": "save cut by process death", "raise": "save interrupted", "unserial": "save of unserialisable content", "power": "save cut by power loss"}[ep["ep"]]
    return "%s of %s to a %s path" % (kind, it(ep["item"]), path["style"])


def shrinks(sc):
    for xs in hist.shrink_list(sc["ops"]):
        yield dict(sc, ops=xs)
    for i, ep in enumerate(sc["ops"]):
        if len(ep.get("plan", ())) > 1:
            for j in range(len(ep["plan"])):
                e = copy.deepcopy(ep)
                del e["plan"][j]
                yield dict(sc, ops=sc["ops"][:i] + [e] + sc["ops"][i + 1 :])
        if ep["ep"] == "race" and len(ep["actors"]) > 2:
            for j in range(len(ep["actors"])):
                e = copy.deepcopy(ep)
                del e["actors"][j]
                yield dict(sc, ops=sc["ops"][:i] + [e] + sc["ops"][i + 1 :])
        if ep["ep"] == "race" and ep.get("plan"):
            e = copy.deepcopy(ep)
            del e["plan"]
            yield dict(sc, ops=sc["ops"][:i] + [e] + sc["ops"][i + 1 :])
    if any(p["style"] != "file" for p in sc["paths"]):
        yield dict(sc, paths=[{"style": "file", "name": "data"} for _ in sc["paths"]])
