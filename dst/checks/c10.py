"""C10 - a damaged or unreadable file is never loaded as data."""
import copy
import os
import re

import SciDataTool
from SciDataTool import DataDual, DataND, VectorField
from SciDataTool.Functions.load import load, load_dict, load_init_dict, load_list

from .. import core, disk, hist, inject, ops, store, world as W

ID = "C10"
LEVEL = "fault-injection exploration"
TECHNIQUE = "deterministic simulation: seeded loads of saved files under damage (truncation, zeroed blocks, missing referenced files) and faults of the read path (errors, short and interrupted reads, interrupts), every load path"
LEVEL_NOTE = "Truncation points and zeroed blocks are sampled per file (beginnings, ends, line ends, inside numbers and strings, anywhere), not enumerated."
RULE = (
    "one case = one load by one load path of a file that was damaged, of a healthy file under a read-path fault, or of a healthy file after failed loads. A load that "
    "could not get the complete content must raise, one that could must give exactly the saved content; afterwards the object assigned to, the working directory and "
    "the set of open descriptors are as before. Distinct = distinct (class, load path, kind of damage with its place in the document or faulted call, outcome); "
    "non-trivial = damage present or fault fired."
)
ASSUME = [
    "lost blocks read as zeros; bytes do not change in other ways (there is no checksum in the format)",
    "an error of close after a complete read may surface or not",
]
COMPONENTS = {
    "real": "SciDataTool save/load from the current working tree, json, Python file objects, kernel file system below the faults",
    "stubbed": "failing, short and interrupted system calls (LD_PRELOAD layer)",
}
PLAN = {
    "quick": {"runs": 4000, "seconds": 70, "min_runs": 120},
    "thorough": {"runs": 60000, "seconds": 780, "min_runs": 1200},
}
WAYS = ["ctor", "load", "load", "init", "attr", "attr", "nested"]


def gen(seed, tier):
    rng = core.rng_for(seed)
    w = W.gen_world(rng, None, n=1, small=True)
    env = store.build(w)
    disk.region()
    root = _fresh()
    names = [k for k in env if k[0] == "o"] * 2 + sorted(env)
    on = rng.choice(names)
    doc = {"on": on, "wrap": rng.choice([None, None, None, "list", "dict"])}
    sc = {"world": w, "doc": doc, "ops": []}
    size = core.forkcall(_write, sc, root)
    with open(os.path.join(root, "a", "doc.json"), "rb") as f:
        text = f.read()
    for i in range(rng.choice([4, 6, 8])):
        way = rng.choice(["data"] if doc["wrap"] else WAYS)
        op = {"way": way, "rel": rng.random() < 0.4, "kind": rng.choice(["cut", "cut", "zero", "zero", "io", "io", "io", "raise", "healthy", "missing", "fn", "fn"])}
        if way in ("attr", "nested") and not _parts(env[on]):
            op["way"] = "load"
        if op["kind"] == "cut":
            op["at"] = place(rng, text)
        elif op["kind"] == "zero":
            op["at"], op["len"] = place(rng, text), rng.choice([1, 1, 4, 64, 512, 4096])
        elif op["kind"] == "fn":
            op["how"] = rng.choice(["missing", "empty"])
            if not functions(text):
                continue
        elif op["kind"] == "io":
            recs = core.forkcall(_dry, sc, op, root)
            f = disk.draw_io(rng, recs, n=rng.choice([1, 1, 2]), soft=0.35)
            op["plan"] = f
        elif op["kind"] == "raise":
            sites = {}
            for k, s in enumerate(core.forkcall(_trail, sc, op, root)):
                sites.setdefault(s, []).append(k + 1)
            if not sites:
                continue
            op["step"] = rng.choice(sites[rng.choice(sorted(sites))])
            op["exc"] = rng.choice(["KeyboardInterrupt", "MemoryError", "OSError"])
        sc["ops"].append(op)
    disk.empty(root)
    return sc


def place(rng, text):
    """Byte offset in a document: its ends, a line end, inside a number or string, anywhere"""
    n = len(text)
    k = rng.randrange(6)
    if k == 0:
        return rng.choice([0, 1, n - 1, max(0, n - 2), max(0, n - 3)])
    if k == 1:
        ends = [i for i, c in enumerate(text) if c == 10]
        return min(n - 1, rng.choice(ends) + rng.choice([0, 1])) if ends else 0
    if k == 2:
        closing = [i + 1 for i, c in enumerate(text) if c in b"]}"]
        return min(n - 1, rng.choice(closing))
    if k == 3:
        digits = [i for i, c in enumerate(text) if c in b"0123456789"]
        return rng.choice(digits) if digits else 0
    return rng.randrange(n)


def functions(text):
    """Function files a document refers to"""
    return sorted(set(re.findall(r'"function": "([^"]+\.py)"', text.decode("latin1"))))


def _fresh():
    root = os.path.join(core.SCRATCH, "disk")
    disk.empty(root)
    store.layout(root)
    return root


def _parts(o):
    """(attribute, keys) of an object whose parts can be given as files"""
    if isinstance(o, VectorField):
        return "components"
    if isinstance(o, DataDual):
        return "axes_dt"
    if isinstance(o, DataND):
        return "axes"
    return None


def _data(env, doc):
    o = env[doc["on"]]
    if doc["wrap"] == "list":
        return [o, 3, [o.copy()]]
    if doc["wrap"] == "dict":
        return {"first": o, "n": 3}
    return o


def _write(sc, root):
    """Save the document, and its parts one by one; size of the document"""
    env = store.build(sc["world"])
    o = env[sc["doc"]["on"]]
    with ops.quiet():
        store.save(_data(env, sc["doc"]), os.path.join(root, "a", "doc.json"))
        p = _parts(o)
        if p:
            val = getattr(o, p)
            part = list(val.values())[-1] if isinstance(val, dict) else val[-1]
            part.save(os.path.join(root, "a", "part.json"))
    return os.path.getsize(os.path.join(root, "a", "doc.json"))


def _call(sc, op, root, env):
    """The load as a function without argument, and the object it assigns to"""
    os.chdir(os.path.join(root, "a"))
    arg = os.path.join(root, "a", "doc.json") if not op["rel"] else "doc.json"
    part = os.path.join(root, "a", "part.json") if not op["rel"] else "part.json"
    o = env[sc["doc"]["on"]]
    way = op["way"]
    if way == "ctor":
        return (lambda: type(o)(init_str=arg)), o
    if way == "load":
        return (lambda: load(arg)), o
    if way == "init":
        return (lambda: type(o)(init_dict=load_init_dict(arg)[1])), o
    if way == "data":
        wrap = sc["doc"]["wrap"]
        if wrap == "list":
            return (lambda: load_list(arg)), o
        return (lambda: load_dict(arg)), o
    p = _parts(o)
    val = getattr(o, p)
    new = dict(val) if isinstance(val, dict) else list(val)
    new[list(val)[-1] if isinstance(val, dict) else -1] = part
    if way == "attr":

        def assign():
            setattr(o, p, new)
            return o

        return assign, o
    props = {k: getattr(o, k) for k in core.lib_props(type(o))}
    props[p] = new
    return (lambda: type(o)(**props)), o


def _file(op):
    return "part.json" if op["way"] in ("attr", "nested") else "doc.json"


def _dry(sc, op, root):
    env = store.build(sc["world"])
    call, _ = _call(sc, op, root, env)
    disk.region()
    disk.arm(root)
    with ops.quiet():
        try:
            call()
        except Exception:
            pass
    disk.disarm()
    return disk.log()[0]


def _trail(sc, op, root):
    env = store.build(sc["world"])
    call, _ = _call(sc, op, root, env)
    inj = inject.Injector(also=(store.JSON_LIB,))
    inj.trail = []
    with ops.quiet():
        try:
            with inj:
                call()
        except Exception:
            pass
    return ["%s:%d" % s for s, _ in inj.trail]


def fds():
    out = []
    for n in os.listdir("/proc/self/fd"):
        try:
            out.append((int(n), os.readlink("/proc/self/fd/" + n)))
        except OSError:
            pass
    return sorted(x for x in out if not x[1].startswith("/proc/"))


def _load(sc, op, root):
    """One load in a process of its own; what can be observed"""
    env = store.build(sc["world"])
    call, o = _call(sc, op, root, env)
    cwd, open_, before = os.getcwd(), fds(), core.canon(o)
    inj = inject.Injector(op["step"], inject.KINDS[op["exc"]], also=(store.JSON_LIB,)) if op["kind"] == "raise" else None
    for p in op.get("gone", ()):
        os.rename(p, p + ".away")
        if op["how"] == "empty":
            with open(p, "w"):
                pass
    disk.region()
    disk.arm(root, op.get("plan", ()))
    x = None
    with ops.quiet():
        try:
            if inj:
                with inj:
                    x = call()
            else:
                x = call()
            out = "returned"
        except (Exception, KeyboardInterrupt) as e:
            out = "raised " + type(e).__name__
    disk.disarm()
    for p in op.get("gone", ()):
        os.rename(p + ".away", p)
    recs, fired = disk.log()
    r = {"out": out, "fired": fired, "step": bool(inj and inj.fired), "where": inj.where if inj else None}
    r["calls"] = [(disk.NAMES[c.op], c.res, c.err) for c in recs]
    r["cwd"] = os.getcwd() == cwd
    r["fds"] = [f for f in fds() if f not in open_]
    if out == "returned":
        r["canon"] = core.canon(x)
        r["cls"] = type(x).__name__
    else:
        r["diff"] = core.exact_diff(core.canon(o), before)
    return r


def _expect(sc):
    env = store.build(sc["world"])
    x = _data(env, sc["doc"])
    return core.canon(x), core.canon(env[sc["doc"]["on"]])


def judge(sc):
    disk.region()
    root = _fresh()
    core.forkcall(_write, sc, root)
    good = disk.snapshot(root)
    whole, single = core.forkcall(_expect, sc)
    n = {"comparisons": 0, "operations": 0, "loads that raised": 0}
    faults, distinct, log, v = {}, set(), [], None
    from .c09 import unorder

    for i, op in enumerate(sc["ops"]):
        p = os.path.join(root, "a", _file(op))
        rel = "a/" + _file(op)
        text = good[rel][1]
        damaged = False
        if op["kind"] in ("cut", "zero"):
            at = min(op["at"], len(text) - 1)
            b = text[:at] if op["kind"] == "cut" else text[:at] + b"\0" * min(op["len"], len(text) - at) + text[at + op["len"] :]
            with open(p, "wb") as f:
                f.write(b)
            damaged = True
            k = {"cut": "truncated file", "zero": "zeroed block"}[op["kind"]]
            faults[k] = faults.get(k, 0) + 1
        elif op["kind"] == "missing":
            os.unlink(p)
            damaged = True
            faults["missing file"] = faults.get("missing file", 0) + 1
        elif op["kind"] == "fn":
            op = dict(op, gone=functions(text)[-1:])
            damaged = bool(op["gone"])
            if damaged:
                faults["function file gone"] = faults.get("function file gone", 0) + 1
        r = core.forkcall(_load, sc, op, root)
        disk.restore(root, good)
        for f in r["fired"]:
            k = disk.fault_name(f)
            faults[k] = faults.get(k, 0) + 1
        if r["step"]:
            k = "%s raised inside the load" % op["exc"]
            faults[k] = faults.get(k, 0) + 1
        n["operations"] += 1
        n["comparisons"] += 1
        hard = [f for f in r["fired"] if f[1] == disk.ERRNO and f[2] != 4 and f[0] != "close"]
        what = None
        if r["out"] == "returned":
            if damaged:
                what = "a %s was loaded as data (%s)" % ("missing file" if op["kind"] == "missing" else "damaged file", r["cls"])
            elif hard:
                what = "the load returned although a system call failed (%s)" % disk.fault_name(hard[0])
            else:
                d = core.diff(unorder(r["canon"]), unorder(whole if op["way"] == "data" or not sc["doc"]["wrap"] else single), rtol=0.0)
                if d:
                    what = "the content loaded differs from the one saved: %s (loaded != saved)" % d
        else:
            n["loads that raised"] += 1
            if not damaged and not r["step"] and not hard and not any(f[0] == "close" for f in r["fired"]):
                what = "a healthy file did not load: %s" % r["out"]
            elif r["diff"]:
                what = "a failed load (%s) changed the object assigned to: %s" % (r["out"], r["diff"])
        if not what and not r["cwd"]:
            what = "the load (%s) left another working directory" % r["out"]
        if not what and r["fds"]:
            what = "the load (%s) left open descriptors: %s" % (r["out"], [os.path.basename(f[1]) for f in r["fds"]])
        names = [disk.fault_name(f) for f in r["fired"]] + ([op["exc"]] if r["step"] else [])
        log.append((op["kind"], op["way"], r["out"], names, r["where"], core.digest(r.get("canon")), r["calls"]))
        if damaged or names:
            site = ""
            if op["kind"] in ("cut", "zero"):
                a = min(op["at"], len(text) - 1)
                site = text[max(0, a - 1) : a].decode("latin1"), text[a : a + 1].decode("latin1"), a * 8 // len(text)
            distinct.add(core.derive(sc["doc"]["on"][0], op["way"], op["kind"], site, names, r["where"], r["out"], op.get("len")))
        if what:
            v = {"cls": "%s: %s" % (op["kind"], what.split(":")[0].split("(")[0]), "what": "step %d, %s%s: %s" % (i, describe(op, sc), " (%s)" % "; ".join(names) if names else "", what), "sig": op["kind"] + op["way"]}
            break
    disk.empty(root)
    sample = "; ".join(describe(o, sc) for o in sc["ops"][:4])
    return hist.result(v, n, faults, {"distinct": distinct}, sample, log)


def describe(op, sc):
    way = {"ctor": "constructor with the path", "load": "load", "init": "load_init_dict", "data": "load_" + str(sc["doc"]["wrap"] or "dict"), "attr": "assignment of a path", "nested": "construction from a path"}[op["way"]]
    what = {"cut": "truncated at byte %s" % op.get("at"), "zero": "with %s zeroed bytes at %s" % (op.get("len"), op.get("at")), "io": "under I/O faults", "raise": "with an interrupt", "healthy": "healthy", "missing": "missing", "fn": "with its function file " + op.get("how", "")}[op["kind"]]
    return "%s, file of %s %s" % (way, sc["doc"]["on"], what)


def shrinks(sc):
    for xs in hist.shrink_list(sc["ops"]):
        if xs:
            yield dict(sc, ops=xs)
    for i, op in enumerate(sc["ops"]):
        if len(op.get("plan", ())) > 1:
            for j in range(len(op["plan"])):
                e = copy.deepcopy(op)
                del e["plan"][j]
                yield dict(sc, ops=sc["ops"][:i] + [e] + sc["ops"][i + 1 :])
