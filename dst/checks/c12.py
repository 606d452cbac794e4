"""C12 - a CSV export is complete and faithful, or the call raises."""
import copy
import csv
import os
import re

import numpy as np

from SciDataTool import DataND, DataPattern

from .. import core, disk, hist, inject, mutate, ops, world as W

ID = "C12"
LEVEL = "fault-injection exploration"
TECHNIQUE = "deterministic simulation: seeded histories of exports to one folder with I/O faults at any system call and exceptions at any step; every file an export that returned should have written is read back and compared with the in-memory answer of a pristine process"
LEVEL_NOTE = "Requests are sampled. Curves of several data objects (data_list) are exported against the first one's axis only and are not generated."
RULE = (
    "one case = one export (two-dimensional or general request, one file or one per value of the third axis) after a history of exports and changes of the data, some of "
    "them cut by a fault. When it returns, every file is parsed: axis values and field values equal those of the request in a pristine process as exact numbers; symbol, name, "
    "unit and slices are those of the request; headings are those of the same export to an empty folder. Distinct = distinct (request shape, options, number of files and shape, "
    "state of the folder, outcome, fault); non-trivial = the export returned, or was cut by a fault."
)
ASSUME = ["the text of headings (labels, rounded slice values of plots) is that of the plots; only names, units and values are judged against the request"]
COMPONENTS = {
    "real": "SciDataTool export from the current working tree, csv, Python file objects, kernel file system below the faults",
    "stubbed": "failing, short and interrupted system calls (LD_PRELOAD layer)",
}
PLAN = {
    "quick": {"runs": 6000, "seconds": 75, "min_runs": 150},
    "thorough": {"runs": 80000, "seconds": 780, "min_runs": 1500},
}


# --------------------------------------------------------------------------- scenarios
def gen(seed, tier):
    rng = core.rng_for(seed)
    w = W.gen_world(rng, None, n=rng.choice([1, 2]), small=rng.random() < 0.75)
    env = W.build(w)
    root = _fresh()
    disk.region()
    names = [k for k in sorted(env) if isinstance(env[k], DataND)]
    out = []
    done = []
    for i in range(rng.choice([2, 3, 5])):
        if not names:
            break
        if i and rng.random() < 0.25:
            s = mutate.gen_set(rng, env, w)
            if s:
                mutate.apply_set(env, s, w)
                out.append(s)
                done.append(s)
                continue
        for _ in range(5):
            op = gen_export(rng, env, rng.choice(names))
            ok, recs, trail = core.forkcall(_dry, w, list(done), op, root)
            if ok:
                break
        else:
            if rng.random() < 0.7:
                continue
        r = rng.random()
        if r < 0.45 and recs:
            op["fault"] = {"kind": "io", "plan": disk.draw_io(rng, recs)}
        elif r < 0.55 and trail:
            op["fault"] = inject.draw_faults(rng, [tuple(t) for t in trail], 0, 1)[0]
        elif r < 0.62:
            op["stale"] = rng.choice(["longer", "folder", "read only"])
        out.append(op)
        if "fault" in op and rng.random() < 0.5:
            again = copy.deepcopy(op)  # tries again, on a healthy disk
            del again["fault"]
            out.append(again)
    disk.empty(root)
    return {"world": w, "ops": out}


def gen_export(rng, env, on):
    o = env[on]
    axes = ops.axes_of(o)
    two = rng.random() < 0.45
    kw, ad = {}, {}
    if two:
        args = []
        listed = False
        main = 0 if rng.random() < 0.6 else rng.randrange(len(axes))
        for i, a in enumerate(axes):
            plain = not (a.is_components or isinstance(a, DataPattern))
            if i == main:
                n = a.name
                other = ops.FFT.get(n) or ops.IFFT.get(n)
                if other and rng.random() < 0.35:
                    n = other
                args.append(n + rng.choice([""] * 3 + (["[smallestperiod]", "[oneperiod]", "{%s}" % rng.choice(ops.AX_UNITS[n])] if plain and ops.AX_UNITS.get(n) else [])))
            elif not listed and rng.random() < 0.4:
                k = rng.choice([2, 3, len(a.get_values()), len(axes[main].get_values(is_smallestperiod=True))])
                args.append(a.name + "[" + ",".join(str(j) for j in range(min(k, len(a.get_values())))) + "]")
                listed = True
            else:
                args.append(a.name + rng.choice(["[0]", "[0]", "[1]", "=sum", "=mean", "=max"]))
        r = rng.random()
        if r < 0.15:
            args = args[main : main + 1]
        elif r < 0.8:
            args.insert(0, args.pop(main))
        else:
            rng.shuffle(args)
        if rng.random() < 0.1:
            args = []
    elif rng.random() < 0.55:
        # up to three long axes, the others sliced
        keep = rng.sample(range(len(axes)), min(len(axes), rng.choice([1, 2, 3, 3])))
        args = []
        for i, a in enumerate(axes):
            if i in keep:
                n = a.name
                other = ops.FFT.get(n) or ops.IFFT.get(n)
                if other and rng.random() < 0.25:
                    n = other
                sel = "" if a.is_components or isinstance(a, DataPattern) else rng.choice(["", "", "[smallestperiod]", "[oneperiod]", "[0:3]"])
                u = "{%s}" % rng.choice(ops.AX_UNITS[n]) if ops.AX_UNITS.get(n) and rng.random() < 0.3 else ""
                args.append(n + sel + u)
            else:
                args.append(a.name + rng.choice(["[0]", "[1]", "=mean", "=sum"]))
        if rng.random() < 0.25:
            rng.shuffle(args)
    else:
        args, ad = ops.gen_args(rng, o, full=True)
        if rng.random() < 0.15:
            args = []
    kw["is_2D"] = two
    if rng.random() < 0.65:
        kw["is_multiple_files"] = True
    if rng.random() < 0.4:
        kw["unit"] = rng.choice(["dB", "dB", "SI"] + ops.UNIT_CHOICES.get(o.unit, []) * 2)
    po = {}
    if ad:
        po["axis_data"] = {k: {"__nd__": v} for k, v in ad.items()}
    if rng.random() < 0.1:
        po["is_norm"] = True
    if po:
        kw["plot_options"] = po
    return {"op": "export", "on": on, "args": args, "kw": kw, "file": rng.choice(["exp", "exp", "exp", "other", None]), "dir": rng.choice(["a", "a", "a", "b"])}


def _fresh():
    root = os.path.join(core.SCRATCH, "disk")
    disk.empty(root)
    for d in ("a", "b"):
        os.makedirs(os.path.join(root, d))
    return root


def _export(env, op, root):
    o = env[op["on"]]
    kw = ops.decode(op["kw"])
    if op["file"]:
        kw["file_name"] = op["file"]
    return lambda: o.export_along(*op["args"], save_path=os.path.join(root, op["dir"]), **kw)


def _dry(world, sets, op, root):
    env = W.build(world)
    with ops.quiet():
        for s in sets:
            mutate.apply_set(env, s, world)
        call = _export(env, op, root)
        disk.region()
        disk.arm(root)
        try:
            call()
            ok = True
        except Exception:
            ok = False
        disk.disarm()
        recs = disk.log()[0]
        inj = inject.Injector()
        inj.trail = []
        if ok:
            try:
                with ops.limit(ops.WALL_LIMIT), inj:
                    call()
            except (Exception, ops.Hang):
                pass
        for d in ("a", "b"):
            disk.empty(os.path.join(root, d))
            os.makedirs(os.path.join(root, d), exist_ok=True)
    return ok, recs, inj.trail


# --------------------------------------------------------------------------- the same request in memory
def memory(world, sets, op):
    """What the files of an export must contain, from the queries of a pristine process: ("ok", expectation) or ("err", kind)"""
    env = W.build(world)
    with ops.quiet():
        for s in sets:
            mutate.apply_set(env, s, world)
        try:
            with ops.limit(ops.WALL_LIMIT):
                return "ok", _expect(env[op["on"]], op)
        except ops.Hang:
            return "err", "did not return"
        except Exception as e:
            return "err", type(e).__name__


def _expect(o, op):
    kw = ops.decode(op["kw"])
    po = kw.get("plot_options", {})
    unit = kw.get("unit", "SI")
    args = op["args"]
    if not args:
        args = [a.name + ("[pattern]" if isinstance(a, DataPattern) else "[oneperiod]") for a in o.get_axes()]
    e = {"symbol": o.symbol, "name": o.name, "unit": o.unit if unit == "SI" else unit, "files": []}
    if "dB" in e["unit"]:
        e["ref"], e["si"] = float(o.normalizations["ref"].ref), o.unit
    base = op["file"] or o.symbol + "_Data"
    fft = any("freqs" in a or "wavenumber" in a for a in args)
    get = o.get_magnitude_along if fft or kw["is_2D"] and "dB" in e["unit"] else o.get_along
    q = dict(unit=unit, is_norm=po.get("is_norm", False), axis_data=po.get("axis_data"))
    if kw["is_2D"]:
        x, ys, title, xlabel, ylabel, legends = o.plot_2D_Data(*args, **po, unit=unit, is_export=True)
        if len(ys) > 1 or np.ndim(ys[0]) < 2:
            e["files"].append({"name": base, "x": np.array(x[0]), "cols": [np.array(y) for y in ys], "labels": None, "slices": {}})
            # the curves again, from the query
            first = re.match(r"\w+", args[0]).group(0)
            if "wavenumber" not in "".join(args):  # (only positive ones are plotted)
                r = get(*args, **q)
                dims = [a.name for a in r["axes_list"] if not isinstance(r[a.name], str) and len(r[a.name]) > 1]
                f = r[o.symbol]
                curves = [a.name for a in r["axes_list"] if a.extension == "list" and len(a.values) > 1]
                if first in dims and first not in curves and len(curves) <= 1 and f.ndim == len(dims) and len(dims) <= 2:
                    others = [d for d in dims if d != first]
                    f = np.moveaxis(f, dims.index(first), 0)
                    if "ref" in e:  # what is not above the reference is not plotted
                        f = np.where(f <= 0, np.nan, f)
                    e["files"][0]["query"] = [f] if not others else [f[:, j] for j in range(f.shape[1])]
            e["rounded"] = True
            return e
        get = o.get_magnitude_along if fft else o.get_along
    r = get(*args, **q)
    dims = [a.name for a in r["axes_list"] if not isinstance(r[a.name], str) and len(r[a.name]) > 1]
    f = r[o.symbol]
    if f.ndim != len(dims):
        raise ValueError("shape")
    sl = _slices(r, dims)
    e["axes"] = dims[:2]
    e["units"] = {d: u for d in dims[:2] for u in [re.findall(r"\{(.*)\}", a) for a in args if re.match(r"\w+", a).group(0) == d] if u}
    if len(dims) == 0 or len(dims) > 3:
        raise ValueError("dimension")
    if len(dims) == 3:
        for i, v in enumerate(r[dims[2]]):
            e["files"].append({
                "name": "%s_%s%s" % (base, dims[2], v), "x": np.array(r[dims[0]]), "cols": [f[:, j, i] for j in range(f.shape[1])],
                "labels": np.array(r[dims[1]]), "slices": dict(sl, **{dims[2]: v}),
            })
    else:
        e["files"].append({
            "name": base, "x": np.array(r[dims[0]]), "cols": [f] if f.ndim == 1 else [f[:, j] for j in range(f.shape[1])],
            "labels": np.array(r[dims[1]]) if len(dims) == 2 else None, "slices": sl,
        })
    return e


def _slices(r, dims):
    out = {}
    for a in r["axes_list"]:
        if a.name not in dims and not isinstance(r[a.name], str):
            out[a.name] = r[a.name][0]
    for k, v in r["axes_dict_other"].items():
        out[k] = v[0]
    return out


def fresh(world, sets, op, scratch):
    """Headings of the same export by a pristine process to an empty folder: {file: first two rows}"""
    env = W.build(world)
    root = os.path.join(scratch, "fresh")
    disk.empty(root)
    os.makedirs(os.path.join(root, op["dir"]))
    try:
        with ops.quiet():
            for s in sets:
                mutate.apply_set(env, s, world)
            try:
                with ops.limit(ops.WALL_LIMIT):
                    _export(env, op, root)()
            except (Exception, ops.Hang):
                return None
        d = os.path.join(root, op["dir"])
        return {n: read(os.path.join(d, n))[:2] for n in sorted(os.listdir(d))}
    finally:
        disk.empty(root)


def read(path):
    with open(path, newline="") as f:
        return list(csv.reader(f))


def strip(s):
    return str(s).replace("$", "").replace("{", "").replace("}", "")


def cell(text, val):
    """A cell is exactly this value"""
    if isinstance(val, (str, np.str_)):
        return text == strip(val)
    try:
        z = complex(text)
    except ValueError:
        return False
    v = complex(val)
    same = lambda a, b: a == b or a != a and b != b
    return same(z.real, v.real) and same(z.imag, v.imag)


def compare(d, e, heads):
    """None, or how the folder differs from the expectation"""
    for f in e["files"]:
        p = os.path.join(d, f["name"] + ".csv")
        if not os.path.isfile(p):
            return "file missing", "%s.csv was not written" % f["name"]
        rows = read(p)
        if len(rows) < 2 or len(rows[0]) != 4:
            return "incomplete", "%s.csv has %d rows" % (f["name"], len(rows))
        sym, name, unit, sl = rows[0]
        if sym != e["symbol"] or name != e["name"]:
            return "heading", "%s.csv is named %r %r" % (f["name"], sym, name)
        want = e["unit"]
        got = unit[1:-1]
        if "ref" in e:
            m = re.match(r"^(.*) re\. (\S+) (.*)$", got)
            if not m or m.group(1) != want or float(m.group(2)) != e["ref"] or m.group(3) != e["si"]:
                return "unit", "%s.csv: unit %s, requested %s re. %s %s" % (f["name"], unit, want, e["ref"], e["si"])
        elif got != want or unit[:1] + unit[-1:] != "[]":
            return "unit", "%s.csv: unit %s, requested %s" % (f["name"], unit, want)
        if not e.get("rounded"):
            pairs = dict(re.findall(r"(\w+)=([^,]*)", sl))
            for k, v in f["slices"].items():
                text = isinstance(v, (str, np.str_))
                if text and "%s=%s" % (k, v) not in sl or not text and (k not in pairs or not cell(pairs[k].strip(), v)):
                    return "slices", "%s.csv: slices %r, requested %s=%s" % (f["name"], sl, k, v)
            for a in e["axes"]:
                if a not in rows[1][0]:
                    return "heading", "%s.csv: axes %r, requested %s" % (f["name"], rows[1][0], a)
            for a, u in e["units"].items():
                if u[0] not in rows[1][0]:
                    return "heading", "%s.csv: axes %r, requested %s{%s}" % (f["name"], rows[1][0], a, u[0])
        if f["labels"] is not None:
            if len(rows[1]) != len(f["labels"]) + 1 or not all(cell(c, v) for c, v in zip(rows[1][1:], f["labels"])):
                return "second axis", "%s.csv: second axis %s, in memory %s" % (f["name"], rows[1][1:4], f["labels"][:3])
        body = rows[2:]
        if len(body) != len(f["x"]):
            return "number of rows", "%s.csv has %d lines of values, %d in memory" % (f["name"], len(body), len(f["x"]))
        for what, cols in (("field values", f["cols"]), ("field values (query)", f.get("query"))):
            if cols is None:
                continue
            for i, row in enumerate(body):
                if len(row) != 1 + len(cols):
                    return "number of columns", "%s.csv line %d has %d cells, %d curves in memory" % (f["name"], i, len(row), len(cols))
                if not cell(row[0], f["x"][i]):
                    return "axis values", "%s.csv line %d: axis value %s, in memory %r" % (f["name"], i, row[0], f["x"][i])
                for j, c in enumerate(cols):
                    if not cell(row[1 + j], c[i]):
                        return what, "%s.csv line %d, curve %d: %s, in memory %r" % (f["name"], i, j, row[1 + j], c[i])
        if heads is not None and heads.get(f["name"] + ".csv") != rows[:2]:
            return "heading depends on history", "%s.csv: headings %s, to an empty folder %s" % (f["name"], rows[:2], heads.get(f["name"] + ".csv"))
    return None


# --------------------------------------------------------------------------- execution
def judge(sc):
    root = _fresh()
    r = core.forkcall(_run, sc, root, timeout=300)
    disk.empty(root)
    return hist.result(r["v"], r["n"], r["faults"], {"distinct": r["distinct"]}, r["sample"], r["log"])


def _run(sc, root):
    disk.region()
    env = W.build(sc["world"])
    n = {"comparisons": 0, "operations": 0, "files compared": 0, "exports that raised": 0, "faults not reached": 0, "requests without in-memory answer": 0}
    faults, distinct, log = {}, set(), []
    res = {"v": None, "n": n, "faults": faults, "distinct": distinct, "log": log, "sample": "; ".join(describe(o) for o in sc["ops"][:4])}
    sets = []
    for i, op in enumerate(sc["ops"]):
        if op.get("on") not in env:
            continue
        n["operations"] += 1
        if op["op"] != "export":
            with ops.quiet():
                mutate.apply_set(env, op, sc["world"])
            sets.append(op)
            log.append("set")
            continue
        d = os.path.join(root, op["dir"])
        before = sorted(os.listdir(d))
        if op.get("stale"):
            _stale(d, op, env)
        call = _export(env, op, root)
        f = op.get("fault")
        inj = None
        W.Callbacks.reset()
        if f and f["kind"] == "io":
            disk.arm(root, f["plan"])
        elif f:
            inj = inject.Injector(f["at"], inject.KINDS[f["kind"]])
        with ops.quiet():
            try:
                with ops.limit(ops.WALL_LIMIT):
                    if inj:
                        with inj:
                            call()
                    else:
                        call()
                out = "returned"
            except ops.Hang:
                out = "did not return"
            except (Exception, KeyboardInterrupt) as ex:
                out = "raised " + type(ex).__name__
        fired = []
        if f and f["kind"] == "io":
            disk.disarm()
            fired = [disk.fault_name(x) for x in disk.log()[1]]
        elif inj and inj.fired:
            fired = [f["kind"]]
        for x in fired:
            faults[x] = faults.get(x, 0) + 1
        if f and not fired:
            n["faults not reached"] += 1
        log.append((out, fired))
        shape = None
        if out != "returned":
            n["exports that raised"] += 1
        else:
            st, e = core.forkcall(memory, sc["world"], sets, op)
            if st != "ok":
                n["requests without in-memory answer"] += 1
            else:
                heads = core.forkcall(fresh, sc["world"], sets, op, core.SCRATCH)
                n["comparisons"] += 1
                n["files compared"] += len(e["files"])
                shape = (len(e["files"]), [len(x["cols"]) > 1 for x in e["files"][:1]])
                c = compare(d, e, heads)
                if c:
                    how = ", with " + "; ".join(fired) if fired else ""
                    res["v"] = {
                        "cls": "export differs: " + c[0],
                        "what": "step %d, %s returned%s, but %s" % (i, describe(op), how, c[1]),
                        "sig": c[0],
                    }
                    return res
        if fired or out == "returned":
            distinct.add(core.derive(hist.skeleton(op["args"]), hist.skeleton(op["kw"]), shape, bool(before), op.get("stale"), out, fired))
    if not n["comparisons"]:
        n["comparisons"] = 1 if n["exports that raised"] else 0
    return res


def _stale(d, op, env):
    """Something else is in the way of the export"""
    p = os.path.join(d, (op["file"] or env[op["on"]].symbol + "_Data") + ".csv")
    if os.path.isdir(p):
        return
    if op["stale"] == "folder":
        if not os.path.exists(p):
            os.makedirs(p)
        return
    with open(p, "w") as f:
        f.write("left,from,an,earlier\n" + "1,2,3,4\n" * 400)
    if op["stale"] == "read only":
        os.chmod(p, 0o444)


def describe(op):
    if op["op"] != "export":
        return mutate.describe(op)
    a = ", ".join([repr(x) for x in op["args"]] + ["%s=%r" % kv for kv in op["kw"].items()])
    return "%s.export_along(%s) to %s" % (op["on"], a, op["file"] or "default name")


def shrinks(sc):
    for xs in hist.shrink_list(sc["ops"]):
        if xs:
            yield dict(sc, ops=xs)
    for i, op in enumerate(sc["ops"]):
        for k in ("fault", "stale"):
            if k in op:
                yield dict(sc, ops=sc["ops"][:i] + [{a: b for a, b in op.items() if a != k}] + sc["ops"][i + 1 :])
        for k in list(op.get("kw", {})):
            if k != "is_2D":
                yield dict(sc, ops=sc["ops"][:i] + [dict(op, kw={a: b for a, b in op["kw"].items() if a != k})] + sc["ops"][i + 1 :])
    for c in hist.shrink_world(sc):
        yield c
