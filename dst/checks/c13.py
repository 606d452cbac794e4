"""C13 - saved figures are complete, or the call raises; other figures survive."""
import copy
import os
import xml.dom.minidom

import matplotlib
import matplotlib.pyplot as plt
import numpy as np
from PIL import Image

from SciDataTool import DataND, DataPattern, VectorField
from SciDataTool.Functions.Plot.plot_2D import plot_2D
from SciDataTool.Functions.Plot.plot_3D import plot_3D
from SciDataTool.Functions.Plot.plot_4D import plot_4D

from .. import core, disk, hist, inject, ops, world as W

ID = "C13"
LEVEL = "fault-injection exploration"
TECHNIQUE = "deterministic simulation: seeded plots and animations to files with figures of the caller open, I/O faults at any system call of the save and exceptions at any step; pictures decoded and compared with those of a pristine process"
LEVEL_NOTE = "Vector formats (svg, pdf) are checked for completeness, not compared. Only the Agg back end is simulated."
RULE = (
    "one case = one plot or animation call with a save path that returned, raised or was cut by a fault, with 0 to 3 figures of the caller open. If it returned, every picture is decoded "
    "completely (all frames) and equals, pixel by pixel, that of the same call in a pristine process without other figures. Always: the same figures are open as before, those the call was not "
    "given render to the same pixels, and the plotted data are as before. Distinct = distinct (plot kind and options, format, figures open and given, state of the file, outcome, fault "
    "and its site); non-trivial = the call reached the drawing."
)
ASSUME = ["a figure given by the caller may be drawn on, but stays open"]
COMPONENTS = {
    "real": "SciDataTool plots from the current working tree, matplotlib (Agg), PIL, imageio, kernel file system below the faults",
    "stubbed": "failing, short and interrupted system calls (LD_PRELOAD layer); no display",
}
PLAN = {
    "quick": {"runs": 3000, "seconds": 90, "min_runs": 80},
    "thorough": {"runs": 40000, "seconds": 800, "min_runs": 800},
}


# --------------------------------------------------------------------------- scenarios
def gen(seed, tier):
    rng = core.rng_for(seed)
    w = W.gen_world(rng, None, n=1, small=True)
    env = W.build(w)
    root = _fresh()
    disk.region()
    sc = {"world": w, "figs": [rng.choice(["line", "bar", "3d", "two", "empty", "blank"]) for _ in range(rng.choice([0, 1, 2, 3]))], "ops": []}
    for i in range(rng.choice([1, 2, 3])):
        for _ in range(6):
            op = gen_plot(rng, env)
            if op is None:
                continue
            op["fmt"] = rng.choice(["png"] * 5 + ["svg", "pdf", "jpg"])
            op["name"] = rng.choice(["x", "y"])
            if op["kind"].endswith("anim"):
                op["fmt"] = rng.choice(["png", "gif"])
            op["give"] = rng.random() < 0.25 if op["kind"] != "VF quiver anim" else True
            if not op["give"] and rng.random() < 0.2 and not op["kind"].endswith("anim"):
                op["win"] = True
            ok, recs, trail = core.forkcall(_dry, sc, op, root)
            if ok or rng.random() < 0.1:
                break
        else:
            continue
        op["cur"] = rng.randrange(8)
        faults = []
        for _ in range(rng.choice([1, 2, 3])):
            r = rng.random()
            if r < 0.6 and recs:
                faults.append({"kind": "io", "plan": disk.draw_io(rng, recs, soft=0.15)})
            elif trail:
                faults += inject.draw_faults(rng, [tuple(t) for t in trail], 0, 1)
        faults.insert(rng.randrange(len(faults) + 1), None)
        op["faults"] = faults
        op["stale"] = rng.random() < 0.3
        sc["ops"].append(op)
    disk.empty(root)
    return sc


def gen_plot(rng, env):
    datas = [k for k in sorted(env) if isinstance(env[k], DataND)]
    fields = [k for k in sorted(env) if isinstance(env[k], VectorField)]
    r = rng.random()
    if r < 0.25:
        return gen_direct(rng)
    if r < 0.75:
        op = ops.draw_op(rng, env, only=set(ops.PLOT_OPS), axis_weight=0)
        if op is None:
            return None
        o = env[op["on"]]
        if isinstance(o, VectorField) and rng.random() < 0.3 and op["op"] == "plot_2D_Data":
            ax = [a.name for a in ops.axes_of(o)]
            if "angle" in ax:
                op.update(args=["angle[smallestperiod]"] + [a + "[0]" for a in ax if a != "angle"], kw={"type_plot": "quiver", "radius": 0.1})
        if op["op"] == "plot_3D_Data" and isinstance(o, DataND):
            if rng.random() < 0.4:
                op["kw"]["type_plot"] = rng.choice(["pcolor", "pcolormesh", "scatter", "scatterX"])
            if rng.random() < 0.2:
                op["kw"]["is_contour"] = True
        if op["op"] == "plot_2D_Data" and isinstance(o, DataND) and rng.random() < 0.3:
            op["kw"]["type_plot"] = rng.choice(["curve", "bargraph", "barchart", "curve_point", "point", "octave"])
        if rng.random() < 0.5:
            ops.gen_style(rng, getattr(o, op["op"]), op["kw"])
        op["kind"] = ("VF " if isinstance(o, VectorField) else "") + op["op"]
        return op
    if fields and rng.random() < 0.35:
        on = rng.choice(fields)
        ax = [a.name for a in ops.axes_of(env[on])]
        if "time" not in ax or "angle" not in ax:
            return None
        rest = [a + "[0]" for a in ax if a not in ("time", "angle")]
        if rng.random() < 0.6 and not rest:
            return {"kind": "VF quiver anim", "op": "plot_2D_Data_Animated", "on": on, "args": ["time[oneperiod]", "angle[smallestperiod]"], "kw": {"type_plot": "quiver", "radius": 0.1, "nb_frames": rng.choice([2, 3])}}
        return {"kind": "VF anim", "op": "plot_2D_Data_Animated", "on": on, "args": ["time[oneperiod]{s}", "", "angle{°}"] + rest, "kw": {"nb_frames": 2}}
    if not datas:
        return None
    on = rng.choice(datas)
    axes = ops.axes_of(env[on])
    if len(axes) < 2:
        return None
    i = rng.randrange(len(axes))
    a = axes[i]
    if a.is_components:
        return None
    n = a.name
    unit = {"time": "s", "angle": "rad", "z": "m", "freqs": "Hz"}.get(n)
    if unit is None:
        return None
    others = [b for b in axes if b is not a]
    three = len(others) > 1 and rng.random() < 0.4
    args = []
    for j, b in enumerate(others):
        m = b.name
        if j < 1 + three:
            args.append(ops.FFT[m] if m in ops.FFT and rng.random() < 0.25 else m)
        else:
            args.append(m + "[0]")
    kw = {"nb_frames": rng.choice([2, 3]), "unit": "SI"}
    if not three:
        kw.update(y_min=None, y_max=None)
    return {"kind": "3D anim" if three else "2D anim", "op": "plot_3D_Data_Animated" if three else "plot_2D_Data_Animated", "on": on, "args": [n + "[oneperiod]{%s}" % unit, rng.choice(["", "head"])] + args, "kw": kw}


def gen_direct(rng):
    """Functions of SciDataTool.Functions.Plot called with arrays"""
    f = rng.choice(["plot_2D", "plot_2D", "plot_3D", "plot_3D", "plot_4D"])
    t = rng.choice({
        "plot_2D": ["curve", "bargraph", "barchart", "octave", "curve_point", "point", "barStackResultant", "stack"],
        "plot_3D": ["stem", "surf", "pcolor", "pcolormesh", "scatter"],
        "plot_4D": ["scatter", "scatterX"],
    }[f])
    kw = {"type_plot": t}
    if rng.random() < 0.5:
        kw["xticks"] = [0, 1, 2]
    if f == "plot_2D" and t in ("curve", "bargraph", "point") and rng.random() < 0.2:
        kw["is_logscale_x"] = True
    if f != "plot_2D" and rng.random() < 0.3:
        kw["is_switch_axes"] = True
    if f != "plot_2D" and rng.random() < 0.5:
        kw["z_min"], kw["z_max"] = 0.2, 0.7
    if rng.random() < 0.7:
        ops.gen_style(rng, {"plot_2D": plot_2D, "plot_3D": plot_3D, "plot_4D": plot_4D}[f], kw)
    return {"kind": "%s %s" % (f, t), "op": f, "on": None, "n": rng.choice([3, 5]), "low": rng.choice([0, 0, 0.3, 0.6]), "seed": rng.randrange(1000), "kw": kw, "args": []}


def _arrays(op):
    rs = np.random.RandomState(op["seed"])
    n, t = op["n"], op["kw"]["type_plot"]

    def rand(*shape):
        # null and negative values too
        v = rs.rand(*shape) - op["low"]
        return np.where(np.abs(v) < op["low"] / 4, 0.0, v)

    x = np.arange(n, dtype=float)
    if op["op"] == "plot_2D":
        k = 3 if t in ("barStackResultant", "stack") else 1 + op["seed"] % 3
        ys = rand(k, n) if t in ("barStackResultant", "stack") else [rand(n) for _ in range(k)]
        xs = [x, x] if t == "barStackResultant" else [x] * k if t == "octave" else [x]
        return [xs, ys]
    y = np.arange(n, dtype=float) * 2
    if op["op"] == "plot_3D" and t in ("pcolor", "pcolormesh", "surf"):
        if t == "surf":
            x, y = np.meshgrid(x, y)
        return [x, y, rand(n, n)]
    return [x, y, rand(n)]


def _fresh():
    root = os.path.join(core.SCRATCH, "disk")
    disk.empty(root)
    os.makedirs(os.path.join(root, "out"))
    return root


# --------------------------------------------------------------------------- calls
def open_figs(kinds):
    """Figures of the caller"""
    out = []
    for k in kinds:
        if k == "3d":
            f, ax = plt.subplots(figsize=(2, 2), dpi=50, subplot_kw={"projection": "3d"})
            ax.plot([0, 1], [1, 0], [0, 2])
        elif k == "two":
            f, axs = plt.subplots(1, 2, figsize=(3, 2), dpi=50)
            axs[0].plot([1, 3, 2])
            axs[1].bar([0, 1, 2], [3, 1, 2])
        elif k == "blank":
            f = plt.figure(figsize=(2, 2), dpi=50)
        else:
            f, ax = plt.subplots(figsize=(2, 2), dpi=50)
            if k == "line":
                ax.plot([0, 1, 2], [0, 3, 1], label="mine")
                ax.legend()
                ax.set_title("title")
            elif k == "bar":
                ax.bar([0, 1, 2], [3, 1, 2])
        out.append(f)
    return out


def pixels(f):
    f.canvas.draw()
    return (np.asarray(f.canvas.buffer_rgba()).tobytes(), len(f.axes))


def is3d(op):
    if op["op"] == "plot_3D":
        return op["kw"]["type_plot"] in ("stem", "surf")
    if op["op"].startswith("plot_3D_Data"):
        return op["kw"].get("is_2D_view") is False
    return False


def _call(env, op, root, given):
    """The call as a function without argument, and what it is given"""
    path = os.path.join(root, "out", "%s.%s" % (op["name"], op["fmt"]))
    kw = ops.decode(op["kw"])
    args = list(op["args"])
    kw["save_path"] = path
    if given is not None:
        kw["fig"], kw["ax"] = given, given.axes[0]
    if op.get("win"):
        kw["win_title"] = "window"
    if op["on"] is None:
        args = _arrays(op)
        kw["is_show_fig"] = False
        fn = {"plot_2D": plot_2D, "plot_3D": plot_3D, "plot_4D": plot_4D}[op["op"]]
        return (lambda: fn(*args, **kw)), args
    o = env[op["on"]]
    if op.get("others"):
        kw["data_list"] = [env[k] for k in op["others"]]
    if not op["kind"].endswith("anim"):
        kw["is_show_fig"] = False
    return (lambda: getattr(o, op["op"])(*args, **kw)), args


def files(env, op):
    """Pictures the call announces"""
    ext = "gif" if op["kind"].endswith("anim") and op["fmt"] == "png" else op["fmt"]
    if op["on"] and isinstance(env[op["on"]], VectorField) and op["kw"].get("type_plot") != "quiver" and len(env[op["on"]].components) > 1:
        return ["%s_%s.%s" % (op["name"], c, ext) for c in env[op["on"]].components]
    return ["%s.%s" % (op["name"], ext)]


def decode(path):
    """("ok", pixels) of a complete picture, or ("bad", why)"""
    try:
        with open(path, "rb") as f:
            raw = f.read()
    except OSError as e:
        return "bad", "cannot be opened (%s)" % type(e).__name__
    if not raw:
        return "bad", "is empty"
    ext = path.rsplit(".", 1)[1]
    try:
        if ext == "svg":
            xml.dom.minidom.parseString(raw)
            return "ok", None
        if ext == "pdf":
            if not raw.startswith(b"%PDF") or not raw.rstrip().endswith(b"%%EOF") or b"startxref" not in raw[-64:]:
                return "bad", "is an incomplete PDF of %d bytes" % len(raw)
            return "ok", None
        out = []
        with Image.open(path) as im:
            for i in range(getattr(im, "n_frames", 1)):
                im.seek(i)
                im.load()
                out.append(core.derive(im.size, im.convert("RGB").tobytes()))
        with Image.open(path) as im:
            im.verify()
        if ext == "gif" and raw[-1:] != b";":
            return "bad", "has no end"
        return "ok", out
    except Exception as e:
        return "bad", "cannot be decoded: %s %s" % (type(e).__name__, str(e)[:60])


def _given(sc, op, figs):
    """A figure for the call to draw on"""
    if not op["give"]:
        return None
    f, _ = plt.subplots(figsize=(3, 2), dpi=60, subplot_kw={"projection": "3d"} if is3d(op) else {})
    return f


def reference(sc, op, root):
    """Pictures of the same call in a pristine process without other figures; None if it raises"""
    env = W.build(sc["world"])
    ref = os.path.join(core.SCRATCH, "ref")
    disk.empty(ref)
    os.makedirs(os.path.join(ref, "out"))
    try:
        with ops.quiet():
            try:
                with ops.limit(60):
                    _call(env, op, ref, _given(sc, op, []))[0]()
            except (Exception, ops.Hang):
                return None
        return [(decode(os.path.join(ref, "out", n)), n) for n in files(env, op)]
    finally:
        disk.empty(ref)


def _dry(sc, op, root):
    env = W.build(sc["world"])
    disk.region()
    with ops.quiet():
        disk.arm(root)
        try:
            with ops.limit(60):
                _call(env, op, root, _given(sc, op, []))[0]()
            ok = True
        except (Exception, ops.Hang):
            ok = False
        disk.disarm()
        recs = disk.log()[0]
        inj = inject.Injector()
        inj.trail = []
        if ok:
            try:
                with ops.limit(60), inj:
                    _call(env, op, root, _given(sc, op, []))[0]()
            except (Exception, ops.Hang):
                pass
    disk.empty(os.path.join(root, "out"))
    os.makedirs(os.path.join(root, "out"), exist_ok=True)
    return ok, recs, inj.trail


# --------------------------------------------------------------------------- execution
def judge(sc):
    root = _fresh()
    r = core.forkcall(_run, sc, root, timeout=600)
    disk.empty(root)
    return hist.result(r["v"], r["n"], r["faults"], {"distinct": r["distinct"], "fault sites": r["sites"]}, r["sample"], r["log"])


def content(env):
    return {k: core.digest(core.canon(o)) for k, o in env.items()}


def _run(sc, root):
    disk.region()
    env = W.build(sc["world"])
    n = {"comparisons": 0, "operations": 0, "pictures compared": 0, "calls that raised": 0, "faults not reached": 0}
    faults, distinct, sites, log = {}, set(), set(), []
    res = {"v": None, "n": n, "faults": faults, "distinct": distinct, "sites": sites, "log": log, "sample": "; ".join(describe(o) for o in sc["ops"][:3])}
    with ops.quiet():
        figs = open_figs(sc["figs"])
        for f in figs:
            pixels(f)
        shots = [pixels(f) for f in figs]
    out_dir = os.path.join(root, "out")
    for i, op in enumerate(sc["ops"]):
        if op["on"] is not None and op["on"] not in env or any(k not in env for k in op.get("others", [])):
            continue
        ref = core.forkcall(reference, sc, op, root)
        for f in op["faults"]:
            with ops.quiet():
                given = _given(sc, op, figs)
                if figs:
                    plt.figure(figs[op["cur"] % len(figs)].number)
            if op["stale"]:
                for nm in files(env, op):
                    with open(os.path.join(out_dir, nm), "wb") as fh:
                        fh.write(b"stale picture" * 3)
            else:
                disk.empty(out_dir)
                os.makedirs(out_dir, exist_ok=True)
            was = plt.get_fignums()
            before = content(env)
            call, args = _call(env, op, root, given)
            argv = core.digest(core.canon(args))
            inj = None
            W.Callbacks.reset()
            if f and f["kind"] == "io":
                disk.arm(root, f["plan"])
            elif f:
                inj = inject.Injector(f["at"], inject.KINDS[f["kind"]])
            with ops.quiet():
                try:
                    with ops.limit(60):
                        if inj:
                            with inj:
                                call()
                        else:
                            call()
                    out = "returned"
                except ops.Hang:
                    out = "did not return"
                except (Exception, KeyboardInterrupt) as ex:
                    out = "raised " + type(ex).__name__
            fired = []
            if f and f["kind"] == "io":
                disk.disarm()
                fired = [disk.fault_name(x) for x in disk.log()[1]]
            elif inj and inj.fired:
                fired = [f["kind"]]
                sites.add(inj.where)
            for x in fired:
                faults[x] = faults.get(x, 0) + 1
            n["operations"] += 1
            n["comparisons"] += 1
            n["calls that raised"] += out != "returned"
            n["faults not reached"] += bool(f and not fired)
            log.append((op["kind"], out, fired))
            how = " with " + "; ".join(fired) + (" at " + inj.where if inj else "") if fired else ""
            where = "step %d, %s%s (%s): " % (i, describe(op), how, out)
            bad = None
            now = plt.get_fignums()
            lost = [x for x in was if x not in now]
            new = [x for x in now if x not in was]
            if lost:
                bad = "figure of the caller closed", "figure %s of the caller was closed" % lost
            elif new:
                bad = "figure left behind", "%d figure(s) left open" % len(new)
            elif content(env) != before:
                bad = "data changed", "the plotted data changed"
            elif core.digest(core.canon(args)) != argv:
                bad = "data changed", "the arrays given were changed"
            else:
                with ops.quiet():
                    for j, g in enumerate(figs):
                        if pixels(g) != shots[j]:
                            bad = "figure of the caller changed", "figure %d of the caller (%s) looks different" % (j, sc["figs"][j])
            if bad is None and out == "returned":
                if ref is None:
                    if not fired:
                        bad = "depends on history", "the same call raises in a pristine process"
                else:
                    for (st, px), nm in ref:
                        n["pictures compared"] += 1
                        got = decode(os.path.join(out_dir, nm))
                        if got[0] != "ok":
                            bad = "picture incomplete", "%s %s" % (nm, got[1])
                        elif st == "ok" and got[1] != px:
                            bad = "picture differs", "%s differs from that of a pristine process" % nm
            distinct.add(core.derive(op["kind"], sorted(op["kw"]), op["fmt"], op["give"], len(sc["figs"]), op["stale"], out, fired, inj.where if inj and inj.fired else None))
            if bad:
                res["v"] = {"cls": bad[0] + ": " + op["kind"].split()[-1], "what": where + bad[1], "sig": "%s|%s" % (bad[0], op["kind"])}
                return res
            if given is not None:
                plt.close(given)
    return res


def describe(op):
    a = ", ".join([repr(x) for x in op["args"]] + ["%s=%r" % kv for kv in op["kw"].items()])
    return "%s%s(%s) to %s%s" % (op["on"] + "." if op["on"] else "", op["op"], a, op["fmt"], " on a given figure" if op["give"] else "")


def shrinks(sc):
    for xs in hist.shrink_list(sc["ops"]):
        if xs:
            yield dict(sc, ops=xs)
    for i, op in enumerate(sc["ops"]):
        for fs in hist.shrink_list(op["faults"]):
            if fs:
                yield dict(sc, ops=sc["ops"][:i] + [dict(op, faults=fs)] + sc["ops"][i + 1 :])
        for k in list(op["kw"]):
            if k not in ("nb_frames", "type_plot", "unit", "y_min", "y_max"):
                yield dict(sc, ops=sc["ops"][:i] + [dict(op, kw={a: b for a, b in op["kw"].items() if a != k})] + sc["ops"][i + 1 :])
        if op["stale"]:
            yield dict(sc, ops=sc["ops"][:i] + [dict(op, stale=False)] + sc["ops"][i + 1 :])
    for xs in hist.shrink_list(sc["figs"]):
        yield dict(sc, figs=xs)
    for c in hist.shrink_world(sc):
        yield c
