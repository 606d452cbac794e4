"""Worlds: JSON specs of data objects, and their construction.

A world spec is {"ax": [axis specs], "obj": [object specs]}; objects refer to axes by
index, so that axes can be shared between objects as user code does. build(spec)
gives a dict of live objects: "a0".. (axes), "o0".. (objects). Building the same
spec twice gives twins: equal content, nothing shared.
"""
import math
import os

import numpy as np

from SciDataTool import (
    Data1D,
    DataDual,
    DataFreq,
    DataLinspace,
    DataND,
    DataPattern,
    DataTime,
    Norm_affine,
    Norm_func,
    Norm_indices,
    Norm_ref,
    Norm_vector,
    VectorField,
)

from . import core


# user callbacks (function normalizations): the scenario can make them fail
class Callbacks:
    fail_at = None  # call number at which the callback raises
    calls = 0
    exc = None

    @classmethod
    def reset(cls, fail_at=None, exc=None):
        cls.calls = 0
        cls.fail_at = fail_at
        cls.exc = exc

    @classmethod
    def hit(cls):
        cls.calls += 1
        if cls.fail_at is not None and cls.calls == cls.fail_at:
            raise (cls.exc or RuntimeError)("callback failure")


def user_scale(x):
    Callbacks.hit()
    return np.asarray(x) * 0.25


def user_square(x):
    Callbacks.hit()
    return np.asarray(x) ** 2 + 1


def user_shift(x):
    Callbacks.hit()
    return [v + 3 for v in x]


CALLBACKS = {"scale": user_scale, "square": user_square, "shift": user_shift}

# functions given as files: folder, name, text; they define helpers of equal names
FILES = {
    "gain": ("one", "gain", "K = 3.0\n\n\ndef helper(x):\n    return K * x\n\n\ndef gain(x):\n    return helper(x) + 1\n"),
    "gain2": ("two", "gain", "K = 0.5\n\n\ndef helper(x):\n    return x - K\n\n\ndef gain(x):\n    return 2 * helper(x)\n"),
    "turn": ("one", "turn", "import numpy as np\n\nK = 7.0\n\n\ndef helper(x):\n    return np.asarray(x) / K\n\n\ndef turn(x):\n    return helper(x)\n"),
}


def func_file(key):
    """Path of a function file, written on first use"""
    d, name, text = FILES[key]
    path = os.path.join(core.SCRATCH, "fn", d, name + ".py")
    if not os.path.isfile(path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path + ".new%d" % os.getpid(), "w") as f:
            f.write(text)
        os.replace(path + ".new%d" % os.getpid(), path)
    return path


# --------------------------------------------------------------------------- build
def build_norm(s):
    t = s["t"]
    u = s.get("unit", "SI")
    if t == "ref":
        return Norm_ref(ref=s["ref"], unit=u)
    if t == "affine":
        return Norm_affine(slope=s["slope"], offset=s["offset"], unit=u)
    if t == "vector":
        return Norm_vector(vector=np.array(s["vector"], dtype=float), unit=u)
    if t == "indices":
        return Norm_indices(unit=u)
    if t == "func":
        if "cb" in s:
            return Norm_func(function=CALLBACKS[s["cb"]], unit=u)
        if "file" in s:
            return Norm_func(function=func_file(s["file"]), unit=u)
        return Norm_func(function=s["expr"], unit=u)
    raise ValueError(t)


def build_axis(s):
    kw = dict(name=s["name"], unit=s["unit"])
    if s.get("symbol"):
        kw["symbol"] = s["symbol"]
    if s.get("sym"):
        kw["symmetries"] = dict(s["sym"])
    if s.get("norms"):
        kw["normalizations"] = {k: build_norm(n) for k, n in s["norms"].items()}
    if s.get("comp"):
        kw["is_components"] = True
    if s.get("overlay"):
        kw["is_overlay"] = True
    k = s["k"]
    if k == "lin":
        kw.update(
            initial=s["initial"],
            final=s["final"],
            number=s["number"],
            include_endpoint=s["endpoint"],
        )
        return DataLinspace(**kw)
    if k == "1d":
        v = s["values"]
        if v and isinstance(v[0], str):
            kw["values"] = list(v)
        else:
            kw["values"] = np.array(v, dtype=float)
        for f in ("delimiter", "char_to_rm"):
            if s.get(f):
                kw[f] = s[f]
        if s.get("sort_indices"):
            kw["sort_indices"] = list(s["sort_indices"])
        if s.get("filter"):
            kw["filter"] = {a: list(b) for a, b in s["filter"].items()}
        return Data1D(**kw)
    if k == "pat":
        kw.update(
            values=np.array(s["values"], dtype=float),
            rebuild_indices=list(s["rebuild"]),
            unique_indices=list(s["unique"]),
            is_step=s.get("is_step", True),
        )
        if s.get("whole"):
            kw["values_whole"] = np.array(s["whole"], dtype=float)
        return DataPattern(**kw)
    raise ValueError(k)


def axis_len(s):
    return s["number"] if s["k"] == "lin" else len(s["values"])


def make_values(v, shape):
    rs = np.random.RandomState(v["seed"] % (2**32))
    kind = v["kind"]
    if kind == "rand":
        out = rs.uniform(-3, 3, size=shape)
    elif kind == "pos":
        out = rs.uniform(0.1, 5, size=shape)
    elif kind == "int":
        out = rs.randint(-4, 5, size=shape).astype(float)
    elif kind == "small":
        out = rs.uniform(-1e-6, 1e-6, size=shape)
    elif kind == "zeros":
        out = rs.uniform(-2, 2, size=shape)
        out[rs.uniform(size=shape) < 0.5] = 0.0
    elif kind == "nan":
        out = rs.uniform(-2, 2, size=shape)
        out[rs.uniform(size=shape) < 0.15] = np.nan
    elif kind == "cplx":
        out = rs.uniform(-3, 3, size=shape) + 1j * rs.uniform(-3, 3, size=shape)
    elif kind == "sparse":
        out = np.zeros(shape)
        flat = out.reshape(-1)
        n = np.arange(shape[0])
        for _ in range(2):
            f = rs.randint(0, max(1, shape[0] // 2))
            w = np.cos(2 * np.pi * f * n / shape[0] + rs.uniform(0, 6))
            out += w.reshape((-1,) + (1,) * (len(shape) - 1)) * rs.uniform(0.5, 2)
    else:
        raise ValueError(kind)
    return out


DATA_CLASSES = {"DataTime": DataTime, "DataFreq": DataFreq, "DataND": DataND}


def build_obj(s, axes, axspecs, objs):
    k = s["k"]
    meta = dict(name=s["name"], symbol=s["symbol"])
    if k == "VectorField":
        return VectorField(components={c: objs["o%d" % i] for c, i in s["components"].items()}, **meta)
    meta["unit"] = s["unit"]
    if s.get("norms"):
        meta["normalizations"] = {a: build_norm(n) for a, n in s["norms"].items()}
    if "is_real" in s:
        meta["is_real"] = s["is_real"]
    if k == "DataDual":
        sh1 = tuple(axis_len(axspecs[i]) for i in s["axes_dt"])
        sh2 = tuple(axis_len(axspecs[i]) for i in s["axes_df"])
        return DataDual(
            axes_dt=[axes["a%d" % i] for i in s["axes_dt"]],
            values_dt=make_values(s["vals"], sh1),
            axes_df=[axes["a%d" % i] for i in s["axes_df"]],
            values_df=make_values(s["vals_df"], sh2),
            **meta
        )
    shape = tuple(axis_len(axspecs[i]) for i in s["axes"])
    return DATA_CLASSES[k](axes=[axes["a%d" % i] for i in s["axes"]], values=make_values(s["vals"], shape), **meta)


def build(world):
    axes = {"a%d" % i: build_axis(s) for i, s in enumerate(world["ax"]) if s}
    objs = {}
    for i, s in enumerate(world["obj"]):
        if s is None:
            continue
        objs["o%d" % i] = build_obj(s, axes, world["ax"], objs)
    env = dict(axes)
    env.update(objs)
    return env


# --------------------------------------------------------------------------- generate
def r6(x):
    return float("%.6g" % x)


def gen_norms(rng, name, n, n_full):
    out = {}
    if name == "time":
        if rng.random() < 0.5:
            out["elec_order"] = {"t": "ref", "ref": rng.choice([50, 100.0, 25]), "unit": "Hz"}
        if rng.random() < 0.45:
            kind = rng.choice(["affine", "vector", "vector", "func", "cb", "file"])
            if kind == "affine":
                out["angle_rotor"] = {"t": "affine", "slope": rng.choice([2.0, 60]), "offset": rng.choice([0, 1.5])}
            elif kind == "vector":
                out["angle_rotor"] = {"t": "vector", "vector": [r6(3.0 * i + 0.01 * i * i) for i in range(n)], "unit": rng.choice(["SI", "s"])}
            elif kind == "func":
                out["angle_rotor"] = {"t": "func", "expr": "lambda x: x / 2"}
            elif kind == "file":
                out["angle_rotor"] = {"t": "func", "file": rng.choice(sorted(FILES))}
            else:
                out["angle_rotor"] = {"t": "func", "cb": rng.choice(["scale", "square"])}
        if rng.random() < 0.2:
            out["bad"] = {"t": "ref", "ref": 3, "unit": "kg"}
    elif name == "angle":
        if rng.random() < 0.4:
            out["distance"] = {"t": "ref", "ref": rng.choice([0.1, 0.5]), "unit": "rad"}
        if rng.random() < 0.4:
            out["space_order"] = {"t": "ref", "ref": rng.choice([2, 3]), "unit": rng.choice(["SI", "dimless", ""])}
        if rng.random() < 0.3:
            out["tooth_id"] = {"t": "indices"}
        if rng.random() < 0.3:
            out["vec"] = {"t": "vector", "vector": [r6(10.0 - 0.5 * i) for i in range(n)]}
    elif name in ("z", "speed", "x"):
        if rng.random() < 0.3:
            out["x L"] = {"t": "ref", "ref": 0.4, "unit": "SI"}
        if rng.random() < 0.2:
            out["fn"] = {"t": "func", "cb": rng.choice(["scale", "square", "shift"])} if rng.random() < 0.5 else {"t": "func", "file": rng.choice(sorted(FILES))}
    elif name == "freqs":
        if rng.random() < 0.6:
            out["elec_order"] = {"t": "ref", "ref": rng.choice([50, 100.0]), "unit": "Hz"}
        if rng.random() < 0.25:
            out["mech_order"] = {"t": "affine", "slope": 0.1, "offset": 0, "unit": "Hz"}
        if rng.random() < 0.2:
            out["speed"] = {"t": "vector", "vector": [r6(100.0 + 7 * i) for i in range(n)]}
    elif name == "wavenumber":
        if rng.random() < 0.5:
            out["space_order"] = {"t": "ref", "ref": 2}
    return out


def gen_axis(rng, name, small=False):
    if name == "time":
        n = rng.choice([4, 6, 8] if small else [6, 8, 9, 12, 16])
        sym = rng.choice([{}, {}, {"period": 2}, {"period": 3}, {"antiperiod": 2}, {"antiperiod": 4}, {"antiperiod": 4}])
        per = max(sym.values()) if sym else 1
        tf = rng.choice([0.02, 0.01, 1.0])
        s = {"k": "lin", "name": name, "unit": "s", "initial": 0, "final": tf / per, "number": n, "endpoint": False, "sym": sym}
        if rng.random() < 0.4:
            step = s["final"] / n
            s = {"k": "1d", "name": name, "unit": "s", "values": [r6(i * step) for i in range(n)], "sym": sym}
            if sym and "period" in sym and rng.random() < 0.08:  # one sample per period
                s["values"] = [0.0]
                s["sym"] = dict(sym, delta=r6(step))
                n = 1
            if rng.random() < 0.1:
                s["sort_indices"] = rng.sample(range(n), n)
            if not sym and rng.random() < 0.15:  # non uniform
                s["values"] = [r6(v + 0.2 * step * ((i * 7) % 3) / 3) for i, v in enumerate(s["values"])]
        s["norms"] = gen_norms(rng, name, n, n * per)
        return s
    if name == "angle":
        n = rng.choice([4, 6, 8] if small else [6, 8, 10, 12, 16])
        sym = rng.choice([{}, {}, {"period": 2}, {"period": 4}, {"antiperiod": 2}, {"antiperiod": 4}])
        per = max(sym.values()) if sym else 1
        s = {"k": "lin", "name": name, "unit": "rad", "initial": 0, "final": 2 * math.pi / per, "number": n, "endpoint": False, "sym": sym}
        if rng.random() < 0.4:
            step = s["final"] / n
            s = {"k": "1d", "name": name, "unit": "rad", "values": [i * step for i in range(n)], "sym": sym}
        s["norms"] = gen_norms(rng, name, n, n * per)
        return s
    if name in ("z", "x"):
        kind = rng.choice(["pat", "lin", "1d"]) if name == "z" else rng.choice(["lin", "1d"])
        if kind == "pat":
            u = rng.choice([1, 2, 3])
            reb = [rng.randrange(u) for _ in range(u + rng.choice([1, 2]))]
            uniq = []
            for i in range(u):
                if i not in reb:
                    reb[i % len(reb)] = i
            for i in range(u):
                if i in reb:
                    uniq.append(reb.index(i))
            u = len(uniq)
            if sorted(set(reb)) != list(range(u)):
                reb, uniq, u = [0, 1, 1, 0], [0, 1], 2
            s = {"k": "pat", "name": name, "unit": "m", "values": [r6(-1 + 0.7 * i) for i in range(u)], "rebuild": reb, "unique": uniq, "is_step": rng.choice([True, False])}
            if rng.random() < 0.5:
                s["whole"] = [r6(-1 + 0.4 * i) for i in range(len(reb))]
            return s
        n = rng.choice([2, 3, 4])
        if kind == "lin":
            s = {"k": "lin", "name": name, "unit": "m", "initial": -1, "final": 1, "number": n, "endpoint": True, "sym": {}}
        else:
            s = {"k": "1d", "name": name, "unit": "m", "values": [r6(0.3 * i * i - 0.5) for i in range(n)], "sym": {}}
        s["norms"] = gen_norms(rng, name, n, n)
        return s
    if name == "phase":
        n = rng.choice([2, 3])
        return {"k": "1d", "name": "phase", "unit": "", "values": ["A", "B", "C"][:n], "comp": True, "sym": {}, "overlay": rng.random() < 0.3}
    if name == "loadcases":
        vals = ["r=0, radial, stator", "r=2, radial, stator", "r=0, circ, rotor", "r=2, circ, rotor"]
        s = {"k": "1d", "name": "loadcases", "unit": "", "values": vals, "comp": True, "sym": {}, "delimiter": ", ",
             "filter": {"wavenumber": ["r=0", "r=2"], "direction": ["radial", "circ"], "application": ["stator", "rotor"]},
             "sort_indices": rng.sample(range(4), 4)}
        return s
    if name == "speed":
        n = rng.choice([2, 3])
        return {"k": "1d", "name": "speed", "unit": "rpm", "values": [r6(1000.0 * (i + 1)) for i in range(n)], "sym": {}, "norms": gen_norms(rng, name, n, n)}
    if name == "order":
        n = rng.choice([2, 3])
        s = {"k": "1d", "name": "order", "unit": "", "values": ["H%d;r=%d" % (12 * (i + 1), i) for i in range(n)], "comp": True, "sym": {}}
        if rng.random() < 0.4:
            s["sort_indices"] = rng.sample(range(n), n)
        return s
    if name == "frequency":
        n = rng.choice([4, 6])
        return {"k": "1d", "name": "frequency", "unit": "Hz", "values": [r6(63.0 * 2**i) for i in range(n)], "sym": {}, "norms": {}}
    if name == "freqs":
        n = rng.choice([4, 5, 7, 9])
        step = rng.choice([50.0, 100.0, 12.5])
        sym = rng.choice([{}, {}, {}, {"period": 2}, {"antiperiod": 4}])
        s = {"k": "1d", "name": "freqs", "unit": "Hz", "values": [r6(i * step) for i in range(n)], "sym": sym}
        if rng.random() < 0.2:  # sparse / unsorted gap
            s["values"] = [r6(v + (step if i > 1 else 0)) for i, v in enumerate(s["values"])]
        elif rng.random() < 0.3:
            s = {"k": "lin", "name": "freqs", "unit": "Hz", "initial": 0, "final": step * (n - 1), "number": n, "endpoint": True, "sym": sym}
        s["norms"] = gen_norms(rng, name, n, n)
        return s
    if name == "wavenumber":
        h = rng.choice([2, 3, 4])
        vals = list(range(-h, h))
        sym = rng.choice([{}, {}, {"period": 2}])
        s = {"k": "1d", "name": "wavenumber", "unit": "dimless", "values": [float(v) for v in vals], "sym": sym}
        s["norms"] = gen_norms(rng, name, len(vals), len(vals))
        return s
    raise ValueError(name)


UNITS = ["T", "T", "m", "Pa", "W", "N", "A", "m/s", "A/m"]


def gen_data_norms(rng, unit):
    out = {}
    r = rng.random()
    if r < 0.65:
        out["ref"] = {"t": "ref", "ref": rng.choice([2e-5, 1e-12, 0.8])}
    if rng.random() < 0.1:
        out["other"] = {"t": "affine", "slope": 2, "offset": 1}
    return out


def gen_obj(rng, ax, kind=None, small=False, units=UNITS):
    """Append axes to ax and return an object spec"""
    kind = kind or rng.choice(["DataTime"] * 6 + ["DataFreq"] * 4 + ["DataND"] * 2 + ["DataDual"] * 2)
    unit = rng.choice(units)
    base = {
        "k": kind,
        "name": rng.choice(["Airgap flux density", "field", "Acoustic pressure", "x"]),
        "symbol": rng.choice(["X", "B_r", "p"]),
        "unit": unit,
        "norms": gen_data_norms(rng, unit),
    }

    def use(name):
        ax.append(gen_axis(rng, name, small))
        return len(ax) - 1

    extra = rng.choice([[], [], ["z"], ["phase"], ["speed"], ["loadcases"], ["z", "phase"]])
    if kind == "DataTime":
        main = rng.choice([["time"], ["time", "angle"], ["time", "angle"], ["angle", "time"]])
        names = main + (extra if len(main) + len(extra) <= 3 else extra[:1])
        if rng.random() < 0.12:
            names = names[::-1]
        base["axes"] = [use(n) for n in names]
        base["vals"] = {"seed": rng.randrange(10**6), "kind": rng.choice(["rand", "rand", "int", "pos", "zeros", "small", "sparse", "nan"])}
    elif kind == "DataFreq":
        main = rng.choice([["freqs"], ["freqs"], ["freqs"], ["freqs", "wavenumber"], ["freqs", "angle"]])
        names = main + (extra[:1] if rng.random() < 0.6 else [])
        base["axes"] = [use(n) for n in names]
        base["vals"] = {"seed": rng.randrange(10**6), "kind": rng.choice(["cplx", "cplx", "cplx", "rand", "pos"])}
        if rng.random() < 0.15:
            base["is_real"] = False
    elif kind == "DataND":
        names = rng.choice([["x"], ["x", "z"], ["angle", "z"], ["speed", "x"], ["speed", "loadcases"], ["angle"], ["z", "phase"], ["speed", "order"], ["speed", "order", "x"], ["frequency"]])
        base["axes"] = [use(n) for n in names]
        if names[:2] == ["speed", "order"] and rng.random() < 0.4:
            ns, no = axis_len(ax[base["axes"][0]]), axis_len(ax[base["axes"][1]])
            base["norms"]["A-weight"] = {"t": "vector", "vector": [[r6(-0.5 * i - 2 * j) for j in range(no)] for i in range(ns)]}
        base["vals"] = {"seed": rng.randrange(10**6), "kind": rng.choice(["rand", "int", "pos", "nan"])}
    elif kind == "DataDual":
        two = rng.random() < 0.5
        ex = rng.choice([[], [], ["z"], ["phase"]])
        dt = ["time"] + (["angle"] if two else []) + ex[:1]
        df = ["freqs"] + (["wavenumber"] if two else []) + ex[:1]
        base["axes_dt"] = [use(n) for n in dt]
        base["axes_df"] = []
        for n in df:
            if n in ("z", "phase"):
                base["axes_df"].append(base["axes_dt"][-1] if rng.random() < 0.5 else _clone(ax, base["axes_dt"][-1]))
            else:
                base["axes_df"].append(use(n))
        base["vals"] = {"seed": rng.randrange(10**6), "kind": rng.choice(["rand", "pos", "int"])}
        base["vals_df"] = {"seed": rng.randrange(10**6), "kind": "cplx"}
    return base


def _clone(ax, i):
    import copy

    ax.append(copy.deepcopy(ax[i]))
    return len(ax) - 1


def gen_vf(rng, ax, objs, small=False, units=UNITS):
    """Append component objects (sharing or not their axes) and return a vector field spec"""
    freq = rng.random() < 0.3
    if freq:
        names = rng.choice([["freqs"], ["freqs", "wavenumber"], ["freqs", "angle"]])
    else:
        names = rng.choice([["time", "angle"], ["time", "angle"], ["angle"], ["time", "angle", "z"], ["time"]])
    comps = rng.choice(
        [["radial", "tangential"]] * 4 + [["radial", "tangential", "axial"]] * 3 + [["comp_x", "comp_y"]] * 2 + [["comp_x", "comp_y", "comp_z"]] + [["radial"], ["tangential", "axial"]]
    )
    shared = []
    for n in names:
        ax.append(gen_axis(rng, n, small))
        shared.append(len(ax) - 1)
    cdict = {}
    unit = rng.choice(units)
    for i, c in enumerate(comps):
        idx = shared
        if rng.random() < 0.4:
            idx = [_clone(ax, j) for j in shared]
        kind = "DataFreq" if freq else ("DataND" if names == ["angle"] and rng.random() < 0.5 else "DataTime")
        objs.append({
            "k": kind,
            "name": c + " field",
            "symbol": "X_" + c[0] if rng.random() < 0.7 else "X",
            "unit": unit,
            "norms": gen_data_norms(rng, unit),
            "axes": list(idx),
            "vals": {"seed": rng.randrange(10**6), "kind": "cplx" if freq else rng.choice(["rand", "pos", "int"])},
        })
        cdict[c] = len(objs) - 1
    return {"k": "VectorField", "name": "vector field", "symbol": "V", "components": cdict}


DEFAULT_BIAS = {"axis_data": 0.09, "norm": 0.3, "axis_unit": 0.18, "unit": 0.07}
BIAS = dict(DEFAULT_BIAS)


def gen_world(rng, kinds=None, n=None, small=False):
    """kinds: list of object kinds wanted; default random. Each world also draws what its requests dwell on."""
    BIAS.update(DEFAULT_BIAS)
    if rng.random() < 0.4:
        BIAS.update({rng.choice(sorted(DEFAULT_BIAS)): 0.6})
    units = [rng.choice(UNITS)] * 9 if BIAS["unit"] > 0.5 else UNITS
    ax, objs = [], []
    if kinds is None:
        n = n or rng.choice([1, 1, 2])
        kinds = [rng.choice(["DataTime"] * 5 + ["DataFreq"] * 3 + ["DataND"] * 2 + ["DataDual"] * 2 + ["VectorField"] * 4) for _ in range(n)]
    for k in kinds:
        if k == "VectorField":
            objs.append(gen_vf(rng, ax, objs, small, units))
        else:
            objs.append(gen_obj(rng, ax, k, small, units))
    # a second data object over the same axes (comparison, shared axes)
    if rng.random() < 0.35:
        cands = [o for o in objs if o["k"] in ("DataTime", "DataFreq", "DataND")]
        if cands:
            import copy

            o = copy.deepcopy(rng.choice(cands))
            o["vals"]["seed"] = rng.randrange(10**6)
            if rng.random() < 0.4:
                o["axes"] = [_clone(ax, j) for j in o["axes"]]
            objs.append(o)
    return {"ax": ax, "obj": objs}
