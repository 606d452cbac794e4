"""Operations on a world: generation of requests, execution, canonical outcomes."""
import copy
import inspect
import io
import os
import re
import signal
import threading
import warnings
import contextlib

import numpy as np

from . import core, world as W
from SciDataTool import Data1D, DataDual, DataFreq, DataLinspace, DataND, DataPattern, DataTime, VectorField

FFT = {"time": "freqs", "angle": "wavenumber"}
IFFT = {"freqs": "time", "wavenumber": "angle"}

UNIT_CHOICES = {"T": ["G", "mT", "µT"], "m": ["mm", "km"], "Pa": ["kPa"], "W": ["mW"], "N": ["kN"], "A": ["mA"], "m/s": ["m/min", "m/h", "km/h", "km/min", "mm/s"], "A/m": ["kA/m", "A/mm", "kA/mm"]}
AX_UNITS = {"time": ["ms"], "angle": ["°"], "freqs": ["kHz"], "z": ["mm"], "x": ["mm"], "speed": ["rad/s"], "wavenumber": []}
OPERATIONS = ["sum", "mean", "rms", "rss", "max", "min", "integrate", "integrate_local", "derivate", "antiderivate"]


def g(x):
    return "%.6g" % x


def axes_of(obj):
    """(name, values, symmetries, normalization names, kind, is_components) of each axis"""
    out = []
    if isinstance(obj, VectorField):
        comps = list(obj.components.values())
        if not comps:
            return out
        obj = comps[0]
    axes = obj.axes_dt if isinstance(obj, DataDual) and obj.axes is None else obj.axes
    for a in axes or []:
        out.append(a)
    return out


def gen_sel(rng, name, vals, comp, axis, sym, extra_ok=True):
    """Selection suffix for an axis of which vals are the (approximate) values"""
    n = len(vals)
    r = rng.random()
    if comp:
        return rng.choice(["", "", "[0]", "[%d]" % (n - 1), "[0,%d]" % (n - 1), "[]", "=sum", "=rss", "=mean", "[%dlargest]" % rng.choice([1, 2])])
    if isinstance(axis, DataPattern):
        return rng.choice(["", "", "[pattern]", "[0]", "[%d]" % (n - 1), "[0,1]", "=sum", "=mean", "=integrate", "=max", "[smallestperiod]", "=%s" % g(vals[0])])
    if r < 0.26:
        return ""
    if r < 0.38:
        return rng.choice(["[smallestperiod]", "[oneperiod]"] + (["[antiperiod]"] if "antiperiod" in sym else []))
    if r < 0.5:
        i = rng.randrange(n)
        j = min(n, i + rng.choice([1, 2, 4]))
        return rng.choice(["[%d]" % i, "[%d:%d]" % (i, j), "[%d,%d]" % (i, (i + 2) % n), "[0:%d]" % n, "[]", "[%dlargest]" % rng.choice([1, 2, 3])])
    lo, hi = float(vals[0]), float(vals[-1])
    mid = lo + (hi - lo) * rng.choice([0.5, 0.37, 0.25])
    if r < 0.72:
        return rng.choice([
            "=%s" % g(vals[rng.randrange(n)]), "=%s" % g(mid), "=[%s,%s]" % (g(lo), g(mid)), "=[%s,%s]" % (g(lo), g(hi)),
            "=[%s,%s,%s]" % (g(lo), g(mid), g(hi)), ">%s" % g(mid), "<%s" % g(mid), "=[%s,%s]" % (g(mid), g(hi)),
        ])
    if r < 0.92:
        return "=" + rng.choice(OPERATIONS if name in ("time", "angle", "z") else OPERATIONS[:6] + (["derivate"] if name == "freqs" else []))
    if extra_ok and name in ("freqs",):
        return rng.choice(["", ">0", "->1/3oct", "->1/1oct", "->elec_order"])
    return rng.choice(["", "", "", "", "", "", "[99]", "=1e9"])


def gen_request(rng, axis, axis_data, force=None):
    """One request string for an axis; may fill axis_data"""
    name = axis.name
    sym = axis.symmetries or {}
    norms = list((axis.normalizations or {}).keys())
    try:
        vals = np.asarray(axis.get_values(is_smallestperiod=True))
    except Exception:
        vals = np.array([0.0, 1.0])
    comp = bool(axis.is_components) or vals.dtype.kind in "OU"
    # transform ?
    other = FFT.get(name) or IFFT.get(name)
    if force == "fft" and name in FFT or force == "ifft" and name in IFFT:
        do = True
    elif force is not None:
        do = False
    else:
        do = other is not None and rng.random() < 0.4
    if do and other:
        tname = other
        n = len(vals)
        try:
            if tname == "freqs":
                step = 1.0 / (max(n, 1) * (float(vals[1]) - float(vals[0])))
                tv = np.arange(n // 2 + 1) * step
            elif tname == "wavenumber":
                tv = np.arange(n) - n // 2
            elif tname == "time":
                df = float(vals[1] - vals[0])
                tv = np.linspace(0, 1 / df, 2 * (n - 1), endpoint=False)
            else:
                tv = np.linspace(0, 2 * np.pi, n, endpoint=False)
        except Exception:
            tv = np.array([0.0, 1.0])
        vals, name, axis2 = tv, tname, None
    else:
        axis2 = axis
    if not comp and rng.random() < W.BIAS["axis_data"] and name != "loadcases":
        lo, hi = float(vals[0]), float(vals[-1])
        k = rng.choice([3, 5])
        r = rng.random()
        if r < 0.35:
            axis_data[name] = [W.r6(lo + (hi - lo) * (0.8 * i / k + 0.05)) for i in range(k)]
        elif r < 0.45:  # beyond the axis
            axis_data[name] = [W.r6(lo + (hi - lo) * (2.5 * i / k)) for i in range(k)]
        elif r < 0.52:
            axis_data[name] = [W.r6(rng.choice(list(vals)))]
        else:
            axis_data[name] = [W.r6(v) for v in vals[: max(2, len(vals) // 2)]]
        if rng.random() < 0.3:
            rng.shuffle(axis_data[name])
        return name + "=axis_data"
    sel = gen_sel(rng, name, vals, comp, axis2, sym)
    if name in ("freqs", "wavenumber"):
        norms = [n for n in norms if n in ("elec_order", "mech_order", "space_order", "speed")]
    else:
        norms = [n for n in norms if n not in ("elec_order", "space_order") or rng.random() < 0.05]
    norms = [n for n in norms if n != "bad" or rng.random() < 0.3]
    if sel[:1] in ("<", ">") and rng.random() < 0.8:
        norms = []
    if norms and rng.random() < W.BIAS["norm"] and "oct" not in sel and "->" not in sel:
        nm = rng.choice(norms)
        if sel.startswith("=") and not sel[1:2].isalpha():
            sel = rng.choice(["", "=[0,2]", "=1"])
        return name + "->" + nm + sel
    us = AX_UNITS.get(name, [])
    if us and rng.random() < W.BIAS["axis_unit"] and "->" not in sel:
        if sel.startswith("=") and not sel[1:2].isalpha() or sel[:1] in "<>":
            sel = ""
        return name + sel + "{" + rng.choice(us) + "}"
    return name + sel


def gen_args(rng, obj, force=None, full=None):
    """Request strings for an object"""
    axes = axes_of(obj)
    axis_data = {}
    args = []
    full = rng.random() < 0.8 if full is None else full
    for a in axes:
        if not full and args and rng.random() < 0.5:
            continue
        try:
            args.append(gen_request(rng, a, axis_data, force))
        except Exception:
            args.append(a.name)
    if rng.random() < 0.1:
        rng.shuffle(args)
    if rng.random() < 0.015:
        args.append(rng.choice(["nosuchaxis", "time=[", "angle[x]"]))
    return args, axis_data


def gen_kw(rng, obj, axis_data, db=False):
    kw = {}
    if axis_data:
        kw["axis_data"] = {k: {"__nd__": v} if rng.random() < 0.9 else list(v) for k, v in axis_data.items()}
    u = getattr(obj, "unit", None)
    r = rng.random()
    if u is not None:
        if r < 0.03 + W.BIAS["unit"]:
            kw["unit"] = rng.choice(UNIT_CHOICES.get(u, ["mT"]) * 3 + ["kg"])
        elif db and r < 0.35:
            kw["unit"] = rng.choice(["dB", "dB", "dBA"])
        elif r < 0.13:
            kw["unit"] = rng.choice(["dB", "dBA"])
    if rng.random() < 0.07:
        kw["is_norm"] = True
    return kw


# --------------------------------------------------------------------------- generators per operation
def _is_data(o):
    return isinstance(o, DataND)


def gen_get_along(rng, env, on):
    args, ad = gen_args(rng, env[on])
    kw = gen_kw(rng, env[on], ad)
    if rng.random() < 0.05:
        kw["is_squeeze"] = False
    if rng.random() < 0.06:
        kw["is_magnitude"] = True
        if rng.random() < 0.5:
            kw["unit"] = "dB"
    return dict(args=args, kw=kw)


def gen_data_along(rng, env, on):
    args, ad = gen_args(rng, env[on], full=True)
    return dict(args=args, kw=gen_kw(rng, env[on], ad))


def gen_mag(rng, env, on):
    args, ad = gen_args(rng, env[on], force="fft" if rng.random() < 0.6 else None)
    return dict(args=args, kw=gen_kw(rng, env[on], ad, db=True))


def gen_phase(rng, env, on):
    args, ad = gen_args(rng, env[on], force="fft" if rng.random() < 0.6 else None)
    kw = gen_kw(rng, env[on], ad)
    kw.pop("is_norm", None)
    if kw.get("unit", "").startswith("dB"):
        kw.pop("unit")
    if rng.random() < 0.1:
        kw["unit"] = rng.choice(["rad", "°"])
    return dict(args=args, kw=kw)


def gen_harm(rng, env, on):
    args = []
    for a in axes_of(env[on]):
        if a.name in ("time", "freqs"):
            args.append("freqs")
        elif a.name in ("angle", "wavenumber"):
            args.append(rng.choice(["wavenumber", "angle[0]"]))
        else:
            args.append(a.name + "[0]")
    return dict(args=args, kw={}, n=rng.choice([1, 2, 3]))


def gen_compare(rng, env, on):
    others = [k for k, o in env.items() if _is_data(o) and k != on] or [on]
    same = [k for k in others if [a.name for a in axes_of(env[k])] == [a.name for a in axes_of(env[on])]]
    args, ad = gen_args(rng, env[on])
    return dict(args=args, kw=gen_kw(rng, env[on], None), other=rng.choice(same or others))


def gen_vf_args(rng, env, on):
    args, ad = gen_args(rng, env[on])
    kw = {}
    if ad:
        kw["axis_data"] = {k: {"__nd__": v} for k, v in ad.items()}
    if rng.random() < 0.1:
        kw["unit"] = "SI"
    if rng.random() < 0.05:
        kw["is_norm"] = True
    return dict(args=args, kw=kw)


def gen_vf_freq(rng, env, on):
    args, ad = gen_args(rng, env[on], force="fft" if rng.random() < 0.7 else None)
    kw = {}
    if ad:
        kw["axis_data"] = {k: {"__nd__": v} for k, v in ad.items()}
    return dict(args=args, kw=kw)


def gen_vf_harm(rng, env, on):
    d = gen_harm(rng, env, on)
    return d


def gen_none(rng, env, on):
    return dict(args=[], kw={})


def gen_change_ref(rng, env, on):
    kw = {"is_waveform": rng.random() < 0.4}
    if rng.random() < 0.3:
        kw["sym_t_new"] = rng.choice([{"period": 2}, {}])
    if rng.random() < 0.2:
        kw["atol"] = 1e-9
    return dict(args=[rng.choice([60, -60, 120])], kw=kw)


def gen_filter(rng, env, on):
    ax = axes_of(env[on])
    fs = [0.0, 50.0]
    for a in ax:
        if a.name in ("time", "freqs"):
            try:
                v = np.asarray(a.get_values(is_smallestperiod=True))
                if a.name == "time":
                    fs = [0.0, W.r6(1.0 / (len(v) * (v[1] - v[0]))), W.r6(2.3 / (len(v) * (v[1] - v[0])))]
                else:
                    fs = [W.r6(x) for x in v[:3]]
            except Exception:
                pass
    kw = {}
    if rng.random() < 0.2 and isinstance(env[on], VectorField) is False:
        kw["is_return_calc_data"] = True
    if rng.random() < 0.3:
        fs = fs[1:]
    return dict(args=[{"__nd__": fs}], kw=kw)


def gen_export(rng, env, on):
    o = env[on]
    two = rng.random() < 0.5
    if two:
        axes = axes_of(o)
        args = []
        ad = {}
        for i, a in enumerate(axes):
            if i == 0:
                args.append(rng.choice([a.name, FFT.get(a.name, a.name), a.name + "[smallestperiod]" if not a.is_components else a.name]))
            else:
                args.append(a.name + rng.choice(["[0]", "[0]", "[]", "=sum", "[0,1]"]))
        kw = {}
    else:
        args, ad = gen_args(rng, o, full=True)
        if rng.random() < 0.2:
            args = []
        kw = {}
    kw["is_2D"] = two
    if rng.random() < 0.5:
        kw["is_multiple_files"] = True
    if rng.random() < 0.25:
        kw["unit"] = rng.choice(["dB", "SI"] + UNIT_CHOICES.get(getattr(o, "unit", "T"), []))
    if ad:
        kw["plot_options"] = {"axis_data": {k: {"__nd__": v} for k, v in ad.items()}}
    return dict(args=args, kw=kw, file=rng.choice(["exp", "other"]))


def gen_plot2d(rng, env, on):
    axes = axes_of(env[on])
    args = []
    for i, a in enumerate(axes):
        if i == 0:
            n = a.name
            if n in FFT and rng.random() < 0.4:
                n = FFT[n]
                args.append(rng.choice([n, n + "=[0,1000]", n]))
            elif n in ("freqs", "wavenumber"):
                args.append(rng.choice([n, n, IFFT[n]]))
            else:
                args.append(n + rng.choice(["", "[smallestperiod]", "[oneperiod]"] if not (a.is_components or isinstance(a, DataPattern)) else [""]))
        else:
            args.append(a.name + rng.choice(["[0]", "[0]", "[0,1]", "[]", "=sum"]))
    kw = {}
    if rng.random() < 0.3 and isinstance(env[on], DataND):
        kw["unit"] = rng.choice(["dB", "dBA", "SI"])
    if rng.random() < 0.2:
        kw["type_plot"] = rng.choice(["curve", "bargraph", "point"])
    if rng.random() < 0.1:
        kw["is_norm"] = True
    d = dict(args=args, kw=kw)
    if rng.random() < 0.3 and isinstance(env[on], DataND):
        others = [k for k, o in env.items() if _is_data(o) and k != on and [a.name for a in axes_of(o)] == [a.name for a in axes]]
        if others:
            d["others"] = [rng.choice(others)]
    if rng.random() < 0.1 and len(args) == 1 and isinstance(env[on], DataND):
        kw["overall_axes"] = [args[0].split("=")[0].split("[")[0]]
    if isinstance(env[on], DataND):
        if rng.random() < 0.2:
            kw["annotations"] = [rng.choice(axes).name, "orders", rng.choice(["max", "max", "sum"])]
        if rng.random() < 0.15:
            kw["is_auto_ticks"] = True
        if rng.random() < 0.15:
            kw["is_auto_range"] = rng.random() < 0.5
        if rng.random() < 0.15:
            kw["thresh"] = 0.1
        if rng.random() < 0.1:
            kw["legend_list"] = ["a", "b", "c"]
        if rng.random() < 0.1:
            kw["y_min"], kw["y_max"] = -1.0, 2.0
    return d


def gen_plot3d(rng, env, on):
    axes = axes_of(env[on])
    args = []
    for i, a in enumerate(axes):
        n = a.name
        if i < 2:
            if n in FFT and rng.random() < 0.35:
                n = FFT[n]
            args.append(n + (rng.choice(["", "[smallestperiod]"]) if n == a.name and not (a.is_components or isinstance(a, DataPattern)) else ""))
        else:
            args.append(n + "[0]")
    kw = {}
    if rng.random() < 0.6:
        kw["is_2D_view"] = True
    if rng.random() < 0.4:
        kw["z_max"] = rng.choice([1.0, 0.5])
        kw["z_min"] = rng.choice([-0.5, 0.0])
    if rng.random() < 0.2 and isinstance(env[on], DataND):
        kw["unit"] = rng.choice(["dB", "SI"])
    if rng.random() < 0.2:
        kw["is_switch_axes"] = True
    return dict(args=args, kw=kw)


STYLES = {
    "is_logscale_x": (0.08, [True]),
    "is_logscale_y": (0.12, [True]),
    "is_logscale_z": (0.1, [True]),
    "is_disp_title": (0.1, [False]),
    "is_grid": (0.1, [False, True]),
    "is_auto_ticks": (0.05, [False]),
    "is_auto_range": (0.05, [False]),
    "is_show_legend": (0.1, [False]),
    "is_outside_legend": (0.2, [True]),
    "is_frame_legend": (0.2, [False, True]),
    "is_indlabels": (0.05, [True]),
    "font_name": (0.1, ["DejaVu Sans", "serif"]),
    "font_size_title": (0.05, [20]),
    "font_size_label": (0.05, [5]),
    "font_size_legend": (0.05, [14]),
    "legend_list": (0.15, [["a", "b", "c"], ["only"]]),
    "color_list": (0.15, [["r", "g"], ["k"], ["b", "c", "m", "y", "k", "r", "g"]]),
    "linestyles": (0.1, [["dashed"], ["solid", "dotted"]]),
    "linestyle_list": (0.1, [["dashed"], ["solid", "dotted"]]),
    "linewidth_list": (0.1, [[3], [1, 2]]),
    "title": (0.05, ["A title"]),
    "xlabel": (0.05, ["abscissa"]),
    "ylabel": (0.05, ["ordinate"]),
    "zlabel": (0.05, ["height"]),
    "x_min": (0.05, [0.5]),
    "x_max": (0.05, [3]),
    "y_min": (0.05, [0.1]),
    "y_max": (0.05, [2]),
    "barwidth": (0.05, [10]),
    "fund_harm_dict": (0.05, [{"freqs": 1.0, "wavenumber": 1.0, "time": 1.0, "angle": 1.0}]),
    "fund_harm": (0.1, [1.0]),
    "thresh": (0.05, [0.5]),
    "colormap": (0.15, ["viridis", "gray"]),
    "is_contour": (0.1, [True]),
    "is_shading_flat": (0.1, [True, False]),
    "gamma": (0.1, [0.5]),
    "n_ticks": (0.05, [3]),
    "levels": (0.05, [[0.2, 0.5]]),
    "z_range": (0.05, [0.5]),
    "N_stem": (0.05, [3]),
    "is_same_size": (0.1, [True, False]),
    "marker_color": (0.1, ["r"]),
    "is_hide_annotation": (0.05, [True]),
    "grid_xlw": (0.03, [1]),
    "phase": (0.05, [1]),
    "symbol": (0.05, ["+"]),
    "is_filter_x": (0.05, [False]),
    "is_filter_y": (0.05, [False]),
}


def gen_style(rng, fn, kw):
    """Options of the presentation that the plot function fn takes, added to kw"""
    names = inspect.signature(fn).parameters
    for k, (p, vals) in STYLES.items():
        if rng.random() < p and k in names and k not in kw:
            kw[k] = copy.deepcopy(rng.choice(vals))


def gen_conv(rng, env, on):
    others = [k for k, o in env.items() if type(o).__name__ == "DataFreq"] or [on]
    return dict(args=[], kw={}, other=rng.choice(others))


def gen_dual(rng, env, on):
    want = "DataFreq" if type(env[on]).__name__ == "DataTime" else "DataTime"
    others = [k for k, o in env.items() if type(o).__name__ == want]
    d = dict(args=[], kw={})
    if others and rng.random() < 0.6:
        d["other"] = rng.choice(others)
    return d


def gen_omp(rng, env, on):
    o = env[on]
    a = axes_of(o)[0]
    try:
        v = np.asarray(a.get_values(is_smallestperiod=True), dtype=float)
        vals = sorted([float(x) for x in v] + [float(x + y) / 2 for x, y in zip(v[:-1], v[1:])])
    except Exception:
        vals = [0.0, 0.5, 1.0]
    return dict(args=[{"__axis__": {"k": "1d", "name": a.name, "unit": a.unit, "values": vals}}], kw={"n_coefs": 3})


def gen_axvalues(rng, env, on):
    a = env[on]
    kw = {}
    r = rng.random()
    if r < 0.45:
        kw[rng.choice(["is_oneperiod", "is_antiperiod", "is_smallestperiod"])] = True
    norms = list((a.normalizations or {}).keys())
    r = rng.random()
    if norms and r < 0.45:
        kw["normalization" if rng.random() < 0.5 else "unit"] = rng.choice(norms)
    elif r < 0.6:
        kw["unit"] = rng.choice((AX_UNITS.get(a.name) or ["mm"]) * 4 + ["kg"])
    elif r < 0.62:
        kw["normalization"] = "nosuch"
    if rng.random() < 0.2 and a.name in ("time", "angle", "freqs", "wavenumber"):
        kw["operation"] = {"time": "time_to_freqs", "angle": "angle_to_wavenumber", "freqs": "freqs_to_time", "wavenumber": "wavenumber_to_angle"}[a.name]
    if isinstance(a, DataPattern):
        kw.pop("is_oneperiod", None)
        if rng.random() < 0.3:
            kw["is_pattern"] = True
    return dict(args=[], kw=kw)


def gen_axlen(rng, env, on):
    kw = {}
    if not isinstance(env[on], DataPattern) and rng.random() < 0.6:
        kw[rng.choice(["is_oneperiod", "is_antiperiod", "is_smallestperiod"])] = True
    return dict(args=[], kw=kw)


def gen_axper(rng, env, on):
    return dict(args=[rng.choice([1, 2, 3, 4])], kw={"is_aper": rng.random() < 0.4})


def gen_filter_dict(rng, env, on):
    return dict(args=[{"wavenumber": ["r=0"], "direction": ["radial", "circ"], "application": rng.choice([["stator"], ["rotor", "stator"]])}], kw={})


def gen_chper(rng, env, on):
    names = [a.name for a in axes_of(env[on])]
    per = {}
    pa = rng.choice([1, 2])
    kw = {"per_a_new": pa, "per_t_new": rng.choice([1, 2])}
    if rng.random() < 0.5:
        kw["is_aper_a_new"] = rng.random() < 0.4
    if rng.random() < 0.5:
        kw["is_aper_t_new"] = rng.random() < 0.4
    return dict(args=[], kw=kw)


def gen_getaxes(rng, env, on):
    names = [a.name for a in axes_of(env[on])]
    return dict(args=[rng.choice(names)] if names and rng.random() < 0.7 else [], kw={})


def gen_asdict(rng, env, on):
    kw = {}
    if rng.random() < 0.5:
        kw = {"type_handle_ndarray": 1, "keep_function": True}
    elif rng.random() < 0.3:
        kw = {"keep_function": True}
    return dict(args=[], kw=kw)


def gen_cmpobj(rng, env, on):
    ks = [k for k, o in env.items() if type(o) is type(env[on])]
    return dict(args=[], kw={}, other=rng.choice(ks))


def gen_under(rng, env, on):
    return dict(args=[rng.choice([0.3, 0.5, 0.8])], kw={"seed": rng.choice([1, 42, 90])} if rng.random() < 0.7 else {})


def gen_relink(rng, env, on):
    return gen_cmpobj(rng, env, on)


DATA_OPS = {
    "get_along": (10, gen_get_along),
    "get_magnitude_along": (6, gen_mag),
    "get_phase_along": (3, gen_phase),
    "get_data_along": (4, gen_data_along),
    "get_harmonics": (2, gen_harm),
    "compare_along": (0.6, gen_compare),
    "compare_magnitude_along": (0.4, gen_compare),
    "compare_phase_along": (0.4, gen_compare),
    "export_along": (2, gen_export),
    "filter_spectral_leakage": (1.5, gen_filter),
    "change_referential": (1.5, gen_change_ref),
    "orthogonal_mp": (2, gen_omp),
    "has_period": (0.5, gen_none),
    "get_axes": (0.5, gen_getaxes),
    "plot_2D_Data": (0.8, gen_plot2d),
    "plot_3D_Data": (0.8, gen_plot3d),
    "plot_export": (1.5, gen_plot2d),
    "as_dict": (0.7, gen_asdict),
    "copy": (0.8, gen_none),
    "eq": (0.5, gen_cmpobj),
    "compare": (0.5, gen_cmpobj),
    "str": (0.4, gen_none),
    "sizeof": (0.4, gen_none),
}
ONLY = {
    "DataTime": {"time_to_freq": (1.5, gen_none), "to_datadual": (1, gen_dual)},
    "DataFreq": {"freq_to_time": (1.5, gen_none), "to_datadual": (1, gen_dual), "conv": (1, gen_conv), "sum": (1, gen_conv)},
}
VF_OPS = {
    "get_rphiz_along": (6, gen_vf_args),
    "get_xyz_along": (6, gen_vf_args),
    "get_mag_rphiz_along": (3, gen_vf_freq),
    "get_mag_xyz_along": (3, gen_vf_freq),
    "get_harm_rphiz_along": (2, gen_vf_harm),
    "get_harm_xyz_along": (2, gen_vf_harm),
    "get_vectorfield_along": (3, gen_vf_args),
    "to_xyz": (1.5, gen_none),
    "to_rphiz": (1.5, gen_none),
    "change_periodicity": (1.5, gen_chper),
    "change_referential": (1.2, gen_change_ref),
    "filter_spectral_leakage": (1.2, gen_filter),
    "freq_to_time": (1, gen_none),
    "time_to_freq": (1, gen_none),
    "get_axes": (0.7, gen_getaxes),
    "plot_2D_Data": (0.6, gen_plot2d),
    "plot_3D_Data": (0.5, gen_plot3d),
    "as_dict": (0.6, gen_asdict),
    "copy": (0.7, gen_none),
    "eq": (0.4, gen_cmpobj),
    "compare": (0.4, gen_cmpobj),
    "str": (0.3, gen_none),
    "sizeof": (0.3, gen_none),
}
AXIS_OPS = {
    "get_values": (6, gen_axvalues),
    "get_length": (2, gen_axlen),
    "get_periodicity": (1, gen_none),
    "has_period": (1, gen_none),
    "get_axis_periodic": (2, gen_axper),
    "to_linspace": (1, gen_none),
    "get_filter": (0.7, gen_filter_dict),
    "check_filter": (0.4, gen_none),
    "comp_undersampling": (0.5, gen_under),
    "as_dict": (0.5, gen_asdict),
    "copy": (0.7, gen_none),
    "eq": (0.3, gen_cmpobj),
    "compare": (0.3, gen_cmpobj),
    "str": (0.3, gen_none),
    "sizeof": (0.3, gen_none),
}
PLOT_OPS = {"plot_2D_Data", "plot_3D_Data"}
FILE_OPS = {"export_along"}
# operations whose result is a new library object (usable as a later target)
DERIVE = {
    "get_data_along", "filter_spectral_leakage", "change_referential", "orthogonal_mp", "copy", "time_to_freq", "freq_to_time",
    "to_datadual", "conv", "sum", "get_vectorfield_along", "to_xyz", "to_rphiz", "change_periodicity", "get_axis_periodic", "to_linspace",
}


def ops_for(obj):
    if isinstance(obj, VectorField):
        return dict(VF_OPS)
    if isinstance(obj, DataND):
        d = dict(DATA_OPS)
        d.update(ONLY.get(type(obj).__name__, {}))
        axes = axes_of(obj)
        names = [a.name for a in axes]
        if names != ["freqs"]:
            d.pop("conv", None)
            d.pop("sum", None)
        if not (set(names) & {"time", "freqs"}) or isinstance(obj, DataDual):
            d.pop("filter_spectral_leakage")
            d.pop("change_referential")
        elif not (set(names) & {"angle", "wavenumber"}):
            d.pop("change_referential")
        if not (names[:1] == ["time"] and len(names) <= 2 and isinstance(axes[0], Data1D) and not axes[0].symmetries):
            d.pop("orthogonal_mp")
        return d
    d = dict(AXIS_OPS)
    for k in list(d):
        if k not in ("eq", "str", "sizeof", "comp_undersampling") and not hasattr(type(obj), k):
            del d[k]
    if not isinstance(obj, Data1D):
        d.pop("comp_undersampling", None)
        d.pop("get_filter", None)
        d.pop("check_filter", None)
    elif obj.filter is None:
        d.pop("get_filter", None)
        d.pop("check_filter", None)
    return d


def gen_op(rng, env, on=None, exclude=(), only=None, axis_weight=0.15, scratch=None, bad=0.12, tries=6):
    """Draw one operation on a live environment; most of the requests that raise are redrawn"""
    for _ in range(tries):
        op = draw_op(rng, env, on, exclude, only, axis_weight)
        if op is None or rng.random() < bad:
            return op
        if outcome(Prepared(env, op, scratch))[0][0] == "ok":
            return op
    return op


def draw_op(rng, env, on=None, exclude=(), only=None, axis_weight=0.15):
    if on is None:
        objs = [k for k in env if not k.startswith("a")]
        axs = [k for k in env if k.startswith("a")]
        if axs and (not objs or rng.random() < axis_weight):
            on = rng.choice(axs)
        else:
            # vector fields and the last created objects are more interesting than raw components
            w = [6 if isinstance(env[k], VectorField) else 1 for k in objs]
            on = rng.choices(objs, w)[0]
    table = {k: v for k, v in ops_for(env[on]).items() if k not in exclude and (only is None or k in only)}
    if not table:
        return None
    names = sorted(table)
    name = rng.choices(names, [table[n][0] for n in names])[0]
    op = {"op": name, "on": on}
    try:
        op.update(table[name][1](rng, env, on))
    except Exception:
        # the introspection of a degenerate object failed: plain request
        op.update(args=[], kw={})
    return op


# --------------------------------------------------------------------------- execution
def decode(x):
    if isinstance(x, dict):
        if "__nd__" in x:
            return np.array(x["__nd__"], dtype=float)
        if "__axis__" in x:
            return W.build_axis(x["__axis__"])
        return {k: decode(v) for k, v in x.items()}
    if isinstance(x, list):
        return [decode(v) for v in x]
    return x


def fig_summary(fig):
    out = []
    for ax in fig.axes:
        d = {"title": ax.get_title(), "x": ax.get_xlabel(), "y": ax.get_ylabel()}
        d["lines"] = [(np.array(l.get_xdata(), dtype=object if np.asarray(l.get_xdata()).dtype.kind in "OU" else None), np.array(l.get_ydata())) for l in ax.lines]
        d["patches"] = [np.array(p.get_extents().bounds) if False else np.array([p.get_x(), p.get_height()]) for p in ax.patches if hasattr(p, "get_height") and hasattr(p, "get_x")]
        d["images"] = [np.ma.getdata(im.get_array()) for im in ax.images if im.get_array() is not None]
        d["coll"] = [np.ma.getdata(c.get_array()) if c.get_array() is not None else None for c in ax.collections]
        d["texts"] = [t.get_text() for t in ax.texts]
        leg = ax.get_legend()
        d["leg"] = [t.get_text() for t in leg.get_texts()] if leg else None
        d["lim"] = [list(map(float, ax.get_xlim())), list(map(float, ax.get_ylim()))]
        out.append(d)
    return out


class Prepared:
    """An operation bound to live objects, with decoded arguments kept for inspection"""

    def __init__(self, env, op, scratch=None, tag="x"):
        self.env, self.op = env, op
        self.outdir = os.path.join(scratch, tag) if scratch else None
        self.args = decode(op.get("args", []))
        self.kw = decode(op.get("kw", {}))
        self.obj = env[op["on"]]
        self.other = env[op["other"]] if op.get("other") else None
        self.others = [env[k] for k in op.get("others", [])]

    def arguments(self):
        """Everything the caller passes (for 'arguments are left alone')"""
        return [self.args, self.kw, self.others]

    def clear(self):
        """Empty output directory for the call"""
        os.makedirs(self.outdir, exist_ok=True)
        for n in os.listdir(self.outdir):
            os.unlink(os.path.join(self.outdir, n))

    def call(self):
        """Execute; returns the raw result (exceptions propagate)"""
        op, obj, name = self.op, self.obj, self.op["op"]
        if name == "get_harmonics" or name.startswith("get_harm_"):
            return getattr(obj, name)(op["n"], *self.args, **self.kw)
        if name.startswith("compare_"):
            return getattr(obj, name)(*self.args, data_list=[self.other], **self.kw)
        if name in ("conv", "sum"):
            return getattr(obj, name)(self.other)
        if name == "to_datadual":
            if self.other is None:
                return obj.to_datadual()
            key = "datafreq" if type(obj).__name__ == "DataTime" else "datatime"
            return obj.to_datadual(**{key: self.other})
        if name == "eq":
            return obj == self.other
        if name == "compare":
            return obj.compare(self.other)
        if name == "str":
            return str(obj)
        if name == "sizeof":
            return None if obj.__sizeof__() > 0 else "bad"
        if name == "comp_undersampling":
            from SciDataTool.Functions.omp import comp_undersampling

            return comp_undersampling(self.args[0], obj, **self.kw)
        if name == "export_along":
            self.clear()
            return obj.export_along(*self.args, save_path=self.outdir, file_name=op["file"], **self.kw)
        if name == "plot_export":
            return obj.plot_2D_Data(*self.args, data_list=list(self.others), is_show_fig=False, is_export=True, **self.kw)
        if name in PLOT_OPS:
            import matplotlib.pyplot as plt

            before = set(plt.get_fignums())
            kw = dict(self.kw)
            if self.others:
                kw["data_list"] = self.others
            try:
                obj_ret = getattr(obj, name)(*self.args, is_show_fig=False, **kw)
                figs = [n for n in plt.get_fignums() if n not in before]
                return [fig_summary(plt.figure(n)) for n in figs]
            finally:
                for n in plt.get_fignums():
                    if n not in before:
                        plt.close(n)
        return getattr(obj, name)(*self.args, **self.kw)


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            with contextlib.redirect_stdout(io.StringIO()):
                yield


class Hang(BaseException):
    """The call did not return within the wall limit (orders of magnitude above normal)"""


WALL_LIMIT = 20.0


@contextlib.contextmanager
def limit(seconds):
    if threading.current_thread() is not threading.main_thread():
        yield
        return

    def on_alarm(sig, frame):
        raise Hang()

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def outcome(prep, around=None):
    """Canonical outcome of a prepared operation and the raw result; around is a context manager for the call"""
    with quiet():
        try:
            with limit(WALL_LIMIT):
                if around is None:
                    raw = prep.call()
                else:
                    with around:
                        raw = prep.call()
        except Hang:
            return ("err", "did not return"), None
        except (Exception, KeyboardInterrupt) as e:
            return ("err", type(e).__name__), None
        tree = canon_result(prep, raw)
    return ("ok", tree), raw


def canon_result(prep, raw):
    if prep.op["op"] == "str":  # back references and addresses are not content
        raw = re.sub(r"(?m)^\s*parent = .*$", "", re.sub(r"0x[0-9a-f]+", "0x", raw))
    tree = core.canon(raw)
    if prep.op["op"] == "export_along":
        files = []
        for n in sorted(os.listdir(prep.outdir)):
            with open(os.path.join(prep.outdir, n), "rb") as f:
                files.append((n, f.read()))
        tree = ("files", files)
    return tree


def run_op(env, op, scratch=None):
    return outcome(Prepared(env, op, scratch))


def describe(op):
    a = ", ".join([repr(x) for x in op.get("args", [])] + ["%s=%r" % kv for kv in op.get("kw", {}).items()])
    extra = " other=%s" % op["other"] if op.get("other") else ""
    return "%s.%s(%s)%s" % (op["on"], op["op"], a, extra)
