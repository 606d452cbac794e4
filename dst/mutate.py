"""Assignments made by the caller through the public attributes (they change the content)."""
import copy

import numpy as np

from . import core, ops, world as W
from SciDataTool import Data1D, DataDual, DataLinspace, DataND, DataPattern, Norm_ref, Norm_vector, VectorField

SYMS = [{}, {"period": 2}, {"period": 3}, {"antiperiod": 2}, {"antiperiod": 4}]


def gen_set(rng, env, world=None):
    """Draw one assignment on a live environment"""
    for _ in range(8):
        on = rng.choice(list(env))
        o = env[on]
        h = []
        if isinstance(o, VectorField):
            if o.components:
                h = ["comp_swap", "comp_scale", "comp_drop"] if len(o.components) > 1 else ["comp_scale"]
        elif isinstance(o, DataDual):
            h = ["values_dt", "values_df", "values_dt_in", "values_df_in", "values_dt_el", "values_df_el", "unit", "axis_sym"]
        elif isinstance(o, DataND):
            h = ["values", "values", "values_in", "values_el", "values_swap", "unit", "name", "axis_sym", "axis_sym_in", "axis_new", "axis_new"]
            if o.normalizations:
                h += ["ref", "norm_new"]
            if world and on.startswith("o"):
                h += ["rebuild", "rebuild"]
        elif isinstance(o, DataLinspace):
            h = ["lin_final", "sym", "sym_in", "sym_in"]
        elif isinstance(o, DataPattern):
            h = ["pat_values"]
        elif isinstance(o, Data1D) and not o.is_components and np.asarray(o.values).dtype.kind == "f":
            h = ["ax_values", "ax_values_in", "ax_values_el", "sym", "sym_in", "sym_in"]
        if not isinstance(o, (VectorField, DataND)) and o.normalizations:
            h += ["ax_norm", "ax_norm"]
        if not h:
            continue
        op = {"op": "set", "on": on, "how": rng.choice(h), "k": rng.choice([2.0, 0.5, -1.0, 3.0])}
        if op["how"] in ("axis_sym", "sym", "axis_sym_in", "sym_in"):
            op["sym"] = rng.choice(SYMS)
        if op["how"].startswith("axis_") or op["how"].startswith("comp_") or op["how"] == "ax_norm":
            op["i"] = rng.randrange(4)
        if op["how"] in ("values_el", "values_dt_el", "values_df_el", "values_swap", "ax_values_el"):
            op["i"] = rng.randrange(1000)
        if op["how"] == "unit":
            op["unit"] = rng.choice(["T", "m", "A", "Pa"])
        if op["how"] == "rebuild":
            op["seed"] = rng.randrange(10**6)
        return op
    return None


def _axis(o, i):
    axes = (o.axes_dt if i % 2 else o.axes_df) if isinstance(o, DataDual) else o.axes
    return axes[i % len(axes)]


def _num(a):
    return not a.is_components and (not isinstance(a, Data1D) or np.asarray(a.values).dtype.kind == "f")


def _inner(n, i):
    return 1 + i % (n - 2) if n > 2 else i % n


def apply_set(env, op, world=None):
    """Perform the assignment. The keys of the objects whose content it may change are not tracked: content is re-read."""
    o, how, k = env[op["on"]], op["how"], op.get("k", 2.0)
    if how == "values":
        o.values = o.values * k
    elif how == "values_in":
        o.values[...] *= k
    elif how in ("values_dt", "values_df"):
        setattr(o, how, getattr(o, how) * k)
    elif how in ("values_dt_in", "values_df_in"):
        v = getattr(o, how[:-3])
        v *= k
    elif how in ("values_el", "values_dt_el", "values_df_el"):  # one element, not the ends
        v = getattr(o, how[:-3])
        i = np.unravel_index(_inner(v.size, op["i"]), v.shape)
        v[i] = v[i] * k + 1
    elif how == "values_swap":  # two elements exchanged, the sum stays
        v = o.values
        i, j = (np.unravel_index(_inner(v.size, op["i"] + d), v.shape) for d in (0, 1))
        v[i], v[j] = v[j], v[i]
    elif how == "unit":
        o.unit = op["unit"]
    elif how == "name":
        o.name = o.name + "'"
    elif how in ("axis_sym", "axis_sym_in"):
        a = _axis(o, op["i"])
        if _num(a) and not isinstance(a, DataPattern):
            if how == "axis_sym":
                a.symmetries = dict(op["sym"])
            else:
                a.symmetries.clear()
                a.symmetries.update(op["sym"])
    elif how == "axis_new":  # a changed copy of one axis takes its place
        axes = list(o.axes)
        i = op["i"] % len(axes)
        a = core.thaw(core.freeze(axes[i]))
        if isinstance(a, DataLinspace):
            a.final = a.final * abs(k)
        elif _num(a) and isinstance(a, Data1D):
            a.values = a.values * abs(k)
        axes[i] = a
        o.axes = axes
    elif how == "ref":
        n = list(o.normalizations.values())[0]
        if isinstance(n, Norm_ref):
            n.ref = n.ref * abs(k)
    elif how == "norm_new":
        o.normalizations = {"ref": Norm_ref(ref=abs(k))}
    elif how == "lin_final":
        o.final = o.final * abs(k)
    elif how == "sym":
        o.symmetries = dict(op["sym"])
    elif how == "sym_in":
        o.symmetries.clear()
        o.symmetries.update(op["sym"])
    elif how == "pat_values":
        o.values = o.values * abs(k)
        if o.values_whole is not None:
            o.values_whole = o.values_whole * abs(k)
    elif how == "ax_values":
        o.values = o.values * abs(k)
    elif how == "ax_values_in":
        o.values[...] *= abs(k)
    elif how == "ax_values_el":  # moves one point between its neighbours, the ends stay
        v = o.values
        if len(v) > 2:
            i = _inner(len(v), op["i"])
            v[i] = 0.7 * v[i - 1] + 0.3 * v[i + 1]
    elif how == "ax_norm":
        key = sorted(o.normalizations)[op["i"] % len(o.normalizations)]
        n = o.normalizations[key]
        if isinstance(n, Norm_ref):
            n.ref = n.ref * abs(k)
        elif isinstance(n, Norm_vector):
            n.vector = n.vector * k
        else:
            o.normalizations[key] = Norm_ref(ref=abs(k))
    elif how == "comp_swap":
        keys = list(o.components)
        a, b = keys[op["i"] % len(keys)], keys[(op["i"] + 1) % len(keys)]
        o.components[a], o.components[b] = o.components[b], o.components[a]
    elif how == "comp_scale":
        keys = list(o.components)
        c = o.components[keys[op["i"] % len(keys)]]
        c.values = c.values * k
    elif how == "comp_drop":
        keys = list(o.components)
        del o.components[keys[op["i"] % len(keys)]]
    elif how == "rebuild":  # the object is given up and another one of the same build takes its name
        spec = copy.deepcopy(world["obj"][int(op["on"][1:])])
        spec["vals"]["seed"] = op["seed"]
        del env[op["on"]], o
        env[op["on"]] = W.build_obj(spec, env, world["ax"], env)
    else:
        raise ValueError(how)


def describe(op):
    return "%s: %s %s" % (op["on"], op["how"], {k: v for k, v in op.items() if k not in ("op", "on", "how")})
