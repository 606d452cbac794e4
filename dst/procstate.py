"""Process-wide state that library calls must leave alone."""
import decimal
import gc
import inspect
import locale
import logging
import os
import random
import signal
import sys
import tempfile
import threading
import types
import warnings

import matplotlib
import numpy as np

from . import core

PLAIN = (bool, int, float, complex, str, bytes)
FONTS = os.path.dirname(matplotlib.__file__)  # matplotlib keeps its font files open
_tables = None


def library_modules():
    return [m for n, m in sorted(sys.modules.items()) if (n == "SciDataTool" or n.startswith("SciDataTool.")) and isinstance(m, types.ModuleType)]


def _functions(mod):
    """(name, function) defined by a module, methods included"""
    for k, v in sorted(vars(mod).items()):
        if inspect.isfunction(v) and v.__module__ == mod.__name__:
            yield k, v
        elif inspect.isclass(v) and v.__module__ == mod.__name__:
            for kk, vv in sorted(vars(v).items()):
                f = vv.__func__ if isinstance(vv, (staticmethod, classmethod)) else vv
                if inspect.isfunction(f):
                    yield k + "." + kk, f


def tables():
    """The library's own constants and default arguments: {label: getter}.

    Containers that are empty at import are not constants (they may be caches); nor is what is None.
    """
    out = {}
    seen = set()
    for m in library_modules():
        for k, v in sorted(vars(m).items()):
            if k.startswith("__"):
                continue
            if isinstance(v, types.ModuleType) or callable(v):
                out["%s.%s (binding)" % (m.__name__, k)] = (lambda m=m, k=k: id(getattr(m, k, None)))
                continue
            if isinstance(v, (dict, list, set, np.ndarray)):
                if len(v) == 0 or id(v) in seen:
                    continue
                seen.add(id(v))
            elif not isinstance(v, PLAIN + (tuple,)):
                continue
            elif k in ("name", "version"):
                continue
            out["%s.%s" % (m.__name__, k)] = (lambda m=m, k=k: getattr(m, k, "gone"))
        for k, v in sorted(vars(m).items()):
            if inspect.isclass(v) and v.__module__ == m.__name__:
                for kk, vv in sorted(vars(v).items()):
                    if not kk.startswith("__") and isinstance(vv, PLAIN + (tuple, dict, list, set, np.ndarray)) and not (isinstance(vv, (dict, list, set)) and not vv):
                        out["%s.%s.%s" % (m.__name__, k, kk)] = (lambda v=v, kk=kk: getattr(v, kk, "gone"))
        for k, f in _functions(m):
            if f.__defaults__ or f.__kwdefaults__:
                mutable = [x for x in list(f.__defaults__ or ()) + list((f.__kwdefaults__ or {}).values()) if isinstance(x, (dict, list, set, np.ndarray))]
                if mutable:
                    out["default arguments of %s.%s" % (m.__name__, k)] = (lambda f=f: [f.__defaults__, f.__kwdefaults__])
    return out


def init():
    global _tables
    _tables = tables()
    return len(_tables)


def fds():
    out = {}
    for n in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink("/proc/self/fd/" + n)
        except OSError:
            continue
        if not t.startswith(("/proc/", FONTS)):
            out[n] = t
    return out


def snapshot():
    """{what: comparable value}"""
    s = {}
    try:
        s["working directory"] = os.getcwd()
    except OSError:
        s["working directory"] = None
    mask = os.umask(0)
    os.umask(mask)
    s["umask"] = mask
    s["generator of random"] = core.digest(random.getstate())
    st = np.random.get_state()
    s["generator of numpy.random"] = core.digest((st[0], st[1].tobytes(), st[2], st[3], st[4]))
    s["numpy error handling"] = repr(sorted(np.geterr().items())) + repr(np.geterrcall())
    s["numpy print options"] = repr(sorted((k, str(v)) for k, v in np.get_printoptions().items()))
    s["warning filters"] = repr([(a, getattr(m, "pattern", m), c.__name__, getattr(mo, "pattern", mo), l) for a, m, c, mo, l in warnings.filters])
    s["warning display"] = id(warnings.showwarning)
    s["locale"] = locale.setlocale(locale.LC_ALL)
    s["plotting defaults"] = {k: repr(v) for k, v in dict.items(matplotlib.rcParams)}
    s["plotting backend"] = matplotlib.get_backend()
    s["environment"] = dict(os.environ)
    s["module search path"] = list(sys.path)
    s["standard streams"] = [id(sys.stdin), id(sys.stdout), id(sys.stderr)]
    s["signal handlers"] = [repr(signal.getsignal(x)) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGPIPE)]
    s["threads"] = threading.active_count()
    s["logging"] = [logging.root.level, len(logging.root.handlers), logging.root.manager.disable]
    s["garbage collector"] = [gc.isenabled(), gc.get_threshold()]
    s["recursion limit"] = sys.getrecursionlimit()
    s["decimal context"] = repr(decimal.getcontext().prec)
    s["temporary directory"] = tempfile.tempdir
    s["open descriptors"] = fds()
    for k, g in _tables.items():
        s[k] = core.canon(g())
    return s


def changes(a, b):
    """[(what, how)] of two snapshots"""
    out = []
    for k in a:
        if a[k] == b.get(k):
            continue
        if k in ("plotting defaults", "environment", "open descriptors"):
            keys = sorted(x for x in set(a[k]) | set(b[k]) if a[k].get(x) != b[k].get(x))
            out.append((k, ", ".join("%s: %s -> %s" % (x, a[k].get(x), b[k].get(x)) for x in keys[:3])))
        elif isinstance(a[k], (tuple, list)) and k in _tables:
            out.append((k, core.diff(b[k], a[k], 0.0) or "representation"))
        else:
            out.append((k, "%s -> %s" % (str(a[k])[:60], str(b[k])[:60])))
    return out


def ambient(rng):
    """Settings of the calling program, drawn so that a reset to defaults shows"""
    return {
        "err": rng.choice([{}, {"divide": "ignore"}, {"invalid": "print"}, {"over": "raise"}, {"all": "ignore"}]),
        "precision": rng.choice([8, 3, 12]),
        "linewidth": rng.choice([1.5, 2.25]),
        "figsize": rng.choice([None, [5, 4]]),
        "filters": rng.choice(["ignore", "default", "once"]),
        "seed": rng.randrange(1000),
    }


def apply(a):
    np.seterr(**a["err"])
    np.set_printoptions(precision=a["precision"])
    matplotlib.rcParams["lines.linewidth"] = a["linewidth"]
    if a["figsize"]:
        matplotlib.rcParams["figure.figsize"] = a["figsize"]
    warnings.simplefilter(a["filters"])
    random.seed(a["seed"])
    np.random.seed(a["seed"])
