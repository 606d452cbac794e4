"""Core of the simulator: forked isolation, canonical outcomes, content fingerprints."""
import hashlib
import io
import math
import os
import pickle
import random
import select
import signal
import struct
import sys
import time
import traceback

import numpy as np

REPO = "/repo"
LIB = REPO + "/SciDataTool/"
SCRATCH = None  # scratch directory of this process (set by the runner)


class HarnessError(Exception):
    """The check itself failed (not the code under test)"""


# --------------------------------------------------------------------------- seeds
def derive(*parts):
    """64-bit seed derived from the parts, independent of PYTHONHASHSEED"""
    h = hashlib.blake2b(repr(parts).encode(), digest_size=8).digest()
    return struct.unpack("<Q", h)[0]


def rng_for(*parts):
    return random.Random(derive(*parts))


# --------------------------------------------------------------------------- isolation
def forkcall(fn, *args, timeout=120.0):
    """Run fn(*args) in a forked child and return its (pickled) result.

    The caller stays pristine: nothing the library did in the child survives.
    """
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                payload = pickle.dumps(("ok", fn(*args)), protocol=4)
            except BaseException:
                payload = pickle.dumps(("exc", traceback.format_exc()), protocol=4)
            _write_all(w, struct.pack("<Q", len(payload)) + payload)
        except BaseException:
            code = 9
        finally:
            os._exit(code)
    os.close(w)
    buf = bytearray()
    deadline = time.monotonic() + timeout
    try:
        while True:
            left = deadline - time.monotonic()
            if left <= 0:
                os.kill(pid, signal.SIGKILL)
                raise HarnessError("timeout after %.0f s in %s" % (timeout, fn.__name__))
            rd, _, _ = select.select([r], [], [], left)
            if not rd:
                continue
            chunk = os.read(r, 1 << 20)
            if not chunk:
                break
            buf += chunk
            if len(buf) >= 8 and len(buf) >= 8 + struct.unpack("<Q", buf[:8])[0]:
                break
    finally:
        os.close(r)
        _, status = os.waitpid(pid, 0)
    if len(buf) < 8 or len(buf) < 8 + struct.unpack("<Q", buf[:8])[0]:
        raise HarnessError("child of %s died (status %r)" % (fn.__name__, status))
    kind, val = pickle.loads(bytes(buf[8:]))
    if kind == "exc":
        raise HarnessError("exception in simulator child:\n" + val)
    return val


def _write_all(fd, data):
    mv = memoryview(data)
    while mv:
        n = os.write(fd, mv)
        mv = mv[n:]


# --------------------------------------------------------------------------- properties of library objects
_PROPS = {}


def lib_props(cls):
    """Public stored properties of a library class (names), `parent` excluded"""
    if cls not in _PROPS:
        names = []
        for klass in reversed(cls.__mro__):
            for k, v in vars(klass).items():
                if isinstance(v, property) and v.fset is not None and not k.startswith("_"):
                    if k not in names:
                        names.append(k)
        _PROPS[cls] = [n for n in names if n != "parent"]
    return _PROPS[cls]


def is_lib_obj(x):
    return any(k.__name__ == "FrozenClass" for k in type(x).__mro__)


# --------------------------------------------------------------------------- canonical form
def canon(x, depth=0):
    """Canonical, picklable, comparable tree of a value"""
    if depth > 14:
        return ("deep",)
    if isinstance(x, str):
        return x.replace(SCRATCH, "$SCRATCH") if SCRATCH and SCRATCH in x else x
    if x is None or isinstance(x, (bool, bytes)):
        return x
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("ndo", x.shape, [canon(e, depth + 1) for e in x.ravel().tolist()])
        return ("nd", x.dtype.str, x.shape, _bytes(x))
    if isinstance(x, np.generic):
        return ("np", x.dtype.str, _bytes(np.asarray(x)))
    if isinstance(x, int):
        return x
    if isinstance(x, float):
        return ("f", struct.pack("<d", x if x == x else math.nan))
    if isinstance(x, complex):
        return ("c", struct.pack("<dd", x.real, x.imag))
    if isinstance(x, list):
        return ("l", [canon(e, depth + 1) for e in x])
    if isinstance(x, tuple):
        return ("t", [canon(e, depth + 1) for e in x])
    if isinstance(x, dict):
        return ("d", [(canon(k, depth + 1), canon(v, depth + 1)) for k, v in x.items()])
    if isinstance(x, (set, frozenset)):
        return ("s", sorted(repr(e) for e in x))
    if is_lib_obj(x):
        return (
            "o",
            type(x).__name__,
            [(p, canon(_getprop(x, p), depth + 1)) for p in lib_props(type(x))],
        )
    if callable(x):
        code = getattr(x, "__code__", None)
        consts = [repr(c) for c in code.co_consts if c is None or isinstance(c, (int, float, str, tuple))] if code else []
        return ("fn", getattr(x, "__name__", "?"), code.co_code if code else b"", consts)
    return ("x", type(x).__name__)


def _bytes(x):
    """Bytes of an array, with one representation of NaN (its sign depends on memory alignment)"""
    if x.dtype.kind in "fc" and np.isnan(x).any():
        x = np.array(x, order="C")
        parts = x.reshape(-1).view(x.real.dtype)
        parts[np.isnan(parts)] = np.nan
    return x.tobytes()


def _getprop(x, p):
    try:
        return getattr(x, p)
    except Exception as e:  # a property that cannot be read any more is a (bad) content
        return "unreadable:" + type(e).__name__


def digest(tree):
    buf = io.BytesIO()
    p = pickle.Pickler(buf, protocol=4)
    p.fast = True  # no memo: equal trees give equal bytes whatever they share
    p.dump(tree)
    return hashlib.blake2b(buf.getbuffer(), digest_size=12).hexdigest()


def fp(*objs):
    """Content fingerprint: identical content <=> identical canonical bytes"""
    return tuple(canon(o) for o in objs)


def _num(t):
    """numpy array of a numeric canonical leaf, or None"""
    if isinstance(t, bool):
        return None
    if isinstance(t, int):
        try:
            return np.array(float(t))
        except OverflowError:
            return None
    if isinstance(t, tuple) and t:
        if t[0] == "nd" and np.dtype(t[1]).kind in "fciub":
            return np.frombuffer(t[3], dtype=np.dtype(t[1])).reshape(t[2])
        if t[0] == "np" and np.dtype(t[1]).kind in "fciub":
            return np.frombuffer(t[2], dtype=np.dtype(t[1]))[0]
        if t[0] == "f":
            return np.array(struct.unpack("<d", t[1])[0])
        if t[0] == "c":
            return np.array(complex(*struct.unpack("<dd", t[1])))
    return None


def same(a, b, rtol=1e-9):
    """Equality of canonical trees with a rounding tolerance on numbers"""
    return diff(a, b, rtol) is None


def diff(a, b, rtol=1e-9, path=""):
    """None if equal, else a short description of the first difference"""
    if a == b:
        return None
    na, nb = _num(a), _num(b)
    if na is not None and nb is not None:
        if np.shape(na) != np.shape(nb):
            return "%s: shape %s != %s" % (path or ".", np.shape(na), np.shape(nb))
        if np.asarray(na).dtype.kind != np.asarray(nb).dtype.kind:
            return "%s: dtype %s != %s" % (path or ".", np.asarray(na).dtype, np.asarray(nb).dtype)
        with np.errstate(all="ignore"):
            fin = np.abs(np.asarray(nb)[np.isfinite(nb)]) if np.size(nb) else np.array([])
            scale = float(fin.max()) if np.size(fin) else 0.0
            ok = np.allclose(na, nb, rtol=rtol, atol=rtol * scale, equal_nan=True)
        if ok:
            return None
        with np.errstate(all="ignore"):
            bad = np.argwhere(~np.isclose(np.atleast_1d(na), np.atleast_1d(nb), rtol=rtol, atol=rtol * scale, equal_nan=True))
        i = tuple(bad[0])
        return "%s: value %r != %r at %s" % (
            path or ".", np.atleast_1d(na)[i].item(), np.atleast_1d(nb)[i].item(), [int(j) for j in i])
    if type(a) != type(b):
        return "%s: %s != %s" % (path or ".", short(a), short(b))
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b:
        if a[0] != b[0]:
            return "%s: %s != %s" % (path or ".", short(a), short(b))
        if a[0] in ("l", "t") and len(a) == 2:
            if len(a[1]) != len(b[1]):
                return "%s: length %d != %d" % (path or ".", len(a[1]), len(b[1]))
            for i, (x, y) in enumerate(zip(a[1], b[1])):
                d = diff(x, y, rtol, path + "[%d]" % i)
                if d:
                    return d
            return None
        if a[0] == "ndo":
            if a[1] != b[1]:
                return "%s: shape %s != %s" % (path or ".", a[1], b[1])
            return diff(("l", a[2]), ("l", b[2]), rtol, path)
        if a[0] == "d":
            ka, kb = [k for k, _ in a[1]], [k for k, _ in b[1]]
            if ka != kb:
                return "%s: keys %s != %s" % (path or ".", short(ka), short(kb))
            for (k, x), (_, y) in zip(a[1], b[1]):
                d = diff(x, y, rtol, path + "[%s]" % short(k))
                if d:
                    return d
            return None
        if a[0] == "o":
            if a[1] != b[1]:
                return "%s: class %s != %s" % (path or ".", a[1], b[1])
            da, db = dict(a[2]), dict(b[2])
            for k in da:
                d = diff(da[k], db.get(k), rtol, path + "." + k)
                if d:
                    return d
            return None
        if len(a) == len(b) and not (a[0] in ("nd", "np", "f", "c", "s", "fn", "x")):
            for i, (x, y) in enumerate(zip(a, b)):
                d = diff(x, y, rtol, path + "<%d>" % i)
                if d:
                    return d
            return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return "%s: length %d != %d" % (path or ".", len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, rtol, path + "[%d]" % i)
            if d:
                return d
        return None
    return "%s: %s != %s" % (path or ".", short(a), short(b))


def exact_diff(a, b):
    """Like diff but bit-exact on numbers (content must be untouched)"""
    if a == b:
        return None
    d = diff(a, b, rtol=0.0)
    return d or "content differs in representation"


def show(t, n=160):
    """Human-readable rendering of a canonical tree"""
    a = _num(t)
    if a is not None:
        s = np.array2string(np.asarray(a).ravel()[:6], precision=6)
        return "array%s%s" % (np.shape(a), s) if np.ndim(a) else repr(np.asarray(a).item())
    if isinstance(t, tuple) and t:
        if t[0] == "l" or t[0] == "t":
            return "[" + ", ".join(show(e, 40) for e in t[1][:6]) + "]"
        if t[0] == "d":
            return "{" + ", ".join("%s: %s" % (show(k, 20), show(v, 60)) for k, v in t[1][:8]) + "}"
        if t[0] == "o":
            return "%s(...)" % t[1]
        if t[0] == "nd":
            return str(np.frombuffer(t[3], dtype=np.dtype(t[1])).reshape(t[2]).ravel()[:5].tolist())
        if t[0] == "err":
            return "raised " + str(t[1])
    return repr(t)[:n]


def short(t, n=90):
    return show(t, n)[:n]


# --------------------------------------------------------------------------- content transport
class Frozen:
    """Content of a library object, free of the object itself"""

    __slots__ = ("cls", "props")

    def __init__(self, cls, props):
        self.cls, self.props = cls, props

    def __getstate__(self):
        return (self.cls, self.props)

    def __setstate__(self, s):
        self.cls, self.props = s


def freeze(x):
    if is_lib_obj(x):
        props = {p: freeze(getattr(x, p)) for p in lib_props(type(x))}
        src = getattr(x, "_function_str", None)  # a function given as text is stored as text
        if src is not None and "function" in props:
            props["function"] = src
        return Frozen(type(x).__name__, props)
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, list):
        return [freeze(e) for e in x]
    if isinstance(x, dict):
        return {k: freeze(v) for k, v in x.items()}
    return x


def thaw(x):
    """Freshly built object with the frozen content"""
    if isinstance(x, Frozen):
        import importlib

        cls = getattr(importlib.import_module("SciDataTool.Classes." + x.cls), x.cls)
        return cls(**{k: thaw(v) for k, v in x.props.items()})
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, list):
        return [thaw(e) for e in x]
    if isinstance(x, dict):
        return {k: thaw(v) for k, v in x.items()}
    return x
