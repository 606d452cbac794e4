"""Simulated disk: system calls below a watched directory are counted, logged, faulted, scheduled.

The layer is dst/shim.c (LD_PRELOAD). A plan (list of faults) is armed inside a forked process; the
log lives in memory shared with the parent and survives the death of the process.
"""
import ctypes
import errno
import os
import pickle
import select
import shutil
import signal
import stat
import struct
import sys
import threading
import time
import traceback

from . import core

NAMES = ["", "open", "read", "write", "close", "fsync", "rename", "unlink", "truncate", "mkdir", "rmdir", "link", "symlink", "chmod", "chdir"]
OP = {n: i for i, n in enumerate(NAMES)}
ERRNO, SHORT, STICKY, EXIT_BEFORE, EXIT_AFTER, EXIT_MID = 1, 2, 3, 4, 5, 6
DEATH = 77
REC = struct.Struct("<iiqqqiiIIII")
FAULT = struct.Struct("<qiiii")
NPLAN = 16

_lib = None
_ctl = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(None)
        if not hasattr(_lib, "dst_alloc"):
            raise core.HarnessError("the system-call layer is not loaded")
        _lib.dst_alloc.restype = ctypes.c_void_p
    return _lib


def region():
    """Shared region of this process; the processes it forks inherit it"""
    global _ctl
    if _ctl is None or _ctl[0] != os.getpid():
        p = lib().dst_alloc()
        if not p:
            raise core.HarnessError("no memory for the system-call log")
        _ctl = (os.getpid(), p)


def arm(root, plan=()):
    """Watch the calls below root; plan: list of {"at","kind","arg"}"""
    l = lib()
    l.dst_reset(os.path.realpath(root).encode())
    for f in plan:
        l.dst_plan(ctypes.c_long(f["at"]), f["kind"], int(f.get("arg", 0)))


def disarm():
    lib().dst_stop()


class Rec:
    __slots__ = ("op", "fd", "a", "b", "res", "err", "who", "path", "path2", "data")

    def __repr__(self):
        return "%s %s%s a=%d b=%d -> %d%s" % (NAMES[self.op], self.path, " " + self.path2 if self.path2 else "", self.a, self.b, self.res, " " + errno.errorcode.get(self.err, "?") if self.err else "")


def log():
    """Records of the calls since arm(), and the faults that fired [(op name, kind, arg)]"""
    l = lib()
    base = _ctl[1]
    head = ctypes.string_at(base + 1024, 16 + 16)
    active, sticky, overflow, nplan, count, used = struct.unpack("<iiiiqq", head)
    if overflow:
        raise core.HarnessError("system-call log overflow")
    fired = []
    for i in range(nplan):
        at, kind, arg, fi, op = FAULT.unpack(ctypes.string_at(base + 1024 + 32 + i * FAULT.size, FAULT.size))
        if fi:
            fired.append((NAMES[op], kind, arg))
    raw = ctypes.string_at(base + l.dst_arena_offset(), used)
    out, i = [], 0
    while i < used:
        op, fd, a, b, res, err, who, np_, nq, nd, _ = REC.unpack_from(raw, i)
        i += REC.size
        r = Rec()
        r.op, r.fd, r.a, r.b, r.res, r.err, r.who = op, fd, a, b, res, err, who
        r.path = raw[i : i + np_].decode("utf-8", "surrogateescape")
        i += np_
        r.path2 = raw[i : i + nq].decode("utf-8", "surrogateescape")
        i += nq
        r.data = raw[i : i + nd]
        i += nd
        out.append(r)
    return out, fired


def fault_name(f):
    op, kind, arg = f
    if kind == ERRNO:
        return "%s fails with %s" % (op, errno.errorcode.get(arg, arg))
    return {
        SHORT: "short %s" % op,
        STICKY: "disk full from a %s on" % op,
        EXIT_BEFORE: "process death before %s" % op,
        EXIT_AFTER: "process death after %s" % op,
        EXIT_MID: "process death in the middle of %s" % op,
    }[kind]


# --------------------------------------------------------------------------- processes
def process(fn, *args, timeout=60.0):
    """Run fn(emit, *args) in a forked process that may die at any call.

    Returns (messages emitted so far, status): status "done", "died" (simulated death) or raises.
    """
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)

            def emit(x):
                b = pickle.dumps(x, protocol=4)
                core._write_all(w, struct.pack("<Q", len(b)) + b)

            try:
                fn(emit, *args)
                emit(("__end__",))
            except BaseException:
                disarm()
                emit(("__exc__", traceback.format_exc()))
        finally:
            os._exit(0)
    os.close(w)
    buf = bytearray()
    end = time.monotonic() + timeout
    try:
        while True:
            left = end - time.monotonic()
            if left <= 0:
                os.kill(pid, signal.SIGKILL)
                raise core.HarnessError("simulated process did not end within %.0f s" % timeout)
            rd, _, _ = select.select([r], [], [], left)
            if rd:
                c = os.read(r, 1 << 20)
                if not c:
                    break
                buf += c
    finally:
        os.close(r)
        _, st = os.waitpid(pid, 0)
        disarm()
    msgs = _split(buf)
    return msgs, _status(msgs, st)


def _split(buf):
    msgs, i = [], 0
    while len(buf) - i >= 8:
        n = struct.unpack("<Q", bytes(buf[i : i + 8]))[0]
        if len(buf) - i - 8 < n:
            break
        msgs.append(pickle.loads(bytes(buf[i + 8 : i + 8 + n])))
        i += 8 + n
    return msgs


def _status(msgs, st):
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == DEATH:
        return "died"
    if msgs and msgs[-1][0] == "__exc__":
        raise core.HarnessError("exception in simulated process:\n" + msgs[-1][1])
    if not msgs or msgs[-1][0] != "__end__":
        raise core.HarnessError("simulated process ended with status %r" % (st,))
    msgs.pop()
    return "done"


# --------------------------------------------------------------------------- concurrent actors
class Actors:
    """Processes (each with one or more threads) whose system calls are released one at a time.

    groups: list of lists of functions fn(emit); one process per group, one thread per function.
    choose(waiting) -> index into the sorted list of waiting actors. The order of all releases is
    the schedule; starts and ends are recorded on the same clock.
    """

    def __init__(self, groups, root, choose, plan=(), timeout=60.0):
        self.groups, self.root, self.choose, self.plan, self.timeout = groups, root, choose, plan, timeout
        self.order, self.start, self.end, self.out, self.dead = [], {}, {}, {}, set()

    def run(self):
        arm(self.root, self.plan)
        chans, pids, who = {}, [], 0
        for g in self.groups:
            ids = []
            for fn in g:
                up, down = os.pipe(), os.pipe()
                chans[who] = [up, down]
                ids.append((who, fn))
                who += 1
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    for k, (up, down) in chans.items():
                        if k in [i for i, _ in ids]:
                            os.close(up[0]), os.close(down[1])
                        elif up[0] >= 0:
                            os.close(up[0]), os.close(down[1])
                            if up[1] >= 0:
                                os.close(up[1]), os.close(down[0])
                    ts = [threading.Thread(target=self._actor, args=(i, chans[i], fn), daemon=True) for i, fn in ids]
                    for t in ts:
                        t.start()
                    for t in ts:
                        t.join()
                finally:
                    os._exit(0)
            pids.append((pid, [i for i, _ in ids]))
            for i, _ in ids:
                up, down = chans[i]
                os.close(up[1]), os.close(down[0])
                chans[i] = [(up[0], -1), (-1, down[1])]
        self.r = {i: c[0][0] for i, c in chans.items()}
        self.w = {i: c[1][1] for i, c in chans.items()}
        self.buf = {i: bytearray() for i in self.r}
        clock, waiting, alive, blocked = 0, set(), set(self.r), set()
        end = time.monotonic() + self.timeout
        try:
            for i in sorted(alive):  # every actor comes to the line
                self._advance(i, waiting, alive, blocked, clock)
            while waiting or blocked & alive:
                if time.monotonic() > end:
                    raise core.HarnessError("actors did not finish")
                if not waiting:
                    for i in sorted(blocked & alive):
                        self._advance(i, waiting, alive, blocked, clock, 0.2)
                    continue
                w = sorted(waiting)
                i = w[self.choose(len(w)) % len(w)]
                clock += 1
                waiting.discard(i)
                self.start.setdefault(i, clock)
                self.order.append(i)
                os.write(self.w[i], b"x")
                self._advance(i, waiting, alive, blocked, clock)
                for j in sorted(blocked & alive):
                    self._advance(j, waiting, alive, blocked, clock, 0.0)
        finally:
            for fd in list(self.r.values()) + list(self.w.values()):
                try:
                    os.close(fd)
                except OSError:
                    pass
            for pid, ids in pids:
                if set(ids) & alive or blocked & set(ids):
                    os.kill(pid, signal.SIGKILL)
                _, st = os.waitpid(pid, 0)
                if os.WIFEXITED(st) and os.WEXITSTATUS(st) == DEATH:
                    self.dead.update(i for i in ids if i not in self.end or self.out.get(i) is None)
            disarm()
        return self

    def _advance(self, i, waiting, alive, blocked, clock, patience=2.0):
        """Wait until actor i is at its gate, ended, or is blocked by another one"""
        end = time.monotonic() + patience
        while True:
            left = end - time.monotonic()
            rd, _, _ = select.select([self.r[i]], [], [], max(0.0, left))
            if not rd:
                blocked.add(i)
                return
            c = os.read(self.r[i], 1 << 20)
            if not c:
                alive.discard(i), waiting.discard(i), blocked.discard(i)
                self.end.setdefault(i, clock)
                return
            b = self.buf[i]
            b += c
            # stream: 'g' = at the gate, 'm' + length + pickle = result
            while b:
                if b[:1] == b"g":
                    del b[:1]
                    blocked.discard(i)
                    waiting.add(i)
                elif b[:1] == b"m" and len(b) >= 9:
                    n = struct.unpack("<Q", bytes(b[1:9]))[0]
                    if len(b) < 9 + n:
                        break
                    self.out[i] = pickle.loads(bytes(b[9 : 9 + n]))
                    self.end[i] = clock
                    del b[: 9 + n]
                    blocked.discard(i)
                    alive.discard(i)
                    return
                else:
                    break
            if i in waiting:
                return

    def _actor(self, i, chan, fn):
        up, down = chan
        lib().dst_actor(i + 1, down[0], up[1])
        try:
            res = ("ok", fn())
        except BaseException:
            res = ("exc", traceback.format_exc())
        lib().dst_actor(i + 1, -1, -1)
        b = pickle.dumps(res, protocol=4)
        core._write_all(up[1], b"m" + struct.pack("<Q", len(b)) + b)


# --------------------------------------------------------------------------- drawing faults
WRITE_ERRS = [errno.ENOSPC, errno.EIO, errno.EDQUOT]
ERRS = {
    "open": [errno.EACCES, errno.EMFILE, errno.ENOSPC, errno.EIO],
    "read": [errno.EIO, errno.EIO],
    "write": WRITE_ERRS,
    "close": [errno.EIO, errno.ENOSPC],
    "fsync": [errno.EIO, errno.ENOSPC],
    "rename": [errno.EACCES, errno.ENOSPC, errno.EIO],
    "unlink": [errno.EACCES, errno.EIO],
    "truncate": [errno.EIO, errno.ENOSPC],
    "mkdir": [errno.ENOSPC, errno.EACCES],
    "rmdir": [errno.EACCES],
    "link": [errno.EACCES, errno.EPERM],
    "symlink": [errno.EACCES],
    "chmod": [errno.EPERM],
}


def pick_call(rng, recs, ops=None):
    """Index (1-based) of a call of the dry run, kinds of calls drawn equally often"""
    kinds = {}
    for i, r in enumerate(recs):
        if ops is None or NAMES[r.op] in ops:
            kinds.setdefault(NAMES[r.op], []).append(i + 1)
    if not kinds:
        return None, None
    k = rng.choice(sorted(kinds))
    c = kinds[k]
    return k, rng.choice([c[0], c[-1], rng.choice(c)])


def draw_io(rng, recs, ops=None, n=None, soft=0.25):
    """1 or 2 faults of a dry-run log: errors, short transfers, full disk"""
    out = []
    for _ in range(n or rng.choice([1, 1, 1, 2])):
        k, at = pick_call(rng, recs, ops)
        if k is None:
            break
        r = rng.random()
        if k in ("write", "read") and r < soft:
            f = {"at": at, "kind": SHORT, "arg": rng.choice([1, 250, 500, 999])}
        elif k in ("write", "read") and r < soft + 0.08:
            f = {"at": at, "kind": ERRNO, "arg": errno.EINTR}
        elif k == "write" and r < soft + 0.38:
            f = {"at": at, "kind": STICKY, "arg": rng.choice([1, 300, 700, 1000])}
        else:
            f = {"at": at, "kind": ERRNO, "arg": rng.choice(ERRS[k])}
        if len(out) == 0 or f["at"] != out[0]["at"]:
            out.append(f)
    return out


def draw_death(rng, recs):
    k, at = pick_call(rng, recs)
    if k is None:
        return None
    kinds = [EXIT_BEFORE, EXIT_AFTER] + ([EXIT_MID, EXIT_MID] if k == "write" else [])
    return {"at": at, "kind": rng.choice(kinds), "arg": rng.choice([1, 300, 500, 999])}


# --------------------------------------------------------------------------- trees on disk
def snapshot(root):
    """{relative path: ("f", bytes, mode) | ("d",) | ("l", target)}"""
    out = {}
    for d, dirs, files in os.walk(root):
        for n in sorted(dirs + files):
            p = os.path.join(d, n)
            rel = os.path.relpath(p, root)
            if os.path.islink(p):
                out[rel] = ("l", os.readlink(p))
            elif os.path.isdir(p):
                out[rel] = ("d",)
            elif os.path.isfile(p):
                with open(p, "rb") as f:
                    out[rel] = ("f", f.read(), stat.S_IMODE(os.stat(p).st_mode))
    return out


def restore(root, snap):
    """Make root hold exactly the snapshot"""
    empty(root)
    for rel in sorted(snap):
        e, p = snap[rel], os.path.join(root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if e[0] == "d":
            os.makedirs(p, exist_ok=True)
        elif e[0] == "l":
            os.symlink(e[1], p)
        else:
            with open(p, "wb") as f:
                f.write(e[1])
            os.chmod(p, e[2])


def empty(root):
    """Remove what is below a scratch directory of the simulator"""
    assert core.SCRATCH and os.path.realpath(root).startswith(os.path.realpath(core.SCRATCH) + "/"), root
    os.makedirs(root, exist_ok=True)
    for n in os.listdir(root):
        p = os.path.join(root, n)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p)
        else:
            os.unlink(p)


# --------------------------------------------------------------------------- power loss
class PowerLoss:
    """Persistence model over the log of one process.

    Directory entries persist in order: some prefix of the changes, at least up to the last fsync of
    a directory. The data of each file persist independently of them: everything up to the last fsync
    of that file, and of what came after nothing, a part, or all, with holes read as zeros.
    """

    def __init__(self, root, before, recs):
        self.root = os.path.realpath(root)
        self.inode, self.data0, self.mode = {}, {}, {}
        self.n = 0
        self.names0 = {}
        for rel, e in before.items():
            p = os.path.join(self.root, rel)
            if e[0] == "f":
                self.n += 1
                self.names0[p] = ("f", self.n)
                self.data0[self.n] = e[1]
                self.mode[self.n] = e[2]
            else:
                self.names0[p] = e
        self.recs = recs

    def _resolve(self, names, p, follow=True):
        """Path with directory links resolved (and the last component too if follow)"""
        for _ in range(40):
            parts, cur, again = p.strip("/").split("/"), "", False
            for i, c in enumerate(parts):
                cur += "/" + c
                e = names.get(cur)
                if e and e[0] == "l" and (follow or i < len(parts) - 1):
                    t = e[1] if e[1].startswith("/") else os.path.join(os.path.dirname(cur), e[1])
                    p = os.path.normpath(os.path.join(t, *parts[i + 1 :]))
                    again = True
                    break
            if not again:
                return p
        return p

    def state(self, k, rng):
        """A persistent state if the power is lost after the first k calls; also what kind of state"""
        names = dict(self.names0)  # volatile view
        meta = []  # directory changes in order: (fn on names)
        forced = 0
        writes, synced = {}, {}
        fds, n = {}, self.n
        for r in self.recs[:k]:
            op = NAMES[r.op]
            key = (r.who, r.fd)
            if op == "open" and r.res >= 0:
                p = self._resolve(names, r.path)
                e = names.get(p)
                if e is None or e[0] != "f":
                    if os.path.isdir(p) or e and e[0] == "d" or p == self.root:
                        fds[key] = ("dir", p)
                        continue
                    n += 1
                    e = ("f", n)
                    names[p] = e
                    meta.append(("set", p, e))
                    self.mode.setdefault(n, r.b & 0o777)
                elif r.a & os.O_TRUNC and r.a & 3:
                    writes.setdefault(e[1], []).append(("trunc", 0))
                fds[key] = ("file", e[1])
            elif op == "write" and r.res > 0 and key in fds and fds[key][0] == "file":
                writes.setdefault(fds[key][1], []).append(("write", r.a, r.data))
            elif op == "truncate" and r.res == 0:
                i = fds[key][1] if key in fds else (names.get(self._resolve(names, r.path)) or (0, 0))[1]
                writes.setdefault(i, []).append(("trunc", r.a))
            elif op == "fsync" and r.res == 0 and key in fds:
                if fds[key][0] == "file":
                    synced[fds[key][1]] = len(writes.get(fds[key][1], []))
                else:
                    forced = len(meta)
            elif op == "close":
                fds.pop(key, None)
            elif op == "rename" and r.res == 0:
                a, b = self._resolve(names, r.path, False), self._resolve(names, r.path2, False)
                e = names.pop(a, None)
                if e:
                    names[b] = e
                meta.append(("mv", a, b))
            elif op in ("unlink", "rmdir") and r.res == 0:
                a = self._resolve(names, r.path, False)
                names.pop(a, None)
                meta.append(("rm", a))
            elif op == "link" and r.res == 0:
                a, b = self._resolve(names, r.path, False), self._resolve(names, r.path2, False)
                if a in names:
                    names[b] = names[a]
                    meta.append(("set", b, names[a]))
            elif op == "mkdir" and r.res == 0:
                names[r.path] = ("d",)
                meta.append(("set", r.path, ("d",)))
            elif op == "symlink" and r.res == 0:
                names[r.path] = ("l", r.path2)
                meta.append(("set", r.path, ("l", r.path2)))
        # directory changes that made it
        upto = rng.choice([forced, len(meta), rng.randint(forced, len(meta))])
        disk = dict(self.names0)
        for m in meta[:upto]:
            if m[0] == "set":
                disk[m[1]] = m[2]
            elif m[0] == "mv":
                e = disk.pop(m[1], None)
                if e:
                    disk[m[2]] = e
            else:
                disk.pop(m[1], None)
        # data that made it
        content, lossy = {}, False
        for p, e in disk.items():
            if e[0] != "f" or e[1] in content:
                continue
            i = e[1]
            ws, s = writes.get(i, []), synced.get(i, 0)
            tail = ws[s:]
            how = rng.choice(["none", "all", "prefix", "some", "zeros", "cut"]) if tail else "all"
            keep = {"none": [], "all": tail, "prefix": tail[: rng.randint(0, len(tail))], "some": [w for w in tail if rng.random() < 0.5], "zeros": tail, "cut": tail}[how]
            b = _replay(self.data0.get(i, b""), ws[:s] + keep)
            if how == "zeros" and b:
                j = rng.randrange(len(b))
                b = b[:j] + b"\0" * min(512, len(b) - j) + b[j + 512 :]
            if how == "cut" and b:
                b = b[: rng.randrange(len(b))]
            lossy |= b != _replay(self.data0.get(i, b""), ws)
            content[i] = b
        snap = {}
        for p, e in disk.items():
            rel = os.path.relpath(p, self.root)
            snap[rel] = e if e[0] != "f" else ("f", content[e[1]], self.mode.get(e[1], 0o644))
        return snap, {"directory changes lost": len(meta) - upto, "data lost": lossy}


def _replay(b, ws):
    b = bytearray(b)
    for w in ws:
        if w[0] == "trunc":
            if len(b) > w[1]:
                del b[w[1] :]
            else:
                b += b"\0" * (w[1] - len(b))
        else:
            _, off, data = w
            if len(b) < off:
                b += b"\0" * (off - len(b))
            b[off : off + len(data)] = data
    return bytes(b)
