"""Runner: python -m dst.main <property> [--tier T] [--runs N] [--seconds S] [--workers W] [--replay FILE] [--seed-index I]

Exit 0: held; 1: violation (reproduced, replay file written); 2: the check itself failed.
"""
import argparse
import ctypes
import importlib
import json
import os
import pickle
import select
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SHIM = os.path.join(HERE, "build", "shim.so")
SHIM_PROPS = {"C08", "C09", "C10", "C11", "C12", "C13"}


def parse():
    p = argparse.ArgumentParser()
    p.add_argument("prop")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    p.add_argument("--runs", type=int)
    p.add_argument("--seconds", type=float)
    p.add_argument("--workers", type=int)
    p.add_argument("--replay")
    p.add_argument("--index", type=int, help="judge the single run of this index and print its result")
    p.add_argument("--dump", action="store_true", help="with --index: print the scenario")
    p.add_argument("--keep-going", action="store_true", help="do not stop at the first violation; print all classes")
    p.add_argument("--no-shrink", action="store_true")
    p.add_argument("--no-evidence", action="store_true")
    return p.parse_args()


def prepare_process():
    """Environment, import of the library from /repo's working tree"""
    scratch = tempfile.mkdtemp(prefix="scidst-")
    os.environ["MPLCONFIGDIR"] = os.path.join(HERE, "build", "mplconfig")
    os.environ["DST_SCRATCH"] = scratch
    os.environ["HOME"] = scratch
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(scratch, "pyc")  # never read stale byte code of /repo
    sys.path[:] = [HERE, REPO] + [q for q in sys.path if os.path.abspath(q or ".") not in (HERE, REPO)]
    from . import sched

    sched.install_locks()
    import SciDataTool

    if not os.path.abspath(SciDataTool.__file__).startswith(REPO + "/"):
        raise RuntimeError("SciDataTool not imported from /repo: " + SciDataTool.__file__)
    # everything the library imports lazily from third parties is loaded before the first fork
    import matplotlib.pyplot, scipy.integrate, scipy.interpolate, scipy.fft, sklearn.linear_model, csv, json, cloudpickle  # noqa
    import logging

    logging.getLogger("matplotlib").setLevel(logging.ERROR)  # missing fonts
    import matplotlib.backends.backend_agg, mpl_toolkits.mplot3d, PIL.Image, imageio, pandas, h5py  # noqa

    for mod in ("scipy.special", "matplotlib.animation"):
        importlib.import_module(mod)
    import pkgutil

    for m in pkgutil.walk_packages(SciDataTool.__path__, "SciDataTool."):  # no first-import effects inside runs
        if ".GUI" not in m.name and ".Generator" not in m.name:
            try:
                importlib.import_module(m.name)
            except Exception:
                pass
    import locale

    locale.getlocale()
    return scratch


# --------------------------------------------------------------------------- worker pool
def send(fd, obj):
    b = pickle.dumps(obj, protocol=4)
    data = memoryview(struct.pack("<Q", len(b)) + b)
    while data:
        n = os.write(fd, data)
        data = data[n:]


def worker(mod, w, nw, nruns, deadline, tier, seed, fd, scratch):
    from . import core

    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except Exception:
        pass
    mydir = os.path.join(scratch, "w%d" % w)
    os.makedirs(mydir, exist_ok=True)
    os.chdir(mydir)
    core.SCRATCH = mydir
    for i in range(w, nruns, nw):
        if time.monotonic() > deadline:
            break
        try:
            t0 = time.monotonic()
            sc, res = one(mod, i, tier, seed)
            if i % int(os.environ.get("DST_REPEAT", "40")) == 0:  # one seed = one execution: draw and run again, must be identical
                sc2, res2 = one(mod, i, tier, seed)
                if sc2 != sc or res2["digest"] != res["digest"]:
                    where = [(a, b) for a, b in zip(res["log"], res2["log"]) if a != b][:1] if sc2 == sc else "scenario"
                    raise core.HarnessError("run %d of seed %d is not repeatable: %s" % (i, seed, where))
                res["n"]["runs repeated and found identical"] = 1
            del res["log"]
            send(fd, ("res", i, res, sc if res["v"] else None, time.monotonic() - t0))
        except Exception:
            send(fd, ("err", i, traceback.format_exc()))
    send(fd, ("done", w))


def one(mod, i, tier, seed):
    from . import core

    sc = core.forkcall(mod.gen, core.derive(seed, mod.ID, i), tier)
    sc["property"] = mod.ID
    sc["seed"] = [seed, i]
    return sc, mod.judge(sc)


class Pool:
    def __init__(self, mod, nw, nruns, deadline, tier, seed, scratch):
        self.procs = {}
        for w in range(nw):
            r, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    for fd in self.procs:
                        os.close(fd)
                    os.close(r)
                    worker(mod, w, nw, nruns, deadline, tier, seed, wfd, scratch)
                except BaseException:
                    traceback.print_exc()
                    code = 3
                finally:
                    os._exit(code)
            os.close(wfd)
            self.procs[r] = [pid, bytearray()]

    def messages(self, hard):
        while self.procs:
            left = hard - time.monotonic()
            if left <= 0:
                yield ("err", -1, "workers did not finish in time")
                return
            rd, _, _ = select.select(list(self.procs), [], [], min(left, 5))
            for fd in rd:
                chunk = os.read(fd, 1 << 20)
                ent = self.procs[fd]
                if not chunk:
                    os.close(fd)
                    del self.procs[fd]
                    _, st = os.waitpid(ent[0], 0)
                    if st:
                        yield ("err", -1, "worker died with status %d" % st)
                    continue
                buf = ent[1]
                buf += chunk
                while len(buf) >= 8:
                    n = struct.unpack("<Q", bytes(buf[:8]))[0]
                    if len(buf) < 8 + n:
                        break
                    msg = pickle.loads(bytes(buf[8 : 8 + n]))
                    del buf[: 8 + n]
                    yield msg

    def kill(self):
        for fd, (pid, _) in list(self.procs.items()):
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(pid, 0)
            os.close(fd)
        self.procs = {}


# --------------------------------------------------------------------------- known findings
def known_findings(prop):
    out = []
    path = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line and not line.startswith("#"):
                    e = json.loads(line)
                    if e["property"] == prop and e.get("status") == "open":
                        out.append(e)
    return out


def is_known(v, known):
    return any(v.get("sig") == k["sig"] for k in known)


# --------------------------------------------------------------------------- minimise
def minimise(mod, sc, v, budget):
    """Greedy delta debugging; keeps the class of the violation"""
    from . import core

    end = time.monotonic() + budget
    best, bestv, tried, seen = sc, v, 0, set()
    progress = True
    while progress and time.monotonic() < end:
        progress = False
        for cand in mod.shrinks(best):
            if time.monotonic() > end:
                break
            key = json.dumps(cand, sort_keys=True)
            if key in seen:
                continue
            seen.add(key)
            tried += 1
            try:
                r = mod.judge(cand)
            except Exception:
                continue
            if r["v"] and r["v"]["cls"] == v["cls"]:
                best, bestv, progress = cand, r["v"], True
                break
    return best, bestv, tried


def write_replay(mod, sc, v):
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    sc = dict(sc)
    sc["expect"] = v
    path = os.path.join(HERE, "replays", "%s-%s-%s.json" % (mod.ID, sc["seed"][0], sc["seed"][1]))
    with open(path, "w") as f:
        json.dump(sc, f, indent=1)
    return path


def confirm(prop, path, n=2):
    """Replay in n fresh processes; number of those that reproduce the recorded violation"""
    good, out = 0, ""
    for _ in range(n):
        p = subprocess.run(["bash", os.path.join(HERE, "run.sh"), prop, "--replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        if p.returncode == 1 and "VIOLATION property=%s" % prop in p.stdout and "differs from the recorded" not in p.stdout:
            good += 1
        else:
            out = p.stdout
    return good, out


def settle(mod, found, no_shrink):
    """A reported violation must reproduce from its replay file in fresh processes.

    Candidates are tried in the order they were found, minimised first. Behaviour that depends on
    something outside the simulator (object addresses, say) may reproduce only sometimes; such a
    violation is reported only when no candidate reproduces always and one does repeatedly.
    """
    budget, notes, partial = 60.0, "", []
    for i, sc, v in found:
        t = time.monotonic()
        small, sv, tried = (sc, v, 0) if no_shrink or budget <= 0 else minimise(mod, sc, v, budget)
        budget -= time.monotonic() - t
        for cand, cv in ([(small, sv)] if small is sc else [(small, sv), (sc, v)]):
            path = write_replay(mod, cand, cv)
            good, out = confirm(mod.ID, path)
            if good == 2:
                return {"what": cv["what"], "replay": path, "run": i, "minimiser_judgements": tried}, ""
            notes = notes or out
            if good:
                partial.append((i, cand, cv, tried))
    for i, cand, cv, tried in partial[:2]:
        path = write_replay(mod, cand, cv)
        good, out = confirm(mod.ID, path, 6)
        if good >= 2:
            return {"what": cv["what"] + " [reproduced by %d of 6 replays]" % good, "replay": path, "run": i, "minimiser_judgements": tried}, ""
    return None, notes


def replay(mod, path, scratch):
    from . import core

    with open(path) as f:
        sc = json.load(f)
    exp = sc.pop("expect", None)
    core.SCRATCH = os.path.join(scratch, "r")
    os.makedirs(core.SCRATCH)
    os.chdir(core.SCRATCH)
    res = mod.judge(sc)
    if not res["v"]:
        print("no violation: the property held on this replay")
        return 0
    print("what: " + res["v"]["what"])
    if exp and exp.get("cls") != res["v"]["cls"]:
        print("note: violation class %r differs from the recorded %r" % (res["v"]["cls"], exp.get("cls")))
    print("VIOLATION property=%s replay=%s" % (mod.ID, path))
    return 1


# --------------------------------------------------------------------------- main
def main():
    args = parse()
    prop = args.prop
    if prop in SHIM_PROPS and SHIM not in os.environ.get("LD_PRELOAD", ""):
        env = dict(os.environ, LD_PRELOAD=SHIM)
        os.execve(sys.executable, [sys.executable, "-m", "dst.main"] + sys.argv[1:], env)
    t0 = time.monotonic()
    scratch = prepare_process()
    pid = os.getpid()
    try:
        code = run(args, prop, scratch, t0)
    finally:
        if os.getpid() == pid:
            os.chdir("/")
            if scratch.startswith(tempfile.gettempdir() + "/scidst-"):
                shutil.rmtree(scratch, ignore_errors=True)
    return code


def run(args, prop, scratch, t0):
    from . import core

    mod = importlib.import_module("dst.checks." + prop.lower())
    tier = args.tier
    try:
        seed = int(os.environ.get("VERIF_SEED") or 0)
    except ValueError:
        seed = core.derive(os.environ["VERIF_SEED"]) >> 1
    plan = mod.PLAN[tier]
    nruns = args.runs or plan["runs"]
    seconds = args.seconds or plan["seconds"]
    nw = args.workers or min(8, os.cpu_count() or 1)
    if args.replay:
        return replay(mod, os.path.abspath(args.replay), scratch)
    if args.index is not None:
        core.SCRATCH = scratch
        os.chdir(scratch)
        sc, res = one(mod, args.index, tier, seed)
        if args.dump:
            print(json.dumps(sc, indent=1))
        print(json.dumps({k: res[k] for k in ("v", "n", "faults", "digest")}, indent=1))
        return 1 if res["v"] else 0

    known = known_findings(prop)
    n_known = 0
    for k in known:  # listed findings still present are named, with their own scenario
        core.SCRATCH = scratch
        os.chdir(scratch)
        r = mod.judge(k["scenario"])
        if r["v"] and r["v"].get("sig") == k["sig"]:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
            n_known += 1

    deadline = time.monotonic() + seconds
    hard = deadline + 150
    pool = Pool(mod, nw, nruns, deadline, tier, seed, scratch)
    agg = Agg()
    found, classes, errors = [], {}, []
    deadline2 = hard
    for msg in pool.messages(hard):
        if time.monotonic() > deadline2:
            break
        if msg[0] == "res":
            _, i, res, sc, dt = msg
            agg.add(i, res, dt)
            if res["v"]:
                if is_known(res["v"], known):
                    agg.known += 1
                    continue
                if args.keep_going:
                    classes.setdefault(res["v"]["cls"], []).append((i, sc, res["v"]))
                    continue
                found.append((i, sc, res["v"]))
                if len(found) >= 5:
                    break
                deadline2 = min(deadline2, time.monotonic() + 8)  # a few more candidates, should this one not reproduce
        elif msg[0] == "err":
            errors.append(msg)
            if len(errors) > 20:
                break
    pool.kill()

    if args.keep_going:
        for c, l in sorted(classes.items(), key=lambda kv: -len(kv[1])):
            print("%4d x %s\n       run %d: %s" % (len(l), c, l[0][0], l[0][2]["what"][:300]))
    for e in errors[:3]:
        print("harness error in run %s:\n%s" % (e[1], e[2]), file=sys.stderr)

    vinfo = None
    if found:
        core.SCRATCH = scratch
        os.chdir(scratch)
        vinfo, notes = settle(mod, found, args.no_shrink)
        if vinfo:
            errors = []
            print("run %d (VERIF_SEED=%d): %s" % (vinfo["run"], seed, vinfo["what"]))
            print("VIOLATION property=%s replay=%s" % (prop, vinfo["replay"]))
        else:
            print("violation of run %d did not reproduce in a fresh process:\n%s\n%s" % (found[0][0], found[0][2]["what"], notes), file=sys.stderr)
            errors.append(("err", found[0][0], "not reproducible"))

    wall = time.monotonic() - t0
    minimum = args.runs or plan.get("min_runs", 1)
    compared, cases = agg.n.get("comparisons", 0), len(agg.sets.get("distinct", ()))
    short = not found and not args.runs and agg.runs < minimum
    if not args.no_evidence:
        write_evidence(mod, tier, seed, agg, wall, nw, vinfo, errors, n_known)
    if vinfo:
        return 1
    if errors or short:
        if short:
            print("only %d of at least %d runs executed" % (agg.runs, minimum), file=sys.stderr)
        return 2
    if args.keep_going and classes:
        return 1
    if not compared:
        print("nothing was compared", file=sys.stderr)
        return 2
    print("%s %s: %d runs, %d comparisons, %d distinct cases, %.0f s: held" % (prop, tier, agg.runs, compared, cases, wall))
    return 0


class Agg:
    def __init__(self):
        self.runs, self.n, self.faults, self.sets, self.samples = 0, {}, {}, {}, []
        self.busy, self.known = 0.0, 0

    def add(self, i, res, dt):
        self.runs += 1
        self.busy += dt
        for k, v in res["n"].items():
            self.n[k] = self.n.get(k, 0) + v
        for k, v in res["faults"].items():
            self.faults[k] = self.faults.get(k, 0) + v
        for k, v in res["sets"].items():
            self.sets.setdefault(k, set()).update(v)
        if res.get("sample") and (len(self.samples) < 6 and (i % 7 == 3 or i < 3)):
            self.samples.append("run %d: %s" % (i, res["sample"]))


def write_evidence(mod, tier, seed, agg, wall, nw, vinfo, errors, n_known):
    cov = {
        "evaluations": agg.n.pop("comparisons", 0),
        "distinct_nontrivial": len(agg.sets.pop("distinct", ())),
        "rule": mod.RULE,
        "samples": agg.samples,
        "simulated_runs": agg.runs,
        "seeds": {"VERIF_SEED": seed, "run_indices": agg.runs},
        "runs_per_hour": round(agg.runs / max(wall, 1e-9) * 3600),
        "simulated_time": {
            "unit": "traced library steps / simulated operations (the library has no clock; logical time only)",
            "operations": agg.n.pop("operations", 0),
            "library_steps": agg.n.pop("library steps", 0),
        },
        "faults_injected": dict(sorted(agg.faults.items())),
        "distinct": {k: len(v) for k, v in sorted(agg.sets.items())},
        "counts": dict(sorted(agg.n.items())),
        "components": mod.COMPONENTS,
        "workers": nw,
        "known_findings_reproduced": n_known,
        "harness_errors": len(errors),
    }
    ev = {
        "property": mod.ID,
        "tier": tier,
        "seed": seed,
        "level": mod.LEVEL,
        "coverage": cov,
        "assumptions": list(mod.ASSUME),
        "wall_s": round(wall, 2),
        "violations": 1 if vinfo else 0,
    }
    if vinfo:
        ev["violation"] = vinfo
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", mod.ID + ".json")
    tmp = path + ".%d" % os.getpid()
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, path)


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
