"""Fork server: one process per simulated run, aggregation, minimisation, replay, evidence."""
import gc
import hashlib
import importlib
import json
import mmap
import os
import pickle
import random
import select
import signal
import struct
import sys
import time
import traceback
import resource
import zlib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

from . import boot, engine, world  # noqa: E402

now = engine.real_mono

CHILD_WALL = 20.0
CHILD_AS = 1 << 30


def seed_for(base, prop, idx, salt=""):
    h = hashlib.sha256(("%s:%s:%s:%s" % (base, prop, idx, salt)).encode()).digest()
    return int.from_bytes(h[:8], "big")


class HarnessError(Exception):
    pass


class Prop:
    def __init__(self, mod):
        self.mod = mod
        self.id = mod.ID
        self.prof = None

    def make(self, base, idx):
        rng = random.Random(seed_for(base, self.id, idx))
        sc = self.mod.make(rng, idx, self.prof)
        sc["prop"] = self.id
        sc["seed"] = rng.getrandbits(48)
        return sc


# ------------------------------------------------------------------ one run, in a child
def execute(prop, sc, on_abort=None):
    """runs in the current process; returns result dict"""
    ctx = world.Ctx(sc, random.Random(sc["seed"]))
    random.seed(sc["seed"])  # should the code under test use it

    def result():
        s = ctx.sim
        r = {"viol": ctx.viol, "stats": ctx.stats}
        if s is not None:
            r["steps"], r["switches"], r["sig"] = s.steps, s.switches, s.sig
            r["locks"], r["contended"], r["clock_reads"] = s.lock_ops, s.contended, s.clock_reads
            r["pos"] = [zlib.crc32(("%s@%d" % p).encode()) for p in s.pos_seen]
            r["trace"] = s.trace
            r["fired"] = s.fired
        r["steps"] = r.get("steps", 0) + ctx.stats.get("_steps", 0)
        d = 0
        ev = []
        for who, op, inv, ret, out in ctx.hist:
            line = "%s %s [%d,%d] %s" % (who, world.describe(op), inv, ret, out.brief() if hasattr(out, "brief") else out)
            ev.append(line)
            d = zlib.crc32(line.encode("utf8", "replace"), d)
        for l in ctx.log:
            d = zlib.crc32(l.encode("utf8", "replace"), d)
        r["digest"] = d
        r["events"] = ev if ctx.viol else None
        r["shape"] = zlib.crc32(repr(ctx.stats.get("_shape", "")).encode(), d)
        ctx.stats.pop("_shape", None)
        ctx.stats.pop("_steps", None)
        return r

    if on_abort is not None:
        ctx.on_abort = lambda: on_abort(result())
    try:
        prop.mod.run(ctx)
    except world.Violation:
        pass
    finally:
        if ctx.sim is not None:
            ctx.sim.uninstrument()
    return result()


def child_main(fd, prop, job):
    def send(obj):
        b = pickle.dumps(obj)
        b = struct.pack("<Q", len(b)) + b
        while b:
            n = os.write(fd, b)
            b = b[n:]

    code = 0
    try:
        resource.setrlimit(resource.RLIMIT_AS, (CHILD_AS, CHILD_AS))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

        def on_abort(res):
            res["sc"] = sc
            send(("res", res))
            os._exit(0)

        kind = job[0]
        if kind == "idx":
            sc = prop.make(job[1], job[2])
        else:
            sc = job[1]
        res = execute(prop, sc, on_abort)
        if not res["viol"]:
            if kind != "sc":
                res["trace"] = None
        else:
            res["sc"] = sc
        if kind == "idx" and job[2] % 997 == 0 or kind == "sample":
            res["sample"] = sc
        send(("res", res))
    except BaseException:
        try:
            send(("exc", traceback.format_exc()))
        except BaseException:
            code = 3
    os._exit(code)


def in_child(prop, job, wall=CHILD_WALL, main=child_main):
    """-> ("res", r) | ("exc", text) | ("timeout",) | ("crash", status)"""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        try:
            main(wfd, prop, job)
        finally:
            os._exit(4)
    os.close(wfd)
    buf = bytearray()
    deadline = now() + wall
    need = None
    timed = False
    while True:
        left = deadline - now()
        if left <= 0:
            timed = True
            break
        r, _, _ = select.select([rfd], [], [], left)
        if not r:
            timed = True
            break
        b = os.read(rfd, 1 << 20)
        if not b:
            break
        buf += b
        if need is None and len(buf) >= 8:
            need = 8 + struct.unpack("<Q", buf[:8])[0]
        if need is not None and len(buf) >= need:
            break
    os.close(rfd)
    if timed:
        os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    if timed:
        return ("timeout",)
    if need is not None and len(buf) >= need:
        return pickle.loads(bytes(buf[8:need]))
    return ("crash", st)


def run_job(prop, job):
    """in_child plus classification of hangs and crashes; returns result dict"""
    r = in_child(prop, job)
    if r[0] in ("timeout", "crash"):
        # again, alone and with a longer limit, before believing it
        r2 = in_child(prop, job, wall=90.0)
        if r2[0] == "res":
            r = r2
        elif r2[0] == "exc":
            r = r2
        else:
            sc = job[1] if job[0] != "idx" else prop.make(job[1], job[2])
            kind = "hang" if r2[0] == "timeout" else "crash"
            return {"viol": (kind, "the run %s" % ("did not end within 90 s" if kind == "hang" else
                                                  "ended the process: wait status %r" % (r2[1],))),
                    "stats": {}, "sc": sc, "trace": [], "digest": 0, "events": [], "shape": 0, "steps": 0}
    if r[0] == "exc":
        raise HarnessError(r[1])
    return r[1]


# ------------------------------------------------------------------ profile
def profile(prop, base, n=24):
    """code objects executed by this property's workload (breakpoint candidates)"""
    M = sys.monitoring

    def pmain(fd, prop, job):
        seen = set()
        try:
            resource.setrlimit(resource.RLIMIT_AS, (CHILD_AS, CHILD_AS))
            M.use_tool_id(4, "prof")
            keys = {c: k for k, c in boot.CODES.items()}

            def cb(code, off):
                k = keys.get(code)
                if k:
                    seen.add(k)
                return M.DISABLE

            M.register_callback(4, M.events.PY_START, cb)
            for c in boot.CODES.values():
                M.set_local_events(4, c, M.events.PY_START)
            sc = prop.make(base, job[1])
            sc["sched"] = {"mode": "none"}
            execute(prop, sc)
        except BaseException:
            pass
        b = pickle.dumps(("res", seen))
        os.write(fd, struct.pack("<Q", len(b)) + b)
        os._exit(0)

    allk = set()
    t0 = now()
    for i in range(n):
        if now() - t0 > 30:  # enough is known
            break
        r = in_child(prop, ("p", -1 - i), wall=6.0, main=pmain)
        if r[0] == "res":
            allk |= r[1]
    return sorted(k for k in allk if not k.startswith("custom.py:hook") and not k.endswith("<module>"))


# ------------------------------------------------------------------ workers
class Agg:
    def __init__(self):
        self.runs = 0
        self.steps = 0
        self.switches = 0
        self.locks = 0
        self.contended = 0
        self.clock_reads = 0
        self.stats = {}
        self.sigs = set()
        self.shapes = set()
        self.pos = set()
        self.fired = {}
        self.samples = []
        self.nontrivial = 0
        self.digests = {}
        self.viol = None  # (idx, result)

    def add(self, idx, r):
        self.runs += 1
        self.steps += r.get("steps", 0)
        self.switches += r.get("switches", 0)
        self.locks += r.get("locks", 0)
        self.contended += r.get("contended", 0)
        self.clock_reads += r.get("clock_reads", 0)
        for k, v in r["stats"].items():
            self.stats[k] = self.stats.get(k, 0) + v
        for f in r.get("fired") or ():
            self.fired[f] = self.fired.get(f, 0) + 1
        nt = bool(r.get("switches") or r.get("fired") or r["stats"].get("nontrivial"))
        self.nontrivial += nt
        if nt:
            self.sigs.add(r["shape"] ^ (r.get("sig", 0) << 32))
        for p in r.get("pos") or ():
            self.pos.add(p)
        if r.get("sample") is not None and len(self.samples) < 2:
            self.samples.append(r["sample"])
        if idx < 64:
            self.digests[idx] = (r["digest"], r.get("sig", 0))

    def merge(self, o):
        for k in ("runs", "steps", "switches", "locks", "contended", "clock_reads", "nontrivial"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        for k, v in o.stats.items():
            self.stats[k] = self.stats.get(k, 0) + v
        for k, v in o.fired.items():
            self.fired[k] = self.fired.get(k, 0) + v
        self.sigs |= o.sigs
        self.pos |= o.pos
        self.samples += o.samples
        self.digests.update(o.digests)
        if o.viol and (self.viol is None or o.viol[0] < self.viol[0]):
            self.viol = o.viol


def worker(w, jobs, prop, base, n, stop, deadline, start=0):
    agg = Agg()
    err = None
    nerr = 0
    i = start + w
    try:
        while i < n:
            if i > struct.unpack("<q", stop[0:8])[0]:
                break
            if now() > deadline:
                agg.stats["cut_by_wall"] = 1
                break
            try:
                r = run_job(prop, ("idx", base, i))
            except HarnessError as e:  # goes on: a violation elsewhere is still worth finding
                err = err or "run %d: %s" % (i, e)
                nerr += 1
                if nerr > 20:
                    break
                i += jobs
                continue
            agg.add(i, r)
            if r["viol"]:
                agg.viol = (i, r)
                cur = struct.unpack("<q", stop[0:8])[0]
                if i < cur:
                    stop[0:8] = struct.pack("<q", i)
                break
            i += jobs
    except BaseException:
        err = "run %d: %s" % (i, traceback.format_exc())
        stop[0:8] = struct.pack("<q", -1)
    return agg, err


def sweep(prop, base, n, jobs, wall):
    stop = mmap.mmap(-1, 8)
    stop[0:8] = struct.pack("<q", 1 << 60)
    deadline = now() + wall
    procs = []
    gc.collect()
    gc.freeze()
    for w in range(jobs):
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rfd)
            try:
                b = pickle.dumps(worker(w, jobs, prop, base, n, stop, deadline))
                while b:
                    k = os.write(wfd, b)
                    b = b[k:]
            finally:
                os._exit(0)
        os.close(wfd)
        procs.append((pid, rfd))
    agg = Agg()
    errs = []
    for pid, rfd in procs:
        buf = bytearray()
        while True:
            b = os.read(rfd, 1 << 20)
            if not b:
                break
            buf += b
        os.close(rfd)
        os.waitpid(pid, 0)
        try:
            a, e = pickle.loads(bytes(buf))
        except Exception:
            errs.append("worker died")
            continue
        agg.merge(a)
        if e:
            errs.append(e)
    return agg, errs


# ------------------------------------------------------------------ minimisation
def with_explicit(sc, trace):
    sc = json.loads(json.dumps(sc))
    sc["sched"] = {"mode": "explicit", "sw": trace}
    return sc


def _lists(sc):
    out = []
    for k in ("setup", "ops", "finale"):
        if isinstance(sc.get(k), list):
            out.append((k, None))
    for i, _ in enumerate(sc.get("threads") or ()):
        out.append(("threads", i))
    if (sc.get("sched") or {}).get("sw"):
        out.append(("sw", None))
    return out


def _get(sc, loc):
    k, i = loc
    if k == "sw":
        return sc["sched"]["sw"]
    return sc[k] if i is None else sc[k][i]


def _set(sc, loc, v):
    sc = dict(sc)
    k, i = loc
    if k == "sw":
        sc["sched"] = dict(sc["sched"], sw=v)
    elif i is None:
        sc[k] = v
    else:
        sc[k] = list(sc[k])
        sc[k][i] = v
    return sc


def minimise(prop, sc, res, budget=45.0):
    t0 = now()
    cls = res["viol"][0]
    tries = [0]

    def test(s):
        tries[0] += 1
        r = in_child(prop, ("sc", s), wall=30.0)
        if r[0] == "res" and r[1]["viol"] and r[1]["viol"][0] == cls:
            return r[1]
        return None

    best, bres = sc, res
    if (sc.get("sched") or {}).get("mode") == "walk":
        # repeat the same run with exact switch positions recorded
        r = test(dict(sc, sched=dict(sc["sched"], rec=True)))
        if r:
            res = r
    if (sc.get("sched") or {}).get("mode") not in (None, "none") and res.get("trace"):
        s = with_explicit(sc, res["trace"])
        r = test(s)
        if r:
            best, bres = s, r
    changed = True
    while changed and now() - t0 < budget:
        changed = False
        for loc in _lists(best):
            cur = _get(best, loc)
            size = max(1, len(cur) // 2)
            while cur and size >= 1 and now() - t0 < budget:
                i = 0
                while i < len(cur) and now() - t0 < budget:
                    cand = cur[:i] + cur[i + size:]
                    s = _set(best, loc, cand)
                    r = test(s)
                    if r:
                        best, bres, cur = s, r, cand
                        changed = True
                    else:
                        i += size
                size //= 2
    f = getattr(prop.mod, "shrink", None)
    if f:
        progress = True
        while progress and now() - t0 < budget:
            progress = False
            for s in f(best):
                if now() - t0 > budget:
                    break
                r = test(s)
                if r:
                    best, bres, progress = s, r, True
                    break
    return best, bres, tries[0]


def repo_state():
    try:
        h = hashlib.sha256()
        for d, _, fs in sorted(os.walk(os.path.join(boot.REPO, "eth_abi"))):
            for f in sorted(fs):
                if f.endswith(".py"):
                    with open(os.path.join(d, f), "rb") as fh:
                        h.update(f.encode() + fh.read())
        return h.hexdigest()[:16]
    except OSError:
        return "?"


def load_prop(pid):
    return Prop(importlib.import_module("sim.props." + pid.lower()))
