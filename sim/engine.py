"""Deterministic simulator: threads, locks, clock, fault injection.

Real OS threads are used only as coroutines: exactly one of them is ever unparked, and the
seeded scheduler alone decides which.  Decisions are taken at bytecode instructions of the
code under test (sys.monitoring INSTRUCTION events), at ends of operations and at lock
operations.  Asynchronous exceptions and nested calls are delivered only at points where
CPython itself can run pending calls: function entry, generator resumption, backward jumps and
returns from C functions.
"""
import decimal
import sys
import time as _time
import threading as _threading
import _thread

M = sys.monitoring
EV = M.events
_SETCTX = decimal.setcontext
TOOL = 3
_alloc = _thread.allocate_lock
_ident = _thread.get_ident

SIM = None  # the active simulation of this process, if any


class RunAbort(BaseException):
    """raised to unwind a simulated thread when the run has been decided"""


# ----------------------------------------------------------------- locks, clock (seams)
class SimLock:
    """Stands in for threading.Lock / RLock in code imported after install_seams()."""

    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0
        self.misses = 0

    def _me(self):
        s = SIM
        return "main" if s is None or s.cur is None else s.cur

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        waited = False
        while True:
            if self.owner is None:
                self.owner, self.count = me, 1
                self.misses = 0
                if SIM is not None:
                    SIM.lock_ops += 1
                return True
            if self.owner == me and self.reentrant:
                self.count += 1
                return True
            s = SIM
            if not blocking or (timeout is not None and timeout >= 0):
                if s is None or s.cur is None or waited:
                    return False
                if blocking:  # the others run, time passes
                    s.clock += timeout
                    waited = True
                    s.voluntary_yield()
                    continue
                self.misses += 1
                if self.misses % 8 == 0:
                    s.voluntary_yield()  # whoever polls gives the owner a chance
                return False
            if s is None or s.cur is None:
                if s is not None:
                    s.abort("deadlock", "thread waits for a lock that can never be released")
                raise RuntimeError("deadlock")
            s.block_on(self)

    def release(self):
        if self.owner is None or (self.reentrant and self.owner != self._me()):
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None
            if SIM is not None:
                SIM.unblock(self)

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    # used by threading.Condition and after fork
    def _is_owned(self):
        return self.owner == self._me()

    def _at_fork_reinit(self):
        self.__init__()


class SimRLock(SimLock):
    reentrant = True

    def _release_save(self):
        st = self.count
        self.count = 1
        self.release()
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self.count = st


def _mk_clock(name, scale):
    real = getattr(_time, name)

    def clock():
        s = SIM
        if s is None:
            return real()
        s.clock_reads += 1
        v = s.clock + (s.skew if name.startswith("time") else 0.0)
        return int(v * 1e9) if scale else v

    clock.__name__ = name
    return clock


def _sim_sleep(sec):
    s = SIM
    if s is None:
        return _real_sleep(sec)
    s.clock += max(0.0, sec)
    s.voluntary_yield()


_real_sleep = _time.sleep
real_time = _time.time
real_mono = _time.monotonic


def install_seams():
    """Call before importing the code under test."""
    _threading.Lock = SimLock
    _threading.RLock = SimRLock
    _threading._RLock = SimRLock
    _threading._allocate_lock = SimLock  # Condition, Event, Semaphore, Barrier
    for n in ("time", "monotonic", "perf_counter"):
        setattr(_time, n, _mk_clock(n, False))
    for n in ("time_ns", "monotonic_ns", "perf_counter_ns"):
        setattr(_time, n, _mk_clock(n, True))
    _time.sleep = _sim_sleep


# ----------------------------------------------------------------- simulation
class Sim:
    """sched: dict
      {"mode": "none"}                          threads run one after another
      {"mode": "walk", "mean": m, "pb": p}      preempt every ~m instructions; p at op ends
      {"mode": "loc", "bps": n, "pb": p}        preempt at n random code locations
      {"mode": "loc", "fns": n, "pf": p}        preempt anywhere in n random functions
      {"mode": "explicit", "sw": [...]}         replay
    """

    MAX_STEPS = 20_000_000  # without any operation being completed

    def __init__(self, codes, sched, rng):
        global SIM
        self.codes = codes  # codekey -> code
        self.keys = {c: k for k, c in codes.items()}
        self.sched = sched
        self.rng = rng
        self.cur = None
        self.n = 0
        self.trace = []
        self.steps = 0
        self.progress = 0
        self.switches = 0
        self.seq = 0
        self.clock = 1_700_000_000.0
        self.clk = None
        self.skew = 0.0
        self.clock_reads = 0
        self.lock_ops = 0
        self.contended = 0
        self.points = 0
        self.fired = []  # faults that actually fired
        self.aborted = None
        self.armed = {}
        self.cur_uid = {}
        self.hits = {}
        self.threads_done = []
        self.sig = 0
        self.pos_seen = set()
        self.count_limit = None
        SIM = self
        self._tool = False

    # -- instrumentation
    def instrument(self, points=False, count=False):
        mode = self.sched["mode"]
        if not self._tool:
            M.use_tool_id(TOOL, "ethabi-sim")
            self._tool = True
        ev = {}
        if count:
            # every loop iteration, call and generator resumption is one step
            for c in self.codes.values():
                ev[c] = EV.PY_START | EV.PY_RESUME | EV.JUMP
            M.register_callback(TOOL, EV.PY_START, self._on_count)
            M.register_callback(TOOL, EV.PY_RESUME, self._on_count)
            M.register_callback(TOOL, EV.JUMP, self._on_count)
        elif mode == "walk":
            for c in self.codes.values():
                ev[c] = EV.INSTRUCTION
            self.countdown = self._next_gap()
            M.register_callback(TOOL, EV.INSTRUCTION, self._on_walk if self.sched.get("rec") else self._fast_walk())
        elif mode == "loc":
            self.bps = {}
            ks = self.sched.get("keys")
            if ks is None:
                ks = sorted(self.codes)
            for _ in range(self.sched.get("fns", 0)):  # every instruction of a few functions
                c = self.codes[ks[self.rng.randrange(len(ks))]]
                self.bps[c] = dict.fromkeys(offsets(c), self.sched.get("reps", 3))
                ev[c] = EV.INSTRUCTION
            for _ in range(self.sched["bps"]):
                k = ks[self.rng.randrange(len(ks))]
                c = self.codes[k]
                offs = offsets(c)
                off = offs[self.rng.randrange(len(offs))]
                self.bps.setdefault(c, {})[off] = self.sched.get("reps", 3)
                ev[c] = EV.INSTRUCTION
            M.register_callback(TOOL, EV.INSTRUCTION, self._on_loc)
        elif mode == "explicit":
            self.table = {}
            for s in self.sched["sw"]:
                if s[0] == "i":
                    _, t, uid, key, off, nth, to = s
                    c = self.codes.get(key)
                    if c is None:
                        continue
                    self.table.setdefault(c, {})[(t, uid, off, nth)] = to
                    ev[c] = EV.INSTRUCTION
            self.btable = {(s[1], s[2]): s[3] for s in self.sched["sw"] if s[0] == "b"}
            M.register_callback(TOOL, EV.INSTRUCTION, self._on_explicit)
        if points:
            pe = EV.PY_START | EV.PY_RESUME | EV.JUMP | EV.CALL
            for c in self.codes.values():
                ev[c] = ev.get(c, 0) | pe
            M.register_callback(TOOL, EV.PY_START, self._on_point2)
            M.register_callback(TOOL, EV.PY_RESUME, self._on_point2)
            M.register_callback(TOOL, EV.JUMP, self._on_jump)
            M.register_callback(TOOL, EV.C_RETURN, self._on_cret)
            M.register_callback(TOOL, EV.CALL, self._on_call)
        for c, e in ev.items():
            M.set_local_events(TOOL, c, e)
        self._ev = list(ev)

    def uninstrument(self):
        if self._tool:
            for c in self._ev:
                M.set_local_events(TOOL, c, 0)
            M.free_tool_id(TOOL)
            self._tool = False

    # -- scheduling
    def _next_gap(self):
        return 1 + int(self.rng.expovariate(1.0 / self.sched["mean"]))

    def _runnable(self):
        return [i for i in range(self.n) if not self.done[i] and self.blocked[i] is None]

    def _hit(self, code, off):
        h = self.hits[self.cur]
        k = (code, off)
        n = h.get(k, 0) + 1
        h[k] = n
        return n

    def _on_walk(self, code, off):
        self.steps += 1
        t = self.cur
        k = (code, off)
        if t is not None:
            h = self.hits[t]
            h[k] = h.get(k, 0) + 1
        self.countdown -= 1
        if self.countdown > 0:
            return
        if self.steps - self.progress > self.MAX_STEPS:
            self.abort("budget", "no progress within %d simulated steps" % self.MAX_STEPS)
        self.countdown = self._next_gap()
        if t is None:
            return
        self._preempt(code, off, h[k])

    def _fast_walk(self):
        """same decisions as _on_walk, without the per-location counts a replay file needs"""
        left = self.countdown
        gap = self.countdown

        def cb(code, off):
            nonlocal left, gap
            left -= 1
            if left > 0:
                return
            self.steps += gap
            if self.steps - self.progress > self.MAX_STEPS:
                self.abort("budget", "no progress within %d simulated steps" % self.MAX_STEPS)
            t = self.cur
            left = gap = self._next_gap()
            if t is None:
                return
            self._preempt(code, off, 0)

        return cb

    def _on_loc(self, code, off):
        t = self.cur
        if t is None:
            return
        self.steps += 1
        n = self._hit(code, off)
        b = self.bps[code]
        left = b.get(off)
        if left and self.rng.random() < self.sched.get("pf", 0.7):
            b[off] = left - 1
            self._preempt(code, off, n)

    def _on_explicit(self, code, off):
        t = self.cur
        if t is None:
            return
        self.steps += 1
        n = self._hit(code, off)
        to = self.table.get(code, {}).get((t, self.cur_uid.get(t), off, n))
        if to is not None and to != t and to < self.n and not self.done[to] and self.blocked[to] is None:
            self._record(code, off, n, to)
            self._switch(to)

    def _preempt(self, code, off, nth):
        r = [i for i in self._runnable() if i != self.cur]
        if not r:
            return
        to = r[self.rng.randrange(len(r))]
        self._record(code, off, nth, to)
        self._switch(to)

    def _record(self, code, off, nth, to):
        key = self.keys[code]
        self.trace.append(["i", self.cur, self.cur_uid.get(self.cur), key, off, nth, to])
        self.pos_seen.add((key, off))
        self.sig = hash_mix(self.sig, (self.cur, key, off, to))

    def _on_count(self, code, off, dest=None):
        self.steps += 1
        if self.count_limit is not None and self.steps > self.count_limit:
            self.count_limit = None
            self.abort("budget", "call exceeded its budget of simulated steps")

    def _switch(self, to):
        me = self.cur
        self.cur = to
        self.switches += 1
        self.locks[to].release()
        if me is not None:
            self.locks[me].acquire()
            self.cur = me
            if self.aborted:
                raise RunAbort()

    def voluntary_yield(self):
        if self.cur is None:
            return
        r = [i for i in self._runnable() if i != self.cur]
        if r:
            to = min(r, key=lambda i: (i - self.cur) % self.n)
            self._switch(to)

    def block_on(self, lock):
        me = self.cur
        self.contended += 1
        self.blocked[me] = lock
        r = self._runnable()
        if not r:
            self.abort("deadlock", "all threads blocked on locks")
        self._switch(min(r, key=lambda i: (i - me) % self.n))

    def unblock(self, lock):
        if self.n:
            for i in range(self.n):
                if self.blocked[i] is lock:
                    self.blocked[i] = None

    def abort(self, kind, msg):
        if not self.aborted:
            self.aborted = (kind, msg)
        self.on_abort(kind, msg)
        raise RunAbort()

    def on_abort(self, kind, msg):  # replaced by the runner: reports and ends the process
        pass

    # -- operations
    def op_begin(self, uid):
        t = self.cur
        if self.clk is not None:  # time passes, and the wall clock may be set back, between operations
            self.clock += self.clk.choice((0.0, 0.0, 0.001, 0.5, 2.0, 61.0, 3601.0, 90000.0))
            if self.clk.random() < 0.1:
                self.skew += self.clk.choice((-5.0, -3600.0, 7200.0))
        self.cur_uid[t] = uid
        self.seq += 1
        self.hits[t] = {}
        return self.seq

    def op_end(self, uid):
        self.seq += 1
        self.progress = self.steps
        s = self.seq
        return s

    def boundary(self, uid):
        """possible switch between operations"""
        t = self.cur
        if t is None or self.n < 2:
            return
        mode = self.sched["mode"]
        if mode in ("walk", "loc"):
            if self.rng.random() < self.sched.get("pb", 0.4):
                r = [i for i in self._runnable() if i != t]
                if r:
                    to = r[self.rng.randrange(len(r))]
                    self.trace.append(["b", t, uid, to])
                    self.sig = hash_mix(self.sig, (t, "b", to))
                    self._switch(to)
        elif mode == "explicit":
            to = self.btable.get((t, uid))
            if to is not None and to != t and to < self.n and not self.done[to] and self.blocked[to] is None:
                self.trace.append(["b", t, uid, to])
                self._switch(to)

    # -- asynchronous events inside calls
    def arm(self, n, action, loc=None):
        """deliver `action` at the n-th deliverable point of the current operation"""
        self.armed[self.cur] = [n, action, loc]

    def disarm(self):
        a = self.armed.pop(self.cur, None)
        return a is not None

    def _point(self, code):
        a = self.armed.get(self.cur)
        if a is None:
            if self.count_points:
                self.points += 1
            return
        self.points += 1
        if a[2] is not None and self.keys.get(code) != a[2]:
            return
        a[0] -= 1
        if a[0] <= 0:
            if in_cleanup():
                a[0] = 1
                return  # delivered at the next point instead
            del self.armed[self.cur]
            self.fire_key = self.keys.get(code)
            a[1]()

    count_points = False
    fire_key = None

    def _on_point2(self, code, off):
        self._point(code)

    def _on_jump(self, code, off, dest):
        if dest <= off:
            self._point(code)

    def _on_call(self, code, off, fn, arg0):
        # entering a python function outside the library (one inside reports its own start)
        if type(fn) is _METH:
            fn = fn.__func__
        if type(fn) is _FUNC and fn.__code__ not in self.keys and fn.__code__.co_filename != __file__:
            self._point(code)

    def _on_cret(self, code, off, fn, arg0):
        if fn is _SETCTX:
            return  # no python code can guard the instant after setcontext() returns
        self._point(code)

    # -- run
    def run_threads(self, bodies):
        self.n = len(bodies)
        self.done = [False] * self.n
        self.blocked = [None] * self.n
        self.locks = [_alloc() for _ in bodies]
        self.hits = {i: {} for i in range(self.n)}
        main = _alloc()
        main.acquire()
        self.errors = []
        for lk in self.locks:
            lk.acquire()

        def th(i, body):
            self.locks[i].acquire()
            try:
                if not self.aborted:
                    self.cur = i
                    body()
            except RunAbort:
                pass
            except BaseException as e:  # harness error
                self.errors.append(e)
            self.done[i] = True
            r = self._runnable()
            if self.aborted:
                main.release()
                return
            if r:
                to = min(r, key=lambda j: (j - i) % self.n)
                self.cur = to
                self.locks[to].release()
            elif all(self.done):
                self.cur = None
                main.release()
            else:
                self.aborted = ("deadlock", "finished thread left others blocked")
                try:
                    self.on_abort(*self.aborted)
                finally:
                    main.release()

        for i, b in enumerate(bodies):
            _thread.start_new_thread(th, (i, b))
        if self.n:
            self.cur = 0
            self.locks[0].release()
            main.acquire()
        self.cur = None
        self.n = 0
        if self.errors:
            raise self.errors[0]


class _Any:
    def m(self):
        pass


_FUNC, _METH = type(_Any.m), type(_Any().m)


def hash_mix(h, x):
    # deterministic (no str hashing): fold repr bytes
    import zlib

    return zlib.crc32(repr(x).encode(), h)


# ----------------------------------------------------------------- cleanup code
# Python offers no way to guard a `finally:` or a catch-all handler against one more asynchronous
# exception, so none is delivered while such code runs.
_CLEAN = {}
SHIELD = ()  # path prefixes of the code under test


def _clean_lines(fn):
    r = _CLEAN.get(fn)
    if r is None:
        import ast

        r = set()
        try:
            with open(fn, encoding="utf-8") as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError):
            tree = ast.Module([], [])
        for n in ast.walk(tree):
            body = []
            if isinstance(n, ast.Try):
                body = list(n.finalbody)
                for h in n.handlers:
                    if h.type is None or getattr(h.type, "id", "") == "BaseException":
                        body += h.body
            elif isinstance(n, ast.FunctionDef) and n.name == "__exit__":
                body = n.body
            for b in body:
                r.update(range(b.lineno, b.end_lineno + 1))
        _CLEAN[fn] = r
    return r


def in_cleanup():
    f = sys._getframe(2)
    while f is not None:
        fn = f.f_code.co_filename
        if fn.startswith(SHIELD) and f.f_lineno in _clean_lines(fn):
            return True
        f = f.f_back
    return False


# ----------------------------------------------------------------- code discovery
_OFFS = {}


def offsets(code):
    o = _OFFS.get(code)
    if o is None:
        import dis

        o = _OFFS[code] = [i.offset for i in dis.get_instructions(code)]
    return o


def collect_codes(prefixes):
    import gc
    import types

    seen = set()

    def add(c):
        if c in seen:
            return
        seen.add(c)
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                add(k)

    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            fn = o.__code__.co_filename
            if any(fn.startswith(p) for p in prefixes):
                add(o.__code__)
    out = {}
    for c in sorted(seen, key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname, c.co_code)):
        base = "%s:%s:%d" % (c.co_filename.rsplit("/", 1)[-1], c.co_qualname, c.co_firstlineno)
        k = base
        i = 1
        while k in out:
            i += 1
            k = "%s#%d" % (base, i)
        out[k] = c
    return out
