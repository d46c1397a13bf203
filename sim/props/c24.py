"""C24 the strategies for users' tests only ever generate encodable values"""
import decimal
import random

from .. import gen
from .. import refabi as R
from .. import world as W
from . import c06
from . import c10
from . import common as K

ID = "C24"
QUICK, THOROUGH = 9000, 300000
RULE = ("a run = a history of 3-16 get_abi_strategy calls, draws, registrations and removals of custom strategies in 1-3 simulated "
        "threads; every random choice a draw makes is decided by the simulator (bounds, neighbours of bounds, zero, empty, longest, or "
        "anything between) through hypothesis' own provider interface; the drawing threads have decimal contexts of precision 1 to 10**6 and every rounding mode, for look-ups and repeated draws also with tight exponent limits and any traps, "
        "part of the draws and look-ups are interrupted inside library code, drawn lists are changed by the caller; each value is encoded and decoded by the real codec "
        "and compared with the reference, and the same choices are made again later and must give the same value; non-trivial = a value was drawn; "
        "distinct = distinct (outcome log, switch sequence)")
STUBS = "random choices (hypothesis provider), thread scheduler, locks, clock, asynchronous exception delivery"

CUST = ["alpha", "beta8"]
UNPARSABLE = ("uint8[0]", "(uint8", "", "(uint8,)")
BAD = ["alpha", "uint7", "bytes33", "fixed8", "uint8[0]", "(uint8", "", "address20", "hash", "bool8", "fixed128x81", "(uint8,)", "int264"]


def mild(rng):
    """a decimal context hypothesis itself can work in"""
    return {"prec": rng.choice((1, 2, 3, 9, 28, 78, 999, 10**6)), "rounding": rng.choice(c10.ROUND), "Emin": -999999, "Emax": 999999, "clamp": 0, "capitals": 1,
            "traps": ["InvalidOperation", "DivisionByZero", "Overflow"] if rng.random() < 0.6 else [], "flags": []}


def leaf(rng):
    return rng.choice((c10.fx(rng), gen.leaf_type(rng), rng.choice(("string", "bytes", "function", "address", "bool", "uint", "int", "fixed", "ufixed"))))


def styp(rng):
    while True:
        t = gen.typ(rng, rng.choice((0, 0, 1, 1, 2)), leaf)
        if R.resolve(t).words <= 12:
            return t


def make(rng, idx, prof):
    u = K.Uid()
    types = [styp(rng) for _ in range(rng.choice((1, 2, 3, 4)))]
    if rng.random() < 0.3:  # several sizes of one kind
        b = rng.choice(("uint%d", "int%d", "bytes", "fx"))
        types = [b % (8 * rng.randint(1, 32)) if "%" in b else "bytes%d" % rng.randint(1, 32) if b == "bytes" else c10.fx(rng) for _ in range(4)]
        types += [rng.choice(("(%s,%s)", "(%s)[]", "%s[2]", "(bool,%s[])")).replace("%s", types[0])]
    nt = rng.choice((1, 1, 1, 2, 3))
    custom = nt == 1 and rng.random() < 0.4
    near = [k for k in prof or () if "strateg" in k or "numeric" in k] or prof
    pi = rng.choice((0.0, 0.0, 0.3))
    key = [0]

    def inj(op, p):
        if rng.random() < p:
            op["inj"] = {"x": rng.choice(sorted(c06.EXC)), "n": int(2 ** rng.uniform(0, 6 if op["o"] == "get" else 3))}
            if near and rng.random() < 0.5:
                op["inj"] = dict(op["inj"], loc=rng.choice(near), n=rng.choice((1, 1, 2)))
        return op

    threads = []
    for _ in range(nt):
        ops, mine, drawn = [], [], []
        live = {}
        for _ in range(rng.randint(6, 16) if nt == 1 else rng.randint(3, 7)):
            x = rng.random()
            if custom and x < 0.2:
                t = rng.choice(CUST)
                if t in live and rng.random() < 0.7:
                    ops.append({"u": u(), "o": "sun", "ty": t})
                    del live[t]
                elif t not in live:
                    key[0] += 1
                    live[t] = key[0]
                    ops.append({"u": u(), "o": "sreg", "ty": t, "tag": key[0], "kind": rng.choice(("obj", "fac"))})
                mine = [m for m in mine if t not in m[1]]
                drawn = [d for d in drawn if t not in d["ty"]]
                asked = sorted({o["ty"] for o in ops if o["o"] == "get" and t in o["ty"]})
                if asked and rng.random() < 0.7:  # what was asked for before, once more
                    key[0] += 1
                    ops.append({"u": u(), "o": "get", "ty": rng.choice(asked), "k": key[0]})
                    mine.append((key[0], ops[-1]["ty"]))
                    ops.append({"u": u(), "o": "draw", "k": key[0], "ty": ops[-1]["ty"], "s": 1, "b": 0.5, "n": 3})
                continue
            if x < 0.4 or not mine:
                r = rng.random()
                if r < 0.12:
                    t = rng.choice(BAD)
                elif custom and r < 0.5:
                    t = rng.choice(("%s", "%s[]", "(%s,uint8)", "(bool,%s)[2]", "%s[2]")) % rng.choice(CUST)
                else:
                    t = rng.choice(types)
                key[0] += 1
                op = inj({"u": u(), "o": "get", "ty": t, "k": key[0]}, pi)
                if rng.random() < 0.4:
                    op["ctx"] = mild(rng)
                elif rng.random() < 0.2:
                    op["harsh"] = c10.mkctx(rng)
                ops.append(op)
                if "inj" in op:
                    op = {"u": u(), "o": "get", "ty": t, "k": key[0]}
                    ops.append(op)
                if t not in BAD or has_custom(t):
                    mine.append((key[0], t))
                continue
            if drawn and x < 0.6:  # the same choices once more
                op = dict(rng.choice(drawn), u=u())
                op.pop("inj", None)
                again = [k for k, t in mine if t == op["ty"]]
                op["k"] = rng.choice(again)
            else:
                k, t = rng.choice(mine[-3:] if rng.random() < 0.7 else mine)
                op = inj({"u": u(), "o": "draw", "k": k, "ty": t, "s": rng.randrange(2**32), "b": rng.choice((0.0, 0.5, 0.5, 0.9, 1.0)), "n": rng.choice((0, 1, 3, 3))}, pi)
                if rng.random() < 0.5:
                    op["edge"] = rng.choice(("lo", "hi"))
                drawn.append(op)
            op.pop("ctx", None)
            if rng.random() < 0.4:
                op["ctx"] = mild(rng)
            elif rng.random() < 0.3:
                op["harsh"] = c10.mkctx(rng)
            ops.append(op)
        threads.append(ops)
    return {"threads": threads, "sched": K.sched(rng, rng.choice((prof, near))) if nt > 1 else {"mode": "none"}, "points": True}


def provider_class():
    from hypothesis.internal.conjecture.data import PrimitiveProvider

    class Provider(PrimitiveProvider):
        """the simulator's answers to hypothesis' requests for randomness"""
        op = None
        rng = None

        def pick(self, lo, hi):
            e = self.op.get("edge")
            if self.rng.random() < self.op["b"]:
                c = [lo, lo + 1] if e == "lo" else [hi, hi - 1] if e == "hi" else [lo, hi, lo + 1, hi - 1, 0, 1, -1]
                c = [x for x in c if lo <= x <= hi]
                return self.rng.choice(c) if c else lo
            if self.rng.random() < 0.3:  # any magnitude
                x = 1 << self.rng.randint(0, max(1, hi.bit_length()))
                x = self.rng.randrange(x)
                return min(max(self.rng.choice((x, -x)), lo), hi)
            return self.rng.randint(lo, hi)

        def draw_boolean(self, p=0.5, *, forced=None, fake_forced=False):
            if forced is not None:
                return forced
            if p <= 0 or p >= 1:
                return p >= 1
            if p in (0.5,) or not 0.5 < p < 1:
                return self.rng.random() < 0.5
            return self.rng.random() < self.op["n"] / (self.op["n"] + 1.0)

        def draw_integer(self, min_value=None, max_value=None, *, weights=None, shrink_towards=0, forced=None, fake_forced=False):
            if forced is not None:
                return forced
            lo = min_value if min_value is not None else -(2**300) if max_value is None else min(-(2**300), max_value)
            hi = max_value if max_value is not None else max(2**300, lo)
            return self.pick(lo, hi)

        def draw_float(self, *, min_value=-1e300, max_value=1e300, allow_nan=True, smallest_nonzero_magnitude=0.0, forced=None, fake_forced=False):
            if forced is not None:
                return forced
            lo, hi = max(min_value, -1e300), min(max_value, 1e300)
            return self.rng.choice((lo, hi, min(max(0.0, lo), hi), min(max(1.5, lo), hi)))

        def draw_string(self, intervals, *, min_size=0, max_size=None, forced=None, fake_forced=False):
            if forced is not None:
                return forced
            n = self.size(min_size, max_size)
            return "".join(chr(intervals[self.rng.choice((0, len(intervals) - 1, self.rng.randrange(len(intervals))))]) for _ in range(n)) if len(intervals) else ""

        def size(self, lo, hi):
            if hi is None or hi == float("inf"):
                hi = max(lo, 40)
            if self.rng.random() < self.op["b"] * 0.5:
                return self.rng.choice((lo, hi, min(lo + 1, hi)))
            return self.rng.randint(lo, min(hi, max(lo, 70)))

        def draw_bytes(self, size, *, forced=None, fake_forced=False):
            if forced is not None:
                return forced
            n = size
            return self.rng.choice((self.rng.randbytes(n), b"\xff" * n, b"\0" * n))

    return Provider


def drawer():
    from hypothesis.control import BuildContext
    from hypothesis.internal.conjecture.data import ConjectureData

    Provider = provider_class()

    def draw(strategy, op):
        p = Provider(None)
        p.op = op
        p.rng = random.Random(op["s"])
        data = ConjectureData(10**9, b"", random=random.Random(0), provider=p)
        with BuildContext(data):
            return data.draw(strategy)

    return draw


def scribble(v):
    if isinstance(v, (list, tuple)):
        for x in v:
            scribble(x)
        if isinstance(v, list):
            del v[:1]
            v.append("scribble")


def frozen(v):
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(frozen(x) for x in v)
    return (type(v).__name__, repr(v.as_tuple() if isinstance(v, decimal.Decimal) else v))


def settings():
    c = decimal.getcontext()
    return (c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp, tuple(sorted(str(k) for k, v in c.traps.items() if v)))


class Tagged:
    def __init__(self, tag):
        self.tag = tag


def has_custom(t):
    return any(c in t for c in CUST)


def check_custom(t, v, tag):
    """v is an instance of the type t around the tag's object"""
    if t in CUST:
        return isinstance(v, Tagged) and v.tag == tag
    base = next(c for c in CUST if c in t)
    if t == "(%s,uint8)" % base:
        return isinstance(v, tuple) and len(v) == 2 and check_custom(base, v[0], tag) and type(v[1]) is int and 0 <= v[1] < 256
    if t == "(bool,%s)[2]" % base:
        return isinstance(v, (list, tuple)) and len(v) == 2 and all(len(x) == 2 and isinstance(x[0], bool) and check_custom(base, x[1], tag) for x in v)
    if not isinstance(v, (list, tuple)) or not all(check_custom(base, x, tag) for x in v):
        return False
    return len(v) == 2 if t.endswith("[2]") else True


def run(ctx):
    import eth_abi
    import eth_abi.tools as tools
    import hypothesis.strategies as st
    from eth_abi.tools import _strategies as TS

    draw = drawer()
    sim = ctx.make_sim(points=ctx.sc["points"])
    held = {}
    first = {}
    live = {}
    spec = {}
    warm = set()

    def judge_get(op, out):
        t = op["ty"]
        if has_custom(t):
            base = next(c for c in CUST if c in t)
            ok = base in live
            spec[op["k"]] = live.get(base)
        else:
            try:
                R.resolve(t)
                ok = True
            except R.BadType:
                ok = False if t in UNPARSABLE else None  # sizes are not promised to be checked here
        if ok is not None and (out.ok != ok or not ok and out.cat not in ("badtype", "value", "missing")):
            ctx.flag("lookup", "get_abi_strategy(%r) gave %s, must %s" % (t, out.brief() if not out.ok else "a strategy", "give a strategy" if ok else "be rejected"))

    def judge_value(op, v):
        t = op["ty"]
        ctx.stats["nontrivial"] = 1
        key = (t, op["s"], op["b"], op["n"], op.get("edge"), spec.get(op["k"]))
        fv = frozen(v)
        if not has_custom(t):
            e = W.exp_encode([t], [v])
            if not e.ok:
                ctx.flag("not-encodable", "the strategy for %s generated %r, which is not a value of that type (choices: %r)" % (t, v, op))
                return
            out = W.call(eth_abi.encode, [t], [v])
            if not e.match(out):
                ctx.flag("encode", "%r generated for %s was encoded to %s, must be %s" % (v, t, out.brief(), e.brief()))
            elif out.ok:
                back = W.call(eth_abi.decode, [t], out.val)
                if not W.exp_decode([t], out.val, True).match(back):
                    ctx.flag("decode", "%r generated for %s came back as %s" % (v, t, back.brief()))
        elif not check_custom(t, v, spec[op["k"]]):
            ctx.flag("custom", "the strategy for %s generated %r although %r was registered with tag %r" % (t, v, next(c for c in CUST if c in t), spec[op["k"]]))
        else:
            fv = None
        if fv is not None:
            if key in first and first[key] != fv:
                ctx.flag("not-repeatable", "the same choices for %s gave %r first and %r later" % (t, first[key], fv))
            first.setdefault(key, fv)
        scribble(v)

    def ex(op):
        o = op["o"]
        if "ctx" in op:
            c10.install(op["ctx"])
        mine = decimal.getcontext()
        # hypothesis itself needs an ordinary context for the first draw
        if "harsh" in op and (o == "get" or op["k"] in warm):
            c10.install(op["harsh"])
            ctx.stat("harsh_" + o)
        before = settings()
        fired = []
        exc = s = None
        j = op.get("inj")
        if j:
            exc = c06.EXC[j["x"]]("injected")

            def act():
                fired.append(1)
                sim.fired.append("interrupt_" + j["x"])
                raise exc

            sim.arm(j["n"], act, j.get("loc"))
        try:
            if o == "get":
                out = W.call(tools.get_abi_strategy, op["ty"])
            elif o == "draw":
                s = held.get(op["k"])
                out = W.call(draw, s, op) if s is not None else W.Out(True, "none")
            elif o == "sreg":
                tag = op["tag"]
                s = st.builds(Tagged, st.just(tag))
                out = W.call(TS.strategy_registry.register_strategy, op["ty"], s if op["kind"] == "obj" else lambda at, rg: s)
            else:
                out = W.call(TS.strategy_registry.unregister_strategy, op["ty"])
        finally:
            sim.disarm()
        if settings() != before:
            ctx.flag("context", "%r changed the decimal context from %r to %r" % (op, before, settings()))
        decimal.setcontext(mine)
        try:
            with decimal.localcontext(decimal.Context(prec=60)):
                return judge(op, out, fired, exc, s)
        finally:
            sim.disarm()

    def judge(op, out, fired, exc, s):
        o = op["o"]
        if fired:
            if out.ok or (out.exc is not exc and not isinstance(exc, Exception)):
                ctx.flag("swallowed", "%r was interrupted by %s but gave %s" % (op, type(exc).__name__, "a result" if out.ok else out.brief()))
            ctx.stat("interrupted_" + o)
            return W.Out(True, "skip")
        if o == "get":
            judge_get(op, out)
            if out.ok:
                held[op["k"]] = out.val
                out = W.Out(True, repr(type(out.val)))
        elif o == "draw" and out.ok and not (isinstance(out.val, str) and s is None):
            v = out.val
            warm.add(op["k"])
            out = W.Out(True, repr(frozen(v)) if not has_custom(op["ty"]) else "custom")
            judge_value(op, v)
        elif o == "draw" and not out.ok:
            ctx.flag("draw-failed", "drawing for %s failed with %s" % (op["ty"], out.brief()))
        elif o == "sreg" and out.ok:
            live[op["ty"]] = op["tag"]
        elif o == "sun" and out.ok:
            del live[op["ty"]]
        if o in ("sreg", "sun") and not out.ok:
            ctx.flag("change", "%r gave %s" % (op, out.brief()))
        ctx.stat(o + ("_ok" if out.ok else "_rejected"))
        return out

    ctx.run_threads(ex)
    decimal.setcontext(decimal.Context(prec=60))
