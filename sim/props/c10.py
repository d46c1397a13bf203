"""C10 fixed-point coding ignores and preserves the caller's decimal environment"""
import decimal
from decimal import Decimal

from .. import findings
from .. import gen
from .. import refabi as R
from .. import world as W
from . import c06
from . import common as K

ID = "C10"
QUICK, THOROUGH = 12000, 400000
RULE = ("a run = 1-3 simulated threads, each under its own decimal context (precision 1 to 10**6, every rounding mode, tight "
        "exponent limits, random traps, flags, clamp), making 2-8 (one run in 80: up to 300) encode/packed/decode/is_encodable calls on fixed and ufixed "
        "types (also nested), switching contexts between calls, preempted at bytecode instructions and, in part of the runs, "
        "interrupted inside calls; outcomes are compared with exact rational arithmetic and the context (settings, traps, "
        "flags) with its state before each call; non-trivial = a preemption or an interruption happened, or a context with "
        "less precision than the values need was active")
STUBS = "thread scheduler, locks, clock, asynchronous exception delivery"
ASSUMPTIONS = ["the recorded finding negative-excess (known_findings.txt) is tolerated for exactly those inputs"]

ROUND = ["ROUND_CEILING", "ROUND_DOWN", "ROUND_FLOOR", "ROUND_HALF_DOWN", "ROUND_HALF_EVEN", "ROUND_HALF_UP", "ROUND_UP", "ROUND_05UP"]
SIG = ["Clamped", "InvalidOperation", "DivisionByZero", "Inexact", "Rounded", "Subnormal", "Overflow", "Underflow", "FloatOperation"]


def mkctx(rng):
    return {"prec": rng.choice((1, 1, 2, 3, 9, 28, 78, 999, 10**6)), "rounding": rng.choice(ROUND),
            "Emin": rng.choice((0, -1, -5, -18, -999999)), "Emax": rng.choice((0, 1, 5, 80, 999999)),
            "clamp": rng.choice((0, 0, 1)), "capitals": rng.choice((0, 1)),
            "traps": [s for s in SIG if rng.random() < rng.choice((0.0, 0.3, 1.0))],
            "flags": [s for s in SIG if rng.random() < 0.2]}


def install(c):
    decimal.setcontext(decimal.Context(
        prec=c["prec"], rounding=c["rounding"], Emin=c["Emin"], Emax=c["Emax"], clamp=c["clamp"], capitals=c["capitals"],
        traps=[getattr(decimal, s) for s in c["traps"]], flags=[getattr(decimal, s) for s in c["flags"]]))


def fx(rng):
    r = rng.random()
    if r < 0.15:
        return rng.choice(("fixed", "ufixed"))
    return "%s%dx%d" % (rng.choice(("fixed", "ufixed")), rng.choice((8, 16, 64, 128, 248, 256)), rng.choice((1, 2, 18, 40, 79, 80)))


def leaf(rng):
    return fx(rng) if rng.random() < 0.85 else rng.choice(("uint8", "int256", "bool"))


def fval(rng, n):
    """values around everything that can go wrong with a fixed-point number"""
    lo, hi = (0, 2**n.a - 1) if n.kind == "ufixed" else (-(2 ** (n.a - 1)), 2 ** (n.a - 1) - 1)
    r = rng.random()
    m = rng.choice((lo, hi, 0, 1, lo + 1, hi - 1, rng.randint(lo, hi), rng.randint(lo, hi), rng.randint(lo, hi)))
    d = R.dec_exact(m, n.b)
    s, digs, e = d.as_tuple()
    if r < 0.5:
        if rng.random() < 0.3:
            d = Decimal((s, digs + (0,) * rng.randint(1, 60), e - 0)) if False else d
        k = rng.choice((0, 0, 1, 5, 60))
        return Decimal((s, digs + (0,) * k, e - k))
    if r < 0.6:
        v = m // 10**n.b
        return int(v)
    if r < 0.8:  # one digit too many, near or far
        k = rng.choice((1, 1, 1, 2, 30, 900, 1200, 5000))
        return Decimal((s, digs + (0,) * (k - 1) + (rng.randint(1, 9),), e - k))
    if r < 0.9:  # just out of range, or far out
        x = rng.choice((hi + 1, lo - 1, hi * 10 + 3, 10**200, -(10**200)))
        return R.dec_exact(x, n.b)
    return rng.choice((Decimal("NaN"), Decimal("sNaN"), Decimal("Infinity"), Decimal("-Infinity"), Decimal("-0"), Decimal("0E+5"),
                       Decimal("-0E-200"), Decimal("1E+999999"), Decimal("1E-999999"), Decimal("1E-1100000"), Decimal("1E+2000000"),
                       Decimal("-1E-999999"), Decimal("-1E+999999"), 1.5, "1.5", None, True, 10**100, -(10**100), Decimal("9" * 1500)))


def val(rng, n):
    if n.kind in ("fixed", "ufixed"):
        return fval(rng, n)
    if n.kind == "array":
        return [val(rng, n.items[0]) for _ in range(n.a if n.a is not None else rng.choice((0, 1, 2)))]
    if n.kind == "tuple":
        return tuple(val(rng, i) for i in n.items)
    return gen.value(rng, n)


def make(rng, idx, prof):
    u = K.Uid()
    types = []
    kinds = rng.choice((("enc", "enc", "dec", "isenc"), ("enc", "enc", "dec", "isenc"), ("enc",), ("dec",), ("isenc",)))
    fixed_only = rng.choice((None, None, "fixed", "ufixed"))
    if fixed_only:  # several sizes of one kind
        types = ["%s%dx%d" % (fixed_only, rng.choice((8, 64, 128, 256)), rng.choice((1, 18, 80))) for _ in range(3)]
    while len(types) < rng.choice((1, 2, 3)):
        t = gen.typ(rng, rng.choice((0, 0, 0, 1, 2)), leaf)
        if R.resolve(t).words <= 12:
            types.append(t)
    pi = rng.choice((0.0, 0.0, 0.6))
    near = [k for k in prof or () if "ixed" in k or "numeric" in k] or prof

    def sweep():
        """one call, interrupted at one point after the other"""
        o = op()
        o["ctx"] = mkctx(rng)
        o.pop("inj", None)
        ops = [o]
        loc = rng.choice(near) if near and rng.random() < 0.5 else None
        n = 1 if loc else rng.randint(1, 60)
        for _ in range(rng.choice((10, 30))):
            o2 = dict(o, u=u(), inj={"x": rng.choice(("kbd", "mem", "timeout")), "n": n})
            if loc:
                o2["inj"]["loc"] = loc
            o2.pop("ctx")
            ops.append(o2)
            n += 1 if rng.random() < 0.8 else 3
        return {"threads": [ops], "sched": {"mode": "none"}, "points": True}

    def op():
        t = rng.choice(types)
        n = R.resolve(t)
        k = rng.choice(kinds)
        c = rng.choice(("std", "std2", "packed"))
        if k == "dec":
            good = gen.value(rng, n)
            d = R.encode([n], [good])
            if rng.random() < 0.3:
                d, _ = gen.damage(rng, d)
            o = {"u": u(), "o": "dec", "c": "std", "ty": [t], "d": d.hex()}
        elif k == "enc":
            o = {"u": u(), "o": "enc", "c": c, "ty": [t], "v": [R.to_j(val(rng, n))]}
        else:
            o = {"u": u(), "o": "isenc", "c": c, "ty": t, "v": R.to_j(val(rng, n))}
        if rng.random() < 0.35:
            o["ctx"] = mkctx(rng)
        if rng.random() < pi:
            o["inj"] = {"x": rng.choice(("kbd", "mem", "timeout")), "n": int(2 ** rng.uniform(0, 9))}
            if prof and rng.random() < 0.7:
                o["inj"] = dict(o["inj"], loc=rng.choice(rng.choice((prof, near))), n=rng.choice((1, 1, 2, 3)))
        return o

    if rng.random() < 0.15:
        return sweep()
    nt = rng.choice((1, 2, 2, 3)) if idx % 80 != 11 else 1
    threads = []
    for _ in range(nt):
        ops = [op() for _ in range(rng.choice((100, 300)) if idx % 80 == 11 else rng.randint(3, 8) if nt == 1 else rng.randint(1, 4))]
        ops[0]["ctx"] = mkctx(rng)
        threads.append(ops)
    return {"threads": threads, "sched": K.sched(rng, rng.choice((prof, near))) if nt > 1 else {"mode": "none"},
            "points": pi > 0}


def run(ctx):
    codecs = W.base_codecs()
    sim = ctx.make_sim(points=ctx.sc["points"])

    def ex(op):
        if "ctx" in op:
            install(op["ctx"])
            if op["ctx"]["prec"] < 50:
                ctx.stats["nontrivial"] = 1
        before = c06.decstate()
        j = op.get("inj")
        fired = []
        if j:
            exc = c06.EXC[j["x"]]("injected")

            def act():
                fired.append(1)
                sim.fired.append("interrupt_" + j["x"])
                raise exc

            sim.arm(j["n"], act, j.get("loc"))
        try:
            out = W.do_call(op, codecs)
        finally:
            sim.disarm()
        after = c06.decstate()
        if after != before:
            ctx.flag("context", "%s changed the decimal context from %r to %r" % (W.describe(op), before, after))
        return W.Out(True, "skip") if fired else out

    ctx.run_threads(ex)
    decimal.setcontext(decimal.Context(prec=60))
    if ctx.viol:
        return
    for who, op, inv, ret, out in ctx.hist:
        if out.ok and isinstance(out.val, str) and out.val == "skip":
            continue
        e = W.expect(op)
        ctx.stat(op["o"] + ("_ok" if out.ok else "_rejected"))
        if e is None or e.match(out):
            continue
        if tolerated(op, out):
            ctx.stat("known_negative_excess")
            continue
        ctx.fail("inexact:" + op["o"], "thread %s: %s gave %s, must give %s" % (who, W.describe(op), out.brief(), e.brief()))


def tolerated(op, out):
    if op["o"] == "dec" or not findings.known(ID, "negative-excess"):
        return False
    for mode in ("trunc", "trunc-pad"):
        R.NEG_EXCESS = mode
        try:
            if W.expect(op).match(out):
                return True
        finally:
            R.NEG_EXCESS = None
    return False


def probe(ctx_print):
    """run once by the check: is the recorded finding still there?"""
    import eth_abi

    out = W.call(eth_abi.encode, ["fixed8x1"], [Decimal("-0.15")])
    if out.ok and findings.known(ID, "negative-excess"):
        ctx_print("negative-excess")
