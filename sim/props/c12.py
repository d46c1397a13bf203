"""C12 a failure is never sticky"""
from .. import custom
from .. import gen
from .. import refabi as R
from .. import regmodel as RM
from .. import world as W
from . import common as K
from .c13 import morph
from .regwork import Slots

from eth_abi import exceptions as X

ID = "C12"
QUICK, THOROUGH = 14000, 500000
RULE = ("a run = a history of 8-30 calls drawn from a few call templates over 1-3 custom types (alone, in tuples, in arrays) and "
        "standard types, with transient exceptions injected into the n-th call of a user matcher, coder factory, encoder or "
        "decoder, types that are unknown or ambiguous and then registered or resolved, malformed types, bad values and damaged "
        "payloads; a faulted call must report that fault, every other call must give what the reference prescribes for the "
        "registry of that moment; one run in 50 repeats one kind of failure hundreds of times; one run in twelve has arguments refused, put right in place by the caller and used again; a third of the runs make the calls from 2-3 preempted threads; non-trivial = an injected exception fired or a call failed and the same call succeeded later")
STUBS = "user-supplied matchers, factories and coders (fault-injecting)"


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


EXC = {
    "boom": lambda: Boom("boom"), "runtime": lambda: RuntimeError("boom"), "value": lambda: ValueError("boom"),
    "key": lambda: KeyError("boom"), "type": lambda: TypeError("boom"), "os": lambda: OSError(5, "boom"),
    "mem": lambda: MemoryError("boom"), "base": lambda: BaseBoom("boom"), "kbd": lambda: KeyboardInterrupt("boom"),
    "enc": lambda: X.EncodingTypeError("boom"), "dec": lambda: X.InsufficientDataBytes("boom"),
    "abitype": lambda: X.ABITypeError("boom"), "recursion": lambda: RecursionError("boom"), "index": lambda: IndexError("boom"),
    "lookup": lambda: LookupError("boom"), "assertion": lambda: AssertionError("boom"), "notimpl": lambda: NotImplementedError("boom"),
}


def spoiled(rng, v):
    """v with one thing wrong in it"""
    if isinstance(v, list) and v and rng.random() < 0.9:
        i = rng.randrange(len(v))
        if rng.random() < 0.15:
            return v[:i] + v[i + 1:]
        return v[:i] + [spoiled(rng, v[i])] + v[i + 1:]
    return rng.choice((None, "x", -1, 2**300, b"\xff" * 40, [], [[1]], "\u00e9"))


def lists(v):
    return [lists(x) for x in v] if isinstance(v, (list, tuple)) else v


def mend(rng):
    """arguments that are refused, then put right in place by the caller and used again"""
    u = K.Uid()
    base = K.pool(rng, 3, 1, words=8)
    pool = [rng.choice(("%s", "%s[]", "%s[]", "%s[2]", "(%s,%s)", "(%s[],uint8)", "%s[][]", "(%s)[]")).replace("%s", rng.choice(base))
            for _ in range(rng.choice((1, 2, 3)))]
    ops = []
    for _ in range(rng.choice((4, 8))):
        t = rng.choice(pool)
        n = R.resolve(t)
        if n.words > 30:
            continue
        o = rng.choice(("enc", "enc", "isenc", "dec"))
        rounds = []
        for k in rng.choice(("bg", "bg", "bbg", "gbg", "bgbg", "ggbg")):
            v = lists(gen.value(rng, n, small=True))
            if o == "dec":
                d = R.encode([n], [v])
                rounds.append((gen.damage(rng, d)[0] if k == "b" else d).hex())
            else:
                rounds.append(R.to_j(spoiled(rng, v) if k == "b" else v))
        ops.append({"u": u(), "o": o, "c": "std" if o == "dec" else rng.choice(("std", "std", "std2", "packed")), "ty": t, "rounds": rounds})
    return {"ops": ops, "what": "mend", "sched": {"mode": "none"}}


def mending(ctx):
    codecs = W.base_codecs()
    for op in ctx.sc["ops"]:
        c = codecs[op["c"]]
        o = op["o"]
        arg = None
        failed = False
        for r in op["rounds"]:
            new = bytearray.fromhex(r) if o == "dec" else R.from_j(r)
            if arg is None or not morph(arg, new):
                arg = new
            if o == "enc":
                out = W.call(c.encode, [op["ty"]], [arg])
                now = dict(op, ty=[op["ty"]], v=[R.to_j(arg)])
            elif o == "isenc":
                out = W.call(c.is_encodable, op["ty"], arg)
                now = dict(op, v=R.to_j(arg))
            else:
                out = W.call(c.decode, [op["ty"]], arg)
                now = dict(op, ty=[op["ty"]], d=bytes(arg).hex())
            now.pop("rounds")
            ctx.hist.append(("main", now, 0, 0, out))
            e = W.expect(now)
            good = out.ok and out.val is not False
            if failed and good:
                ctx.stats["nontrivial"] = 1
                ctx.stat("mended_" + o)
            failed = failed or not good
            if e is not None and not e.match(out):
                ctx.fail("sticky", "%s (with an object whose contents the caller has put right) gave %s, must give %s" % (
                    W.describe(now), out.brief(), e.brief()))


def make(rng, idx, prof):
    if rng.random() < 0.08:
        return mend(rng)
    u = K.Uid()
    sl = Slots(rng, rng.choice((1, 2, 3)), rng.random() < 0.5)
    types = K.pool(rng, 2, rng.choice((0, 1, 2)), bad=0.15)
    temps = []
    if rng.random() < 0.2:  # good and bad values and payloads of a few standard types
        nest = [rng.choice(("(%s,%s)", "(%s)", "%s[]", "(%s,%s)[]", "((%s,uint8))", "%s[2]")).replace("%s", t) for t in
                (rng.choice(("bytes", "string", "uint8", "bytes[]", "bool", "fixed8x1")) for _ in range(2))]
        for t in nest:
            for _ in range(rng.choice((2, 3, 4))):
                op = K.call_op(rng, u, [t], codecs=("std",), kinds=("dec", "dec", "enc", "isenc"), bad=0.5, damage=0.7)
                op["r"] = "r"
                temps.append(op)
    for _ in range(rng.choice((3, 5, 7)) if not temps else rng.choice((0, 1))):
        x = rng.random()
        if x < 0.75:
            op = sl.read(rng, u, rng.choice(sl.slots), comp=rng.choice((0.0, 0.5, 1.0)))
            if rng.random() < 0.15 and op["o"] in ("enc", "isenc"):
                op["v"] = [R.to_j("bad")] if op["o"] == "enc" else R.to_j("bad")
            elif rng.random() < 0.15 and op["o"] == "dec":
                op["d"] = op["d"][: rng.choice((0, 10, 62))]
        else:
            op = K.call_op(rng, u, types, codecs=("std",), bad=0.4, damage=0.4)
            op["r"] = "r"
        temps.append(op)
    setup = [sl.reg(rng, u, s, "reg") for s in sl.slots if not s["std"] and rng.random() < 0.7]
    ops = []
    amb = {}
    if idx % 50 == 9:  # one kind of failure, over and over again
        t = rng.choice(temps)
        f = [rng.choice(("pred", "fac", "enc", "dec")), rng.choice((1, 1, 2)), rng.choice(sorted(EXC))]
        pf = rng.choice((1.0, 1.0, 0.9, 0.0))
        for _ in range(rng.choice((70, 150, 300, 600))):
            ops.append(dict(t, u=u(), f=f) if rng.random() < pf else dict(t, u=u()))
        ops.append(dict(t, u=u()))
        s = rng.choice(sl.slots)
        ops += [sl.un(rng, u, s, "un"), dict(t, u=u()), sl.reg(rng, u, s, "reg"), dict(t, u=u())]
    for _ in range(rng.randint(8, 30)):
        x = rng.random()
        if x < 0.12:
            s = rng.choice(sl.slots)
            o = rng.choice(("reg", "reg", "regE", "regD", "un", "unE", "unD"))
            ops.append(sl.reg(rng, u, s, o) if o.startswith("reg") else sl.un(rng, u, s, o))
        elif x < 0.18:
            s = rng.choice(sl.slots)
            o = rng.choice(("reg", "un"))
            if o == "reg":
                ops.append({"u": u(), "o": "reg", "r": "r", "lk": ["fn", "amb_" + s["lb"], s["ty"]], "lb": "amb" + s["lb"], "co": sl.coder(rng)})
            else:
                ops.append({"u": u(), "o": "un", "r": "r", "by": ["label", "amb" + s["lb"]]})
        else:
            op = dict(rng.choice(temps), u=u())
            if rng.random() < 0.4:
                op["f"] = [rng.choice(("pred", "pred", "fac", "fac", "enc", "dec")), rng.choice((1, 1, 1, 2, 3)), rng.choice(sorted(EXC))]
            ops.append(op)
            if rng.random() < 0.5:
                op = dict(op, u=u())
                op.pop("f", None)
                ops.append(op)
    finale = []
    for t in temps:
        finale.append(dict(t, u=u()))
    if rng.random() < 0.35:  # the same without changes, by several threads
        rd = [op for op in ops if op["o"] not in RM.MUT][:9]
        nt = rng.choice((2, 2, 3))
        return {"setup": setup, "ops": [], "threads": [rd[i::nt] for i in range(nt)], "finale": finale,
                "base": rng.choice(("std", "copy")), "sched": K.sched(rng, prof)}
    return {"setup": setup, "ops": ops, "finale": finale, "base": rng.choice(("std", "copy")), "sched": {"mode": "none"}}


def run(ctx):
    if ctx.sc.get("what") == "mend":
        return mending(ctx)
    it = RM.Interp()
    b = ctx.sc["base"]
    it.base("r", b)
    it.prepare(ctx.sc)
    st = RM.base_state(b)
    failed = set()
    threads = ctx.sc.get("threads")
    sim = ctx.make_sim() if threads else None
    armed = {}

    def hook(k, tag):
        h = armed.get(sim.cur if sim else None)
        if h:
            h(k)

    custom.HOOK = hook

    def ex(op):
        f = op.get("f")
        fired = []
        me = sim.cur if sim else None
        if f:
            kind, nth, x = f
            cnt = [0]

            def boom(k):
                if k == kind and not fired:
                    cnt[0] += 1
                    if cnt[0] == nth:
                        e = EXC[x]()
                        fired.append(e)
                        raise e

            armed[me] = boom
        try:
            out = it(op)
        finally:
            armed.pop(me, None)
        if fired:
            ctx.stat("fault_%s_raises" % f[0])
            ctx.stats["nontrivial"] = 1
            exc = fired[0]
            if not out.ok:
                e, n = out.exc, 0
                while e is not None and e is not exc and n < 50:
                    e = e.__cause__ or e.__context__
                    n += 1
                good = e is exc
            else:
                good = isinstance(exc, Exception) and op["o"] in ("isenc", "istype", "has") and out.val is False
            if not good:
                ctx.fail("fault-lost", "%s: user code raised %r but the call gave %s" % (W.describe(op), exc, out.brief()))
            return W.Out(True, "skip")
        k = repr((op["o"], op.get("ty"), op.get("d"), op.get("v")))
        if not out.ok or out.val is False:
            failed.add(k)
        elif k in failed:
            ctx.stats["nontrivial"] = 1
            ctx.stat("probe_recovered")
        return out

    ctx.run_ops(ctx.sc["setup"], ex)
    ctx.run_ops(ctx.sc["ops"], ex)
    if threads:
        ctx.run_threads(ex)
        ctx.stats["nontrivial"] = 1
    ctx.run_ops(ctx.sc["finale"], ex, "end")
    RM.check_sequential(ctx, {"r": st})
