"""C06 an interrupted call leaves nothing behind"""
import decimal

from .. import gen
from .. import refabi as R
from .. import regmodel as RM
from .. import world as W
from . import common as K
from .regwork import Slots

import eth_abi.grammar as grammar

ID = "C06"
QUICK, THOROUGH = 12000, 400000
RULE = ("a run = a history of 2-7 encode/decode/packed/is_encodable/lookup/parse/copy/registration calls on a fresh process, "
        "most of them cut short by an exception (KeyboardInterrupt, SystemExit, a BaseException timeout, MemoryError, an "
        "Exception timeout) raised at a seeded point of the call where CPython can deliver one; each interrupted call is "
        "repeated without interruption, other calls follow, finally also from another simulated thread; a quarter of the runs interrupt one call on ever new, unused registries at successive points, one in 20 cuts a registration change short and requires all later lookups to agree on whether it was made, one in 60 is a storm of 80-600 interruptions of one call; part of the runs have "
        "2-3 threads with preemption; outcomes are compared with the reference, the decimal context with its state before; "
        "non-trivial = at least one exception was actually delivered inside library code")
STUBS = "thread scheduler, locks, clock, asynchronous exception delivery"


class Timeout(BaseException):
    pass


class SoftTimeout(Exception):
    pass


EXC = {"kbd": KeyboardInterrupt, "exit": SystemExit, "timeout": Timeout, "mem": MemoryError, "soft": SoftTimeout}


def inj(rng, prof):
    d = {"x": rng.choice(sorted(EXC))}
    if prof and rng.random() < 0.5:
        d["loc"] = rng.choice(prof)
        d["n"] = rng.choice((1, 1, 1, 2, 3, 5))
    else:
        d["n"] = int(2 ** rng.uniform(0, 9.5))
    return d


def first_use(rng, prof):
    """one call on registries nobody has used yet, each interrupted at another point, then repeated"""
    u = K.Uid()
    packed = rng.random() < 0.12
    pre = "packedf" if packed else "f"
    types = K.pool(rng, 1, rng.choice((0, 1, 1, 2)), words=8)[:1]
    if rng.random() < 0.6:
        types = [rng.choice(("((%s))", "(bool,(%s,uint8))", "(%s)[]", "(%s)[2]", "%s[][]", "((%s,bytes),bool)", "(%s[],%s)")).replace("%s", types[0])]
    kinds = ("enc", "isenc") if packed else rng.choice((("dec",), ("dec",), ("enc",), ("enc", "isenc"), ("enc", "dec")))
    tmpl = K.call_op(rng, u, types, kinds=kinds, codecs=("f",), bad=0.05, damage=0.1)
    other = K.call_op(rng, u, types, kinds=kinds, codecs=("f",), bad=0.05, damage=0.05)
    n = rng.choice((6, 12, 20))
    at = rng.random()
    ops = []
    for k in range(n):
        c = "%s%d" % (pre, k)
        at = (at + (rng.random() if rng.random() < 0.5 else 1.0 / n)) % 1.0
        op = dict(tmpl, u=u(), c=c, r="-", inj={"x": rng.choice(sorted(EXC)), "frac": round(at, 5)})
        ops.append(op)
        if rng.random() < 0.15:
            ops.append(dict(op, u=u(), inj=dict(op["inj"], frac=round(rng.random(), 5))))
        ops.append(dict(tmpl, u=u(), c=c, r="-"))
        if rng.random() < 0.5:
            ops.append(dict(other, u=u(), c=c, r="-"))
    return {"setup": [], "threads": [ops], "finale": [], "sched": {"mode": "none"}, "base": "std",
            "first": dict(tmpl, c=pre + "dry", r="-"), "looked": types if rng.random() < 0.5 else []}


def storm(rng, prof):
    """the same call interrupted again and again, very often, by one thread: nothing may add up"""
    u = K.Uid()
    pre = "packedf" if rng.random() < 0.12 else "f"
    t = rng.choice(("uint8", "bytes", "string", "fixed16x2", "bool", "address"))
    t = rng.choice(("%s", "%s[]", "(%s)", "(%s,%s[2])", "((%s))[]", "(bool,(%s))")).replace("%s", t)
    kinds = ("enc", "isenc") if pre != "f" else ("enc", "dec", "dec", "isenc", "istype")
    tmpl = K.call_op(rng, u, [t], kinds=kinds, codecs=("f",), bad=0.05, damage=0.1)
    other = K.call_op(rng, u, [t, "(uint8,bytes)[]"], kinds=kinds, codecs=("f",))
    xs = rng.choice((sorted(EXC), ["kbd"], ["soft"], ["timeout"]))
    a, b = sorted((rng.random(), rng.random()))
    if rng.random() < 0.5:
        a, b = 0.0, 1.0
    ops = [dict(tmpl, u=u(), c=pre + "0", r="-")]
    n = rng.choice((80, 150, 300, 600))
    for k in range(n):
        ops.append(dict(tmpl, u=u(), c=pre + "0", r="-", inj={"x": rng.choice(xs), "frac": round(rng.uniform(a, b), 5)}))
        if rng.random() < 0.02:
            ops.append(dict(rng.choice((tmpl, other)), u=u(), c=pre + "0", r="-"))
    for op in (tmpl, other) * 2:
        ops.append(dict(op, u=u(), c=pre + "0", r="-"))
    return {"setup": [], "threads": [ops], "finale": [dict(op, u=u(), c=pre + "0", r="-") for op in (tmpl, other)],
            "sched": {"mode": "none"}, "base": "std", "first": dict(tmpl, c=pre + "dry", r="-"), "warm": 1, "looked": []}


OTHERS = ["uint8", "int256", "address", "bool", "fixed8x1", "ufixed128x18", "bytes4", "bytes", "function", "string", "bool[]", "(bool)"]


def halfway(rng, prof):
    """a registration change cut short: afterwards it was made or it was not, for every lookup alike"""
    u = K.Uid()
    sl = Slots(rng, rng.choice((1, 2)), rng.random() < 0.5)
    setup, ops = [], []
    for s in sl.slots:
        live = s["std"]
        if not s["std"] and rng.random() < 0.6:
            setup.append(sl.reg(rng, u, s, "reg"))
            live = True
        warm = [sl.read(rng, u, s, comp=rng.choice((0.0, 0.6))) for _ in range(rng.choice((0, 2, 4, 6)))]
        ops += warm
        o = rng.choice(("unE", "unD", "un") if live else ("regE", "regD", "reg"))
        op = sl.reg(rng, u, s, o) if o.startswith("reg") else sl.un(rng, u, s, o)
        if rng.random() < 0.25:  # or a copy cut short, after which the registry can be changed as ever
            cp = {"u": u(), "o": "copyread", "r": "r", "ty": rng.choice(s["ty"])}
            ops.append(dict(cp, inj={"x": rng.choice(sorted(EXC)), "n": rng.randint(1, 40)}))
            ops.append(op)
            if rng.random() < 0.5:
                ops.append(dict(cp, u=u()))
        else:
            op["inj"] = {"x": rng.choice(sorted(EXC)), "n": rng.randint(1, rng.choice((12, 24, 24, 60, 160)))}
            ops.append(op)
        after = [dict(w, u=u()) for w in warm] + [sl.read(rng, u, s, comp=rng.choice((0.0, 0.6))) for _ in range(4)]
        for t in rng.sample(OTHERS, 3):  # nothing else is touched
            after.append({"u": u(), "o": rng.choice(("has", "istype", "getE", "getD")), "r": "r", "ty": t})
        rng.shuffle(after)
        k = rng.randint(1, len(after))
        # an unrelated change in between must not bring the interrupted one back or undo it
        ops += after[:k] + [{"u": u(), "o": "reg", "r": "r", "lk": ["str", "zeta%d" % len(ops)], "co": sl.coder(rng)}] + after[k:] + [dict(w, u=u()) for w in after[:3]]
        # and the registration can be made, taken back and made again, whichever way the interrupted change went
        for _ in range(rng.choice((0, 2, 4))):
            o = rng.choice((o, "unE", "unD", "un", "regE", "regD", "reg"))
            ops.append(sl.reg(rng, u, s, o) if o.startswith("reg") else sl.un(rng, u, s, o))
            if rng.random() < 0.5:
                ops.append(sl.read(rng, u, s, comp=rng.choice((0.0, 0.6))))
    return {"setup": setup, "threads": [ops], "finale": [], "sched": {"mode": "none"}, "base": rng.choice(("std", "copy", "lean")), "half": 1}


def make(rng, idx, prof):
    if idx % 60 == 7:
        return storm(rng, prof)
    if rng.random() < 0.25:
        return first_use(rng, prof)
    if rng.random() < 0.12:
        return halfway(rng, prof)
    u = K.Uid()
    sl = Slots(rng, rng.choice((2, 2, 3, 4)), rng.random() < 0.5)
    types = K.pool(rng, rng.choice((1, 2, 3)), rng.choice((0, 1, 2, 3)), bad=0.05)
    nt = 1 if rng.random() < 0.7 else rng.choice((2, 3))
    free = [s for s in sl.slots if not s["std"]]
    setup = [sl.reg(rng, u, s, "reg") for s in free]
    if rng.random() < 0.4:
        setup.append(reader(rng, u, types, sl, sl.slots))
    touched = []

    def healthy():
        return [s for s in sl.slots if s["lb"] not in touched]

    def one(threads):
        x = rng.random()
        movable = [s for s in healthy() if not s["std"]]
        if x < 0.15 and threads == 1 and movable:
            s = rng.choice(movable)
            o = rng.choice(("regE", "regD", "reg", "unE", "unD", "un"))
            op = sl.reg(rng, u, s, o) if o.startswith("reg") else sl.un(rng, u, s, o)
            if rng.random() < 0.8:
                op["inj"] = inj(rng, prof)
                touched.append(s["lb"])
            return op
        if x < 0.18:
            return {"u": u(), "o": "copyread", "r": "r", "ty": rng.choice(types)}
        if x < 0.30:
            return {"u": u(), "o": "parse", "r": "r", "ty": rng.choice(types + ["(uint256,bytes[])[3]"])}
        return reader(rng, u, types, sl, healthy())

    threads = []
    if len(free) > 1 and rng.random() < 0.2:  # changes cut short, everything else read after each
        ops = []
        for s in rng.sample(free, len(free) - 1):
            o = rng.choice(("regE", "regD", "reg", "unE", "unD", "un"))
            op = sl.reg(rng, u, s, o) if o.startswith("reg") else sl.un(rng, u, s, o)
            if o.startswith("reg") and rng.random() < 0.7:  # make it an acceptable one
                ops.append(sl.un(rng, u, s, "un" + o[3:]))
            op["inj"] = {"x": rng.choice(sorted(EXC)), "n": int(2 ** rng.uniform(0, 5.5))}
            ops.append(op)
            touched.append(s["lb"])
            for h in healthy():
                ops.append(sl.read(rng, u, h, comp=rng.choice((0.0, 0.7))))
        h = rng.choice([s for s in free if s["lb"] not in touched])
        ops.append(sl.un(rng, u, h, "un"))
        ops.append(sl.read(rng, u, h))
        ops.append(sl.reg(rng, u, h, "reg"))
        ops.append(sl.read(rng, u, h))
        threads.append(ops)
        nt = 0
    elif rng.random() < 0.15:  # one call, interrupted at one point after the other
        op = reader(rng, u, types, sl, healthy())
        n = rng.randint(1, 80)
        ops = []
        for _ in range(rng.choice((8, 24))):
            ops.append(dict(op, u=u(), inj={"x": rng.choice(sorted(EXC)), "n": n}))
            n += 1 if rng.random() < 0.8 else 4
            if rng.random() < 0.15:
                ops.append(dict(op, u=u()))
        threads.append(ops)
        nt = 0
    for _ in range(nt):
        ops = []
        for _ in range(rng.randint(2, 5) if nt == 1 else rng.randint(1, 3)):
            op = one(nt)
            if op["o"] not in RM.MUT and rng.random() < 0.75:
                op["inj"] = inj(rng, prof)
            ops.append(op)
            if op["o"] not in RM.MUT and "inj" in op:
                if rng.random() < 0.3:
                    ops.append(dict(op, u=u(), inj=inj(rng, prof)))
                if rng.random() < 0.85:
                    again = dict(op, u=u())
                    del again["inj"]
                    ops.append(again)
            elif op["o"] in RM.MUT and healthy():
                ops.append(reader(rng, u, types, sl, healthy()))
        threads.append(ops)
    finale = []
    for ops in threads:
        for op in ops:
            if op["o"] not in RM.MUT and rng.random() < 0.5:
                # what was made unreliable by an interrupted change is not asked again
                if not mentions(op, touched, sl):
                    o2 = dict(op, u=u())
                    o2.pop("inj", None)
                    finale.append(o2)
    for _ in range(2):
        finale.append(reader(rng, u, types, sl, healthy()))
    if healthy() and rng.random() < 0.5:
        s = rng.choice(healthy())
        finale.append(sl.un(rng, u, s, "un"))
        finale.append(sl.reg(rng, u, s, "reg"))
        finale.append(sl.read(rng, u, s))
    sched = {"mode": "none"} if nt <= 1 else K.sched(rng, prof)
    return {"setup": setup, "threads": threads, "finale": finale, "sched": sched, "base": rng.choice(("std", "copy", "lean"))}


def mentions(op, labels, sl):
    bad = [t for s in sl.slots if s["lb"] in labels for t in s["ty"]]
    ty = op["ty"] if isinstance(op["ty"], list) else [op["ty"]]
    return any(b in t for b in bad for t in ty)


def reader(rng, u, types, sl, slots):
    x = rng.random()
    if x < 0.3 and slots:
        return sl.read(rng, u, rng.choice(slots))
    op = K.call_op(rng, u, types, bad=0.15, damage=0.2)
    if not op["c"].startswith("packed"):
        op["r"] = "r"
    else:
        op["r"] = "-"
    return op


LEAN = ("uint", "int", "bool", "has_arrlist", "is_base_tuple", "bytes", "string", "bytes<M>", "address", "fixed", "ufixed", "function")


def decstate():
    c = decimal.getcontext()
    return (c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp, tuple(sorted(str(k) for k, v in c.flags.items() if v)),
            tuple(sorted(str(k) for k, v in c.traps.items() if v)))


def run(ctx):
    it = RM.Interp()
    b = ctx.sc["base"]
    it.base("r", b, LEAN)
    it.prepare(ctx.sc)
    st = RM.base_state(b)
    codecs = W.base_codecs()
    sim = ctx.make_sim(points=True)
    cells = {}
    npoints = 1
    if "first" in ctx.sc:
        W.fresh_codecs(codecs, [ctx.sc["first"]["c"]] + [op["c"] for op in ctx.sc["threads"][0]])
        for c in [c for c in codecs if c.startswith(("f", "packedf"))]:
            for t in ctx.sc["looked"]:
                W.look(codecs, c, t)
        if "warm" in ctx.sc:
            W.do_call(ctx.sc["first"], codecs)
        sim.count_points = True
        p0 = sim.points
        W.do_call(ctx.sc["first"], codecs)
        npoints = max(1, sim.points - p0)
        sim.count_points = False

    def plain(op):
        o = op["o"]
        if o == "parse":
            return W.call(lambda: grammar.parse(op["ty"]).to_type_str())
        if o == "copyread":
            out = W.call(it.regs["r"].copy)
            if out.ok:
                out = W.call(out.val.has_encoder, op["ty"])
            return out
        if op["r"] == "-":
            return W.do_call(op, codecs)
        return it(op)

    def ex(op):
        before = decstate()
        j = op.get("inj")
        if j:
            exc = EXC[j["x"]]("injected")
            key = (op["u"],)

            def act():
                cells[key] = (exc, sim.fire_key)
                sim.fired.append("interrupt_" + j["x"])
                raise exc

            sim.arm(j["n"] if "n" in j else 1 + int(j["frac"] * npoints), act, j.get("loc"))
            try:
                out = plain(op)
            except tuple(EXC.values()) as e:  # delivered while the arguments were being built
                if e is not exc:
                    raise
                out = W.Out(False, exc=e)
            finally:
                sim.disarm()
            if key in cells:
                out = judge_fired(ctx, op, out, exc, j["x"], cells[key][1])
        else:
            out = plain(op)
        if decstate() != before:
            ctx.flag("context", "%s changed the decimal context from %r to %r" % (W.describe(op), before, decstate()))
        return out

    ctx.run_ops(ctx.sc["setup"], ex)
    if len(ctx.sc["threads"]) == 1:
        ctx.run_ops(ctx.sc["threads"][0], ex)
    else:
        ctx.run_threads(ex)
    # everything after that from a thread that was never interrupted
    sim.run_threads([lambda: ctx.run_ops(ctx.sc["finale"], ex, "end")])
    if ctx.viol:
        return
    judge(ctx, st)


def judge_fired(ctx, op, out, exc, kind, where):
    ctx.stat("delivered_in_" + op["o"])
    o = op["o"]
    if isinstance(exc, Exception):
        if not out.ok:
            e, n = out.exc, 0
            while e is not None and e is not exc and n < 50:
                e = e.__cause__ or e.__context__
                n += 1
            good = e is exc
        else:
            good = o in ("isenc", "istype", "has", "copyread") and out.val is False
    else:
        good = (not out.ok) and out.exc is exc
    if not good:
        ctx.flag("swallowed", "%s was interrupted by %s in %s but gave %s" % (W.describe(op), type(exc).__name__, where, out.brief()))
    r = W.Out(True, "skip")
    return r


def unlabelled(op, side, st):
    i = "ED".index(side)
    by = op.get("lk") or op["by"]
    mine = (lambda e: e[3] == by[1]) if by[0] == "label" else (lambda e: e[0] == RM.predkey(by))
    if not any(mine(e) and e[3] is not None for e in st[i]):
        return []
    n = tuple(e[:3] + (None,) if mine(e) else e for e in st[i])
    return [(n, st[1]) if i == 0 else (st[0], n)]


def judge_half(ctx, st):
    states = [st]
    cut = None
    for who, op, inv, ret, out in ctx.hist:
        o = op["o"]
        if out.ok and isinstance(out.val, str) and out.val == "skip":
            if o in RM.MUT:
                cut = op
                new = list(states)
                parts = [[o]] if o[-1] in "ED" else [[o + "E"], [o + "D"], [o + "E", o + "D"]]
                for ps in parts:
                    for x in states:
                        todo = [x]
                        for p in ps:
                            last = todo
                            todo = [n for y in todo for _, n in RM.apply(dict(op, o=p), y)]
                        new += todo
                        # or there is the registration, not yet or no longer with its label
                        for y in todo if o.startswith("reg") else last:
                            new += unlabelled(op, ps[-1][-1], y)
                states = new
        elif o in RM.MUT:
            nxt = [n for x in states for acc, n in RM.apply(op, x) if acc(out)]
            if not nxt:
                ctx.fail("change:" + o, "%s gave %s" % (W.describe(op), out.brief()))
            states = nxt
        else:
            es = [RM.expect(dict(op, o="has") if o == "copyread" else op, x) for x in states]
            if any(e is None for e in es):
                continue
            left = [x for x, e in zip(states, es) if e.match(out)]
            ctx.stat("half_" + o)
            if not left:
                ctx.fail("half-made", "%s gave %s although (after the interrupted %s) it must give %s" % (
                    W.describe(op), out.brief(), W.describe(cut) if cut else "nothing", " or ".join(sorted({e.brief() for e in es}))))
            states = left


def judge(ctx, st):
    if "half" in ctx.sc:
        return judge_half(ctx, st)
    state = st
    for who, op, inv, ret, out in ctx.hist:
        o = op["o"]
        if out.ok and isinstance(out.val, str) and out.val == "skip":
            continue  # interrupted; slot of an interrupted change is left alone by the workload
        if o in RM.MUT:
            for acc, n in RM.apply(op, state):
                if acc(out):
                    state = n
                    break
            else:
                ctx.fail("change:" + o, "%s gave %s" % (W.describe(op), out.brief()))
            continue
        if o == "parse":
            try:
                e = W.Exp(True, R.parse(op["ty"]).render())
            except R.BadType:
                e = W.Exp(False, cats=("badtype", "value"))
        elif o == "copyread":
            e = RM.expect(dict(op, o="has"), state)
        elif op["r"] == "-":
            e = W.expect(op)
        else:
            e = RM.expect(op, state)
        ctx.stat(o + ("_ok" if out.ok else "_rejected"))
        if e is not None and not e.match(out):
            ctx.fail("left-behind:" + o, "thread %s: %s gave %s, must give %s" % (who, W.describe(op), out.brief(), e.brief()))
