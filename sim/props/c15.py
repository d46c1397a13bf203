"""C15 re-entrant calls behave like ordinary calls"""
from .. import custom
from .. import refabi as R
from .. import regmodel as RM
from .. import world as W
from . import common as K
from .regwork import Slots

import eth_abi.codec
import eth_abi.grammar as grammar

ID = "C15"
QUICK, THOROUGH = 14000, 500000
RULE = ("a run = a history of 3-8 codec, lookup, parse, copy and registration calls; inside most of them 1-3 further calls are "
        "made, either from a user matcher, coder factory, encoder, decoder or stream at its n-th invocation (nested up to two "
        "deep, in one run of twelve up to nine; a quarter of the runs: on ever new, unused registries), or at a seeded point of library code where CPython could run a signal handler or finalizer; nested and outer "
        "outcomes are compared with the reference under the registry states possible during the call; non-trivial = at least "
        "one nested call ran inside another")
STUBS = "thread scheduler, locks, clock, delivery of handlers; user-supplied coders and streams"


def first_use(rng, prof):
    """one call on registries nobody has used yet, each with another call nested at another point"""
    u = K.Uid()
    packed = rng.random() < 0.15
    pre = "packedf" if packed else "f"
    types = K.pool(rng, 1, rng.choice((0, 1, 1, 2)), words=8)[:1]
    if rng.random() < 0.6:
        types = [rng.choice(("((%s))", "(bool,(%s,uint8))", "(%s)[]", "(%s)[2]", "%s[][]", "((%s,bytes),bool)", "(%s[],%s)")).replace("%s", types[0])]
    types += K.pool(rng, 1, rng.choice((0, 1)), words=8)[:1]
    kinds = ("enc", "isenc") if packed else rng.choice((("dec",), ("enc",), ("enc", "isenc"), ("enc", "dec", "isenc", "istype")))
    tmpl = K.call_op(rng, u, types[:1], kinds=kinds, codecs=("f",), bad=0.05, damage=0.05)
    others = [K.call_op(rng, u, types, kinds=kinds, codecs=("f",), bad=0.1, damage=0.1) for _ in range(3)]
    n = rng.choice((6, 12, 20))
    at = rng.random()
    ops = []
    warm = rng.random() < 0.4  # or: always the same registry
    for k in range(n):
        c = "%s%d" % (pre, 0 if warm else k)
        at = (at + (rng.random() if rng.random() < 0.5 else 1.0 / n)) % 1.0
        inner = [dict(tmpl if rng.random() < 0.4 else rng.choice(others), u=u(), c=c, r="-") for _ in range(rng.choice((1, 1, 2)))]
        ops.append(dict(tmpl, u=u(), c=c, r="-", nest={"via": "point", "frac": round(at, 5), "n": 1, "ops": inner}))
        if rng.random() < 0.5:
            ops.append(dict(tmpl, u=u(), c=c, r="-"))
    return {"setup": [], "ops": ops, "finale": [], "base": "std", "sched": {"mode": "none"},
            "first": dict(tmpl, c=pre + "dry", r="-"), "looked": types if rng.random() < 0.4 else [], "warm": warm}


def make(rng, idx, prof):
    if rng.random() < 0.25:
        return first_use(rng, prof)
    u = K.Uid()
    sl = Slots(rng, rng.choice((1, 2, 2, 3)), rng.random() < 0.5)
    types = K.pool(rng, 2, rng.choice((0, 1, 2)))
    muts = [0]
    deep, again = (2, 0.25) if rng.random() < 0.92 else (rng.choice((4, 6, 9)), 0.8)

    def mutator():
        muts[0] += 1
        s = rng.choice(sl.slots)
        o = rng.choice(("reg", "reg", "regE", "regD", "un", "un", "unE", "unD"))
        return sl.reg(rng, u, s, o) if o.startswith("reg") else sl.un(rng, u, s, o)

    def reader(hooked=False):
        x = rng.random() * (0.75 if hooked else 1.0)
        if x < 0.7:
            kinds = ("enc", "enc", "dec", "dec", "dec", "isenc", "istype", "has", "getE", "getD")
            return sl.read(rng, u, rng.choice(sl.slots), comp=rng.choice((0.0, 0.6, 0.9)), **({"kinds": kinds} if hooked else {}))
        if x < 0.76:
            return {"u": u(), "o": "parse", "r": "-", "ty": rng.choice(types)}
        if x < 0.82:
            return {"u": u(), "o": "copyuse", "r": "r", "ty": rng.choice(types)}
        op = K.call_op(rng, u, types, bad=0.15, damage=0.15)
        op["r"] = "-" if op["c"].startswith("packed") else "r"
        return op

    def nested(outer, depth, quiet):
        # no registration change inside another one: how two half-done changes mix is not specified
        quiet = quiet or outer["o"] in RM.MUT
        ops = []
        for _ in range(rng.choice((1, 1, 2, 3)) if deep == 2 else 1):
            if rng.random() < 0.3 and not quiet and muts[0] < 6:
                op = mutator()
            elif rng.random() < 0.25 and outer["o"] not in RM.MUT and outer["o"] not in ("parse", "copyuse"):
                op = {k: v for k, v in outer.items() if k != "nest"}  # the very same call again
                op["u"] = u()
            else:
                op = reader()
            if depth < deep and rng.random() < again:
                op["nest"] = nest(op, depth + 1, quiet)
            ops.append(op)
        return ops

    def nest(outer, depth, quiet=False):
        k = rng.random()
        if depth == 1 and k < 0.2:
            n = {"via": "point", "n": int(2 ** rng.uniform(0, 9.5))}
            if prof and rng.random() < 0.6:
                n["loc"] = rng.choice(prof)
                n["n"] = rng.choice((1, 1, 2, 3))
        elif k < 0.7 or outer["o"] != "dec":
            o = outer["o"]
            kinds = ("pred", "fac", "enc", "enc") if o == "enc" else ("pred", "fac", "dec", "dec") if o == "dec" else ("pred", "pred", "fac")
            n = {"via": "hook", "kind": rng.choice(kinds), "n": rng.choice((1, 1, 1, 2, 3))}
        else:
            n = {"via": "stream", "kind": rng.choice(("read", "read", "seek")), "n": rng.choice((1, 2, 3, 6, 10))}
        n["ops"] = nested(outer, depth, quiet)
        return n

    setup = [sl.reg(rng, u, s, "reg") for s in sl.slots if not s["std"] and rng.random() < 0.8]
    ops = []
    for _ in range(rng.randint(3, 8)):
        op = mutator() if rng.random() < 0.15 and muts[0] < 6 else reader(True)
        if rng.random() < 0.85:
            op["nest"] = nest(op, 1)
        ops.append(op)
    finale = []
    for s in sl.slots:
        for c in (0.0, 1.0):
            finale.append(sl.read(rng, u, s, kinds=("enc", "dec"), comp=c))
            finale.append(sl.read(rng, u, s, kinds=("isenc", "has", "getE", "getD"), comp=c))
    return {"setup": setup, "ops": ops, "finale": finale, "base": rng.choice(("std", "copy")), "sched": {"mode": "none"}}


class NestDecoder(eth_abi.codec.ABIDecoder):
    stream_class = custom.HookedStream


def flat(ops):
    for op in ops:
        yield op
        if "nest" in op:
            yield from flat(op["nest"]["ops"])


def run(ctx):
    it = RM.Interp()
    b = ctx.sc["base"]
    it.base("r", b)
    it.prepare({"ops": list(flat(ctx.sc["ops"])), "setup": ctx.sc["setup"]})
    st = RM.base_state(b)
    codecs = W.base_codecs()
    sim = ctx.make_sim(points=True)
    it.codecs["r_stream"] = NestDecoder(it.regs["r"])
    npoints = 1
    if "first" in ctx.sc:
        W.fresh_codecs(codecs, [ctx.sc["first"]["c"]] + [op["c"] for op in ctx.sc["ops"]])
        for c in [c for c in codecs if c.startswith(("f", "packedf"))]:
            for t in ctx.sc["looked"]:
                W.look(codecs, c, t)
        if ctx.sc["warm"]:
            W.do_call(ctx.sc["first"], codecs)
        sim.count_points = True
        p0 = sim.points
        W.do_call(ctx.sc["first"], codecs)
        npoints = max(1, sim.points - p0)
        sim.count_points = False
    stack = []  # innermost running op's [via, kind, remaining, ops]

    def hook(kind, tag):
        fire("hook", kind)

    def stream(kind, arg):
        fire("stream", kind)
        return arg

    def fire(via, kind):
        if not stack or stack[-1] is None:
            return
        f = stack[-1]
        if f["via"] == via and f["kind"] == kind:
            f["left"] -= 1
            if f["left"] == 0:
                saved = sim.armed.pop(sim.cur, None)
                enter(f["ops"], via + "_" + kind)
                if saved is not None:
                    sim.armed[sim.cur] = saved

    custom.HOOK = hook
    custom.STREAM_FAULT = stream

    def enter(ops, how):
        sim.fired.append("nested_in_" + how)
        for op in ops:
            ex(op, "nested")

    def plain(op):
        o = op["o"]
        if o == "parse":
            return W.call(lambda: grammar.parse(op["ty"]).to_type_str())
        if o == "copyuse":
            return W.call(lambda: it.regs["r"].copy().has_encoder(op["ty"]))
        if op["r"] == "-":
            return W.do_call(op, codecs)
        if o == "dec" and op.get("nest", {}).get("via") == "stream":
            return W.do_call(dict(op, c="r_stream"), it.codecs)
        return it(op)

    def ex(op, who):
        n = op.get("nest")
        sim.seq += 1
        inv = sim.seq
        if n and n["via"] == "point":
            stack.append(None)
            sim.arm(1 + int(n["frac"] * npoints) if "frac" in n else n["n"], lambda: enter(n["ops"], "point"), n.get("loc"))
        else:
            stack.append(dict(n, left=n["n"]) if n else None)
        try:
            out = plain(op)
        finally:
            stack.pop()
            if n and n["via"] == "point":
                sim.disarm()
        sim.seq += 1
        ctx.hist.append((who, op, inv, sim.seq, out))
        return out

    for part in ("setup", "ops", "finale"):
        for op in ctx.sc[part]:
            ex(op, part)
    full = ctx.hist
    rest = []
    for h in full:
        who, op, inv, ret, out = h
        if op["r"] == "-" or op["o"] == "copyuse":
            if op["o"] == "parse":
                e = W.Exp(True, R.parse(op["ty"]).render())
            elif op["o"] == "copyuse":
                e = None if out.ok else W.Exp(True, True)
            else:
                e = W.expect(op)
            if e is not None and not e.match(out):
                ctx.fail("wrong:" + op["o"], "%s: %s gave %s, must give %s" % (who, W.describe(op), out.brief(), e.brief()))
        else:
            rest.append(h)
    ctx.hist = rest
    try:
        RM.check_concurrent(ctx, {"r": st})
    finally:
        ctx.hist = full
