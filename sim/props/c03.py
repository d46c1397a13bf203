"""C03 a registry is an exact lookup table over any history"""
from .. import refabi as R
from .. import regmodel as RM
from .. import world as W
from . import common as K

ID = "C03"
QUICK, THOROUGH = 12000, 400000
RULE = ("a run = a history of 8-40 (one run in 80: 200-1000) register/unregister/copy/lookup/encode/decode calls (valid, conflicting, ambiguous and "
        "malformed) on an evolving set of registries, in one simulated thread, compared call by call with a reference lookup "
        "table; the strategy registry is driven the same way in part of the runs; non-trivial = at least one accepted and one "
        "rejected change; distinct = distinct outcome logs")

TY = ["alpha", "beta", "alpha8", "uint8", "uint256", "uint", "bool", "int16"]
COMP = ["(alpha)", "(alpha,beta)", "(uint8,alpha)", "((beta),uint8)", "(alpha,(alpha8,uint256))"]
ARR = ["alpha[]", "beta[2]", "(alpha)[]", "(alpha[],uint8)", "alpha[][1]"]
BAD = ["alpha[", "", "(alpha", "()", "al pha", "alpha[0]", "8alpha"]
LABELS = ["alpha", "beta", "L1", "", "uint", "Alpha", "l1", "alpha ", "bool", "is_base_tuple", "BETA"]


def value_for(t, v):
    def go(p):
        if p.dims:
            inner = R.PT(p.base, p.sub, p.comps, p.dims[:-1])
            return [go(inner) for _ in range(p.dims[-1] if p.dims[-1] is not None else 2)]
        if p.comps is not None:
            return tuple(go(c) for c in p.comps)
        return (v % 2 == 0) if p.base == "bool" else v

    try:
        return go(R.parse(t))
    except R.BadType:
        return v


def lookup(rng):
    k = rng.randrange(9)
    if k <= 2:
        return ["str", rng.choice(("alpha", "beta", "alpha8", "uint8", "(alpha)", "alpha["))]
    if k == 3:
        return ["eq", rng.choice(("alpha", "beta", "alpha8", "uint256"))]
    if k == 4:
        return ["base", rng.choice(("alpha", "beta", "uint", "bool")), rng.choice((None, True, False))]
    if k == 5:
        n = rng.choice(("A", "B"))
        return ["fn", n, {"A": ["alpha", "alpha8"], "B": ["beta"]}[n]]
    if k == 6:
        n = rng.choice(("A", "B"))
        return ["meth", n, {"A": ["alpha"], "B": ["beta", "bool"]}[n]]
    if k == 7:
        n = rng.choice(("A", "A2", "B"))
        return ["eqp", n, {"A": ["alpha"], "A2": ["alpha"], "B": ["beta", "alpha8"]}[n]]
    n = rng.choice(("A", "B"))
    return ["part", n, {"A": ["alpha8"], "B": ["beta"]}[n]]


def make(rng, idx, prof):
    u = K.Uid()
    if rng.random() < 0.15:
        return make_strategy(rng, u)
    arrays = rng.random() < 0.4
    base = rng.choice(("empty", "lean", "lean", "lean", "lean", "copy", "std", "std", "packed"))
    dyn = base != "packed" and rng.random() < 0.3
    tag = [0]
    nreg = [0]
    regs = ["r"]
    live = {"r": []}
    made = []  # coders may be registered more than once
    ops = []

    def coder():
        tag[0] += 1
        if dyn and rng.random() < 0.5:
            return ["tag", tag[0], rng.choice(("dyn", "dynobj"))]
        if rng.random() < 0.2:
            return ["tag", tag[0], "obj"]
        return ["tag", tag[0], "cls" if arrays or rng.random() < 0.5 else "fn"]

    n = rng.randint(8, 40) if idx % 80 != 11 else rng.choice((200, 500, 1000))
    pm = rng.choice((0.3, 0.5, 0.7))
    types = TY + COMP + (ARR if arrays else []) + BAD[:rng.choice((0, 2, 7))]
    pool = rng.sample(types, min(len(types), rng.choice((3, 6, 30))))
    stdpool = [(s, l) for s, l in RM.STD if l in ("uint", "bool", "is_base_tuple", "has_arrlist")]
    for _ in range(n):
        r = rng.choice(regs)
        x = rng.random()
        if x < 0.015 and len(regs) > 1 and r != "r":  # dropped, its address may be used again
            ops.append({"u": u(), "o": "drop", "r": r})
            regs.remove(r)
        elif x < 0.05 and nreg[0] < 8:
            nreg[0] += 1
            nm = "r%d" % nreg[0]
            ops.append({"u": u(), "o": "copy", "r": r, "new": nm, "how": rng.choice(("method", "copy", "deep"))})
            regs.append(nm)
            live[nm] = list(live[r])
        elif x < pm:
            o = rng.choice(("regE", "regD", "reg", "reg", "unE", "unD", "un"))
            if rng.random() < 0.05:
                ops.append({"u": u(), "o": o, "r": r, "bogus": 1, "co": ["tag", 999, "fn"]})
            elif o.startswith("reg"):
                op = {"u": u(), "o": o, "r": r}
                if rng.random() < 0.15:  # a standard registration again
                    s, l = rng.choice(stdpool)
                    op.update(lk=s, co=["std", l], lb=l)
                else:
                    if live[r] and rng.random() < 0.25:
                        lk = rng.choice(live[r])[0]
                    else:
                        lk = lookup(rng)
                    op.update(lk=lk, co=rng.choice(made) if made and rng.random() < 0.15 else coder())
                    made.append(op["co"])
                    if rng.random() < 0.6:
                        op["lb"] = rng.choice(LABELS[:8])
                live[r].append((op["lk"], op.get("lb")))
                ops.append(op)
            else:
                c = rng.random()
                if c < 0.5 and live[r]:
                    lk, lb = rng.choice(live[r])
                    by = ["label", lk[1] if lk[0] == "str" else ("L1" if lb is None else lb)] if o == "un" or lk[0] == "str" or (lb is not None and rng.random() < 0.5) else lk
                elif c < 0.75 or o == "un":
                    by = ["label", rng.choice(LABELS)]
                else:
                    by = lookup(rng)
                    if by[0] == "str":
                        by = ["label", by[1]]
                if o == "un" and by[0] != "label":
                    by = ["label", rng.choice(LABELS)]
                ops.append({"u": u(), "o": o, "r": r, "by": by})
        else:
            t = rng.choice(pool)
            o = rng.choice(("enc", "enc", "dec", "dec", "isenc", "istype", "has", "getE", "getD"))
            v = rng.randint(0, 200)
            if o in ("enc", "isenc") and rng.random() < 0.12:
                v = rng.choice((-2, 2**300))  # a value every coder refuses
            op = {"u": u(), "o": o, "r": r, "ty": [t] if o in ("enc", "dec") else t}
            if o == "enc":
                op["v"] = [R.to_j(value_for(t, v))]
            elif o == "isenc":
                op["v"] = R.to_j(value_for(t, v))
            elif o == "dec":
                op["d"] = payload(t, v, dyn and rng.random() < 0.5)
            ops.append(op)
    fin = []
    for r in regs:
        for t in rng.sample(types, min(5, len(types))):
            fin.append({"u": u(), "o": "getE", "r": r, "ty": t})
            fin.append({"u": u(), "o": "dec", "r": r, "ty": [t], "d": payload(t, 1, dyn and rng.random() < 0.5)})
            fin.append({"u": u(), "o": "enc", "r": r, "ty": [t], "v": [R.to_j(value_for(t, 1))]})
    return {"ops": ops, "finale": fin, "base": base}


def payload(t, v, dyn=False):
    try:
        R.parse(t)
    except R.BadType:
        return "00" * 64
    return RM.layout(t, value_for(t, v % 2), dyn).hex()


LEAN = ("uint", "bool", "has_arrlist", "is_base_tuple")


def run(ctx):
    if ctx.sc.get("strategy"):
        return run_strategy(ctx)
    it = RM.Interp()
    b = ctx.sc["base"]
    it.base("r", b, LEAN)
    it.prepare(ctx.sc)
    st = RM.base_state(b, LEAN if b == "lean" else None)
    ctx.run_ops(ctx.sc["ops"], it)
    ctx.run_ops(ctx.sc["finale"], it, "end")
    RM.check_sequential(ctx, {"r": st})
    nontrivial(ctx)


def nontrivial(ctx):
    s = ctx.stats
    if any(k.startswith(("reg", "un")) and k.endswith("_ok") for k in s) and any(
            k.startswith(("reg", "un")) and k.endswith("_rejected") for k in s):
        ctx.stat("nontrivial")


# ------------------------------------------------------------------ strategy registry
def make_strategy(rng, u):
    ops = []
    tag = 0
    for _ in range(rng.randint(6, 25)):
        x = rng.random()
        if x < 0.35:
            tag += 1
            op = {"u": u(), "o": "sreg", "r": "s", "lk": lookup(rng), "tag": tag, "kind": rng.choice(("obj", "fac"))}
            if rng.random() < 0.6:
                op["lb"] = rng.choice(LABELS[:4])
            ops.append(op)
        elif x < 0.6:
            by = lookup(rng)
            if by[0] == "str" or rng.random() < 0.4:
                by = ["label", by[1] if by[0] == "str" else rng.choice(LABELS[:4])]
            ops.append({"u": u(), "o": "sun", "r": "s", "by": by})
        else:
            ops.append({"u": u(), "o": "sget", "r": "s", "ty": rng.choice(TY[:6] + ["(alpha)", "alpha[", "beta[]"])})
    return {"strategy": 1, "ops": ops}


def run_strategy(ctx):
    import eth_abi.tools._strategies as TS
    import hypothesis.strategies as st

    it = RM.Interp()
    reg = TS.StrategyRegistry()
    objs = {}
    calls = []

    def ex(op):
        o = op["o"]
        if o == "sreg":
            if op["kind"] == "obj":
                v = st.just(op["tag"])
            else:
                def v(abi_type, registry, tag=op["tag"]):
                    calls.append((tag, abi_type.to_type_str(), registry is reg))
                    return st.just(tag)
            objs[op["tag"]] = v
            return W.call(reg.register_strategy, it.pred(op["lk"]), v, **({"label": op["lb"]} if "lb" in op else {}))
        if o == "sun":
            return W.call(reg.unregister_strategy, op["by"][1] if op["by"][0] == "label" else it.pred(op["by"]))
        del calls[:]
        out = W.call(reg.get_strategy, op["ty"])
        if out.ok:
            for t, s in objs.items():
                if s is out.val:
                    out.val = ("obj", t)
                    break
            else:
                out.val = ("fac",) + tuple(calls)
        return out

    ctx.run_ops(ctx.sc["ops"], ex)
    side = ()
    kinds = {}
    for who, op, inv, ret, out in ctx.hist:
        o = op["o"]
        ctx.stat(o + ("_ok" if out.ok else "_rejected"))
        if o == "sreg":
            kinds[op["tag"]] = op["kind"]
            ok, n = RM._add(side, op["lk"], ("tag", op["tag"]), op.get("lb"))
            good = out.ok == ok and (ok or out.cat == "value")
            side = n
        elif o == "sun":
            ok, n = RM._remove(side, op["by"])
            good = out.ok == ok and (ok or out.cat == "key")
            side = n
        else:
            try:
                c = RM.find(side, op["ty"])
                if kinds[c[1]] == "obj":
                    good = out.ok and out.val == ("obj", c[1])
                else:
                    p = RM._parse(op["ty"])
                    if not p:
                        good = not out.ok
                    else:
                        good = out.ok and out.val == ("fac", (c[1], RM._canon(p).render(), True))
            except RM.Lookup as l:
                good = (not out.ok) and out.cat in (("badtype", "value") if l.cat == "badtype" else (l.cat,))
        if not good:
            ctx.fail("strategy:" + o, "%s gave %s, which the lookup table does not allow" % (W.describe(op), out.brief()))
    ctx.stat("nontrivial")
