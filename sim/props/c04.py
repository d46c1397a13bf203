"""C04 copies and separate registries are isolated"""
from .. import refabi as R
from .. import regmodel as RM
from .. import world as W
from . import common as K
from .regwork import Slots

ID = "C04"
QUICK, THOROUGH = 12000, 400000
RULE = ("a run = 1-3 simulated threads that copy registries (copy(), copy.copy, copy.deepcopy), change originals and copies and "
        "read through all of them, in part of the runs also the packed registry; a copy must start as a snapshot of one moment of the copy call "
        "and every registry must then (one run in 80: over a long history)  follow only its own changes; non-trivial = a copy and a change happened; "
        "distinct = distinct (outcome log, switch sequence)")
LEAN = ("uint", "bool", "has_arrlist", "is_base_tuple")


def make(rng, idx, prof):
    u = K.Uid()
    sl = Slots(rng, rng.choice((1, 2, 2)), rng.random() < 0.4)
    base = rng.choice(("lean", "lean", "copy", "std", "empty"))
    regs = ["r", "q"] if rng.random() < 0.3 else ["r"]  # q: the packed registry
    if len(regs) > 1:
        sl.dyn = False
    kinds = rng.choice((("enc", "dec", "isenc", "has"), ("enc",), ("dec",), ("enc", "dec", "isenc", "istype", "has", "getE", "getD")))
    comp = rng.choice((0.0, 0.4, 0.8))
    nreg = [0]
    churn = rng.random() < 0.25  # copies come and go

    def copyop(r):
        nreg[0] += 1
        nm = "r%d" % nreg[0]
        regs.append(nm)
        return {"u": u(), "o": "copy", "r": r, "new": nm, "how": rng.choice(("method", "copy", "deep"))}

    def mut(r):
        s = rng.choice(sl.slots)
        if rng.random() < 0.5:
            return sl.un(rng, u, s, rng.choice(("unE", "unD", "un", "un")), r)
        return sl.reg(rng, u, s, rng.choice(("regE", "regD", "reg", "reg")), r)

    def read(r):
        if rng.random() < 0.1 and "q" not in regs:
            return {"u": u(), "o": "pk", "r": "-", "ty": ["uint8", "bool"], "v": [R.to_j(rng.randrange(256)), R.to_j(True)], "c": "packed"}
        return sl.read(rng, u, rng.choice(sl.slots), r, kinds=kinds, comp=comp)

    setup = []
    for s in sl.slots:
        if not s["std"] and rng.random() < 0.6:
            setup.append(sl.reg(rng, u, s, "reg"))
    for _ in range(rng.choice((0, 1, 2))):
        setup.append(read("r"))
    if rng.random() < 0.4:
        setup.append(copyop("r"))
    threads = []
    long = idx % 80 == 11
    if rng.random() < 0.5 and not long:
        nt = rng.choice((2, 2, 3))
    else:
        nt = 1
    muts = 0
    for t in range(nt):
        ops = []
        if nt == 1 and churn:  # one short-lived copy after the other, each with other coders
            for _ in range(rng.randint(3, 8) if not long else rng.choice((30, 80))):
                c = copyop("r")
                ops.append(c)
                for s in sl.slots:
                    ops.append(sl.un(rng, u, s, "un", c["new"]))
                    ops.append(sl.reg(rng, u, s, "reg", c["new"]))
                    ops.append(sl.read(rng, u, s, c["new"], kinds=kinds, comp=0.9))
                ops.append({"u": u(), "o": "drop", "r": c["new"]})
                regs.remove(c["new"])
        for _ in range(rng.randint(2, 5) if nt > 1 else rng.randint(4, 14) if not long else rng.choice((80, 200, 400))):
            x = rng.random()
            r = rng.choice(regs)
            if x < 0.25 and len(regs) < 6:
                ops.append(copyop(r))
            elif x < 0.6 and (muts < 7 or nt == 1):
                muts += 1
                ops.append(mut(r))
            else:
                ops.append(read(r))
        threads.append(ops)
    finale = []
    for r in regs:
        for s in sl.slots:
            for c in (0.0, 1.0):
                finale.append(sl.read(rng, u, s, r, kinds=kinds, comp=c))
    # after everything: a late change to each registry, then all are read again
    for r in regs:
        if rng.random() < 0.5:
            finale.append(mut(r))
            for r2 in regs:
                finale.append(sl.read(rng, u, rng.choice(sl.slots), r2, kinds=kinds, comp=comp))
    if "q" not in regs:
        finale.append({"u": u(), "o": "pk", "r": "-", "ty": ["uint8", "bool"], "v": [["i", "0x7"], ["b", True]], "c": "packed"})
    sched = K.sched(rng, prof) if nt > 1 else {"mode": "none"}
    sc = {"setup": setup, "threads": threads, "finale": finale, "sched": sched, "base": base}
    if long:
        sc["long"] = 1
    return sc


def run(ctx):
    it = RM.Interp()
    b = ctx.sc["base"]
    it.base("r", b, LEAN)
    it.base("q", "packed")
    it.prepare(ctx.sc)
    st = RM.base_state(b, LEAN if b == "lean" else None)
    codecs = W.base_codecs()
    ctx.make_sim()

    def ex(op):
        if op["o"] == "pk":
            return W.do_call(dict(op, o="enc"), codecs)
        return it(op)

    ctx.run_ops(ctx.sc["setup"], ex)
    ctx.run_threads(ex)
    ctx.run_ops(ctx.sc["finale"], ex, "end")
    rest = []
    for h in ctx.hist:
        if h[1]["o"] == "pk":
            e = W.expect(dict(h[1], o="enc"))
            if not e.match(h[4]):
                ctx.fail("packed", "%s gave %s, must give %s" % (W.describe(h[1]), h[4].brief(), e.brief()))
        else:
            rest.append(h)
    full = ctx.hist
    ctx.hist = rest
    try:
        (RM.check_sequential if "long" in ctx.sc else RM.check_concurrent)(ctx, {"r": st, "q": RM.base_state("packed")})
    finally:
        ctx.hist = full
    if any(k == "copy_ok" for k in ctx.stats) and any(k.startswith(("reg", "un")) and k.endswith("_ok") for k in ctx.stats):
        ctx.stat("nontrivial")
