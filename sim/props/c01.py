"""C01 concurrent calls on shared codecs never affect each other"""
from .. import world as W
from . import common as K

ID = "C01"
QUICK, THOROUGH = 12000, 400000
RULE = ("a run = 2-4 simulated threads making 1-5 encode/decode/packed/is_encodable/is_encodable_type calls each over a "
        "small shared pool of types through codecs sharing a registry, cold caches or coders only looked up beforehand, seeded preemption at bytecode "
        "instructions; three runs in ten are waves: the threads meet again and again as first users of a registry nobody has used, on the same types; every outcome is compared with an independent reference coder; non-trivial = at least one "
        "preemptive switch happened; distinct = distinct (scenario outcome log, switch sequence) signatures")


def waves(rng, prof):
    """the threads meet again and again as the first users of a registry nobody has used, on the same types"""
    import json
    u = K.Uid()
    nt = rng.choice((2, 2, 2, 3))
    nw = rng.choice((4, 8, 14))
    types = K.pool(rng, rng.choice((1, 1, 2)), rng.choice((0, 1, 1, 2)), words=6)
    if rng.random() < 0.6:
        types = [rng.choice(("((%s))", "(bool,(%s,uint8))", "(%s)[]", "(%s)[2]", "%s[][]", "((%s,bytes),bool)", "(%s[],%s)")).replace("%s", t) for t in types]
    elif rng.random() < 0.5:  # containers of containers, in both orders
        types = [rng.choice(("(%s[])", "(%s)[]", "(%s[2],bool)", "(%s,bool)[2]", "((%s)[])", "(%s)[][]", "%s[]", "(%s)")).replace("%s", types[0]) for _ in range(3)]
    kinds = rng.choice((("dec",), ("dec",), ("enc",), ("enc", "isenc"), ("enc", "dec"), ("enc", "dec", "isenc", "istype")))
    packed = rng.random() < 0.15
    threads = [[] for _ in range(nt)]
    look = []
    looked = rng.random() < 0.6
    tmpl = [K.call_op(rng, u, types, kinds=kinds, codecs=("f",), bad=0.05, damage=0.05) for _ in range(rng.choice((1, 2, 3)))]
    for w in range(nw):
        c = "packedf%d" % w if packed else "f%d" % w
        same = rng.random() < 0.7
        t0 = rng.choice(tmpl)
        for th in threads:
            op = json.loads(json.dumps(t0 if same else rng.choice(tmpl)))
            if packed and op["o"] == "dec":
                op = {"o": "istype", "ty": (op["ty"] + types)[0]}
            th.append(dict(op, u=u(), c=c, w=w))
        if looked:
            look += [[c, t] for t in types]
    s = K.sched(rng, prof)
    if rng.random() < 0.5:
        s = {"mode": "walk", "mean": rng.choice((4, 8, 15, 25, 40)), "pb": 0.2}
    return {"look": look, "setup": [], "threads": threads, "finale": [], "sched": s}


def make(rng, idx, prof):
    if rng.random() < 0.3:
        return waves(rng, prof)
    u = K.Uid()
    types = K.pool(rng, rng.choice((1, 2, 3, 5)), rng.choice((1, 2, 3)), bad=0.06)
    nt = rng.choice((2, 2, 2, 3, 4))
    kinds = rng.choice((("enc", "dec", "dec", "isenc", "istype"), ("dec",), ("enc",), ("enc", "isenc"), ("enc", "dec")))
    threads = []
    for _ in range(nt):
        threads.append([K.call_op(rng, u, types, kinds=kinds) for _ in range(rng.randint(1, 5))])
    if rng.random() < 0.4:  # the same calls in every thread
        import json
        threads = [threads[0]] + [[dict(op, u=u()) for op in json.loads(json.dumps(threads[0]))] for _ in range(nt - 1)]
    setup = [K.call_op(rng, u, types, kinds=kinds) for _ in range(rng.choice((0, 0, 0, 2)))]
    finale = [K.call_op(rng, u, types) for _ in range(2)]
    # coders looked up beforehand, so that the threads share them without anyone having used them
    look = [[c, t] for t in types if rng.random() < 0.7 for c in ("std2", "packed2")] if rng.random() < 0.4 else []
    return {"look": look, "setup": setup, "threads": threads, "finale": finale, "sched": K.sched(rng, prof)}


def run(ctx):
    codecs = W.base_codecs()
    sim = ctx.make_sim()

    W.fresh_codecs(codecs, [op["c"] for th in ctx.sc["threads"] for op in th if "w" in op])
    at = {}

    def ex(op):
        if "w" in op and sim.cur is not None:  # nobody runs ahead into a later wave
            at[sim.cur] = op["w"]
            while any(not sim.done[i] and at.get(i, -1) < op["w"] for i in range(sim.n)):
                sim.voluntary_yield()
        return W.do_call(op, codecs)

    for c, t in ctx.sc.get("look", ()):
        if c in codecs:
            W.look(codecs, c, t)
    ctx.run_ops(ctx.sc["setup"], ex)
    ctx.run_threads(ex)
    ctx.run_ops(ctx.sc["finale"], ex, "end")
    # afterwards everything again, sequentially: nothing was left behind
    again = [op for _, op, _, _, _ in ctx.hist]
    sim.uninstrument()
    ctx.run_ops([dict(op, again=1) for op in again], ex, "again")
    judge(ctx)


def judge(ctx):
    for who, op, inv, ret, out in ctx.hist:
        e = W.expect(op)
        if e is None:
            ctx.stat("skipped")
            continue
        ctx.stat(op["o"] + ("_ok" if out.ok else "_rejected"))
        if not e.match(out):
            ctx.fail("wrong-result:" + op["o"], "thread %s: %s gave %s, must give %s" % (who, W.describe(op), out.brief(), e.brief()))
