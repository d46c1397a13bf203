"""C07 strict decode of a damaged payload is right or rejected, never wrong"""
from .. import gen
from .. import refabi as R
from .. import world as W
from . import common as K

ID = "C07"
QUICK, THOROUGH = 9000, 300000
STRICT = True
PER = 30
RULE = ("a run = 30 payloads, each made by encoding random values of random types and damaging the bytes with 0-3 injected "
        "faults (bit/byte flips, truncation, extension, overwritten/shifted/dropped/duplicated/swapped/spliced words, padding "
        "and length/offset corruption), decoded in sequence by one process with warm and cold coders; outcome compared with an "
        "independent reference decoder; non-trivial = at least one damaged payload in the run; distinct = distinct outcome logs")
STUBS = "payload transport (fault injector)"


def leaf(rng):
    # byte strings and small items dominate: that is where layout damage bites
    if rng.random() < 0.35:
        return rng.choice(("bytes", "string"))
    return gen.leaf_type(rng)


def one(rng, u, strict, pool):
    if pool and rng.random() < 0.4:
        ty = rng.choice(pool)
    else:
        while True:
            ty = [gen.typ(rng, rng.choice((0, 1, 2, 2, 3)), leaf) for _ in range(max(1, gen.nargs(rng)))]
            if rng.random() < 0.12:  # heads with wide static parts
                k = rng.choice((1, 2))
                ty = [rng.choice(("(%s,%s)", "%s[2]", "%s[2][2]", "(%s,bool)[2]", "((%s,%s),%s)")).replace("%s", gen.leaf_type(rng)) for _ in range(k)]
                ty.insert(rng.randint(0, k), rng.choice(("bytes", "string", "uint8[]", "(bytes)", "string[1]")))
                if rng.random() < 0.4:
                    ty = [rng.choice(("(%s)", "(%s)[]", "(%s)[1]")) % ",".join(ty)]
            if sum(R.resolve(t).words for t in ty) <= 60:
                break
        pool.append(ty)
    ns = [R.resolve(t) for t in ty]
    vals = gen.values(rng, ns, small=rng.random() < 0.7)
    if rng.random() < 0.05:
        i = rng.randrange(len(ns))
        if ns[i].kind == "array" and ns[i].a is None:
            vals[i] = [gen.value(rng, ns[i].items[0], True) for _ in range(rng.choice((17, 33, 70)))]
    elif rng.random() < 0.012:  # long ones
        i = rng.randrange(len(ns))
        n = ns[i]
        if n.kind == "array" and n.a is None and n.items[0].words <= 4:
            v = gen.value(rng, n.items[0], True)
            vals[i] = [v if rng.random() < 0.9 else gen.value(rng, n.items[0], True) for _ in range(rng.choice((255, 256, 257, 300, 1030)))]
        elif n.kind in ("bytes", "string"):
            k = rng.choice((255, 256, 257, 1000, 1024, 1025, 4096, 4097, 65536, 70001))
            vals[i] = bytes(rng.randrange(256) for _ in range(k)) if n.kind == "bytes" else "x" * k
    d = R.encode(ns, vals)
    other = b""
    kinds = []
    n = rng.choice((0, 1, 1, 1, 1, 2, 3))
    for _ in range(n):
        if rng.random() < 0.1:
            other = R.encode(ns, gen.values(rng, ns, small=True))
        d, k = gen.damage(rng, d, other)
        kinds.append(k)
    op = {"u": u(), "o": "dec", "ty": ty, "d": d.hex(), "f": kinds}
    if strict is False or rng.random() < 0.5:
        op["strict"] = strict
    return op


def make(rng, idx, prof):
    u = K.Uid()
    pool = []
    return {"ops": [one(rng, u, STRICT, pool) for _ in range(PER)], "sched": {"mode": "none"}}


def judge(ctx, op, out, e):
    if e is None:
        ctx.stat("skipped_too_big")
        return
    ctx.stat("accepted" if out.ok else "rejected_" + out.cls)
    if op["f"]:
        ctx.stat("damaged_accepted" if out.ok else "damaged_rejected")
    if e.either:
        ctx.stat("either_allowed")
    if not e.match(out):
        cls = "accepted-damage" if out.ok and not e.ok else "wrong-value" if out.ok else (
            "wrong-error" if not e.ok or out.cat not in ("decoding", "unicode") else "rejected-intact")
        ctx.fail(cls, "%s gave %s, must give %s" % (W.describe(op), out.brief(), e.brief()))


def run(ctx):
    codecs = W.base_codecs()
    ctx.fired = []
    for op in ctx.sc["ops"]:
        out = W.do_call(op, codecs)
        ctx.hist.append(("main", op, 0, 0, out))
        for k in op["f"]:
            ctx.stat("fault_" + k)
        if op["f"]:
            ctx.stats["nontrivial"] = 1
        judge(ctx, op, out, W.exp_decode(op["ty"], bytes.fromhex(op["d"]), op.get("strict", True)))
