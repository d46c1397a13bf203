"""C08 lenient decode forgives padding only"""
from .. import gen
from .. import refabi as R
from .. import world as W
from . import c07
from . import common as K

ID = "C08"
QUICK, THOROUGH = 8000, 300000
RULE = ("a run = 30 payloads as for C07, part of them with damage confined to byte-string padding (missing, non-zero, extra), "
        "decoded with strict=False and compared with the reference decoder under lenient rules; each is also decoded strictly: "
        "lenient must accept whatever strict accepts, with the same values; non-trivial = at least one damaged payload")
STUBS = c07.STUBS


def pad_damage(rng, d):
    d = bytearray(d)
    k = rng.randrange(3)
    if k == 0:
        n = len(d)
        while n and d[n - 1] == 0 and len(d) - n < 31:
            n -= 1
        return bytes(d[: rng.randint(n, len(d))]), "padcut"
    if k == 1 and d:
        # words ending in zeros: dirty some of the trailing zeros
        ws = [i for i in range(0, len(d) - 31, 32) if d[i + 31] == 0]
        if ws:
            i = rng.choice(ws)
            z = 31
            while z >= 0 and d[i + z] == 0:
                z -= 1
            for _ in range(rng.choice((1, 1, 3))):
                d[i + rng.randint(z + 1, 31)] = rng.choice((1, 0x20, 0x80, 0xFF))
        return bytes(d), "paddirt"
    return bytes(d) + rng.choice((b"\0", b"\xff" * 3, b"\0" * 32, b"\x01" * 40)), "padextra"


def make(rng, idx, prof):
    u = K.Uid()
    pool = []
    ops = []
    for _ in range(30):
        if rng.random() < 0.4:
            ty = [rng.choice(("bytes", "string", "bytes", "string", "uint16", "(bytes)", "string[]", "bytes32")) for _ in range(rng.choice((1, 1, 2, 3)))]
            ns = [R.resolve(t) for t in ty]
            d, k = pad_damage(rng, R.encode(ns, gen.values(rng, ns)))
            ops.append({"u": u(), "o": "dec", "ty": ty, "d": d.hex(), "f": [k], "strict": False})
        else:
            ops.append(c07.one(rng, u, False, pool))
    return {"ops": ops, "sched": {"mode": "none"}}


def run(ctx):
    codecs = W.base_codecs()
    for op in ctx.sc["ops"]:
        data = bytes.fromhex(op["d"])
        first = ctx.rng.random() < 0.5
        so = W.do_call(dict(op, strict=True), codecs) if first else None
        out = W.do_call(op, codecs)
        if so is None:
            so = W.do_call(dict(op, strict=True), codecs)
        ctx.hist.append(("main", op, 0, 0, out))
        for k in op["f"]:
            ctx.stat("fault_" + k)
        if op["f"]:
            ctx.stats["nontrivial"] = 1
        c07.judge(ctx, op, out, W.exp_decode(op["ty"], data, False))
        if so.ok:
            ctx.stat("strict_accepts_too")
            if not out.ok or not R.same(out.val, so.val):
                ctx.fail("stricter-than-strict", "%s gave %s but strict decoding gave %s" % (W.describe(op), out.brief(), so.brief()))
        elif out.ok:
            ctx.stat("probe_forgiven")
