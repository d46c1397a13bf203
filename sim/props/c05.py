"""C05 the strict flag of a decode call applies to that call only"""
from .. import gen
from .. import refabi as R
from .. import world as W
from . import common as K

from eth_abi import decoding, registry as LR
import eth_abi.codec
from .. import custom

ID = "C05"
QUICK, THOROUGH = 14000, 400000
RULE = ("a run = 1-3 simulated threads making 2-8 (one run in 60: up to 600) decode and decoder-lookup calls each with strict on, off and default, over "
        "few byte-string types (also inside tuples and arrays, and custom types whose decoder is a ready-made object) with "
        "intact, missing, non-zero and truncated padding, preempted at bytecode instructions; each outcome is compared with the "
        "reference decoder for that call's own flag; non-trivial = a payload that strict and lenient must treat differently "
        "was decoded with both flags in the run")

ENV = {
    "text": R.N("string", errors="replace"),
    "blob": R.N("bytes"),
    "shout": R.N("string", b="upper"),
    "lax": R.N("string", errors="ignore"),
    "blob2": R.N("bytes"),  # the decoder object of blob once more
    "soft": R.N("bytes"),  # a decoder object made with strict=False
    "klass": R.N("string", b="upper"),  # a user's decoder class
    "single": R.N("string", b="upper"),  # one that always hands out the same object
}
DIRECT = ["bytes", "string", "text", "blob", "shout", "lax", "blob2", "soft", "klass", "single"]
NEST = ["(blob2,bytes)", "(soft)", "klass[1]", "(single,bool)", "(bytes)", "string[]", "(uint8,string)", "bytes[2]", "(text,bool)", "blob[]", "(bytes,(string))"]


def make(rng, idx, prof):
    u = K.Uid()
    cust = rng.random() < 0.6
    cand = DIRECT if cust else DIRECT[:2]
    types = [rng.choice(cand) for _ in range(rng.choice((1, 2, 2)))]
    if rng.random() < 0.5:
        n = rng.choice(NEST)
        if cust or not any(c in n for c in ("text", "blob", "soft", "klass", "single")):
            types.append(n)
    if rng.random() < 0.3:
        types.append("uint16")
    payloads = []
    for _ in range(rng.choice((1, 2, 3))):
        ty = [rng.choice(types) for _ in range(rng.choice((1, 1, 1, 2, 2, 3, 5, 8)))]
        ns = [R.resolve(t, ENV) for t in ty]
        d = bytearray(R.encode(ns, gen.values(rng, ns, small=True)))
        k = rng.random()
        if k < 0.2:
            pass
        elif k < 0.5:  # cut padding off the end
            n = len(d)
            while n and d[n - 1] == 0 and len(d) - n < 31:
                n -= 1
            d = d[: rng.randint(n, len(d))]
        elif k < 0.8:  # dirty the last padding byte(s)
            if d and d[-1] == 0:
                for j in range(1, rng.choice((2, 2, 3, 9))):
                    if j <= len(d) and d[-j] == 0:
                        d[-j] = rng.choice((1, 0x80, 0xFF))
        else:
            d = bytearray(gen.damage(rng, bytes(d))[0])
        payloads.append((ty, bytes(d).hex()))

    def op():
        if rng.random() < 0.12:
            return {"u": u(), "o": "get", "ty": rng.choice(types), "strict": rng.choice((True, False, None)), "c": "r"}
        if held and rng.random() < 0.25:  # use a decoder that was looked up (and kept) earlier, on a stream of one's own
            h = rng.choice(held)
            return {"u": u(), "o": "use", "k": h[0], "ty": [h[1]], "d": rng.choice(hp[h[1]]), "strict": h[2], "c": "r"}
        ty, d = rng.choice(payloads)
        o = {"u": u(), "o": "dec", "ty": ty, "d": d, "c": "r"}
        s = rng.choice((True, False, None))
        if s is not None:
            o["strict"] = s
        if rng.random() < both:
            o["c"] = "r2"
        return o

    held, hp = [], {}
    if rng.random() < 0.3:
        for t in sorted({t for t in types if t in DIRECT}):
            d = bytearray(R.encode([R.resolve(t, ENV)], gen.values(rng, [R.resolve(t, ENV)], small=True)))
            e = bytearray(d)
            if e[-1] == 0:
                e[-1] = 1
            hp[t] = [bytes(x).hex() for x in (d, e, d[:-1] if d[-1] == 0 else d)]
        held = [(k, t, st) for k, (t, st) in enumerate((t, st) for t in sorted(hp) for st in (True, False))]
    both = rng.choice((0.0, 0.0, 0.4))  # a copy of the registry in use as well
    nt = rng.choice((1, 2, 2, 3))
    if idx % 60 == 11:
        nt = 1
    threads = [[op() for _ in range(rng.choice((100, 300, 600)) if idx % 60 == 11 else rng.randint(2, 8) if nt == 1 else rng.randint(1, 4))] for _ in range(nt)]
    finale = []
    for ty, d in payloads:
        for s in rng.sample((True, False), 2):
            finale.append({"u": u(), "o": "dec", "ty": ty, "d": d, "c": "r", "strict": s})
    return {"setup": [op() for _ in range(rng.choice((0, 0, 2)))], "threads": threads, "finale": finale, "cust": cust, "held": held, "late": rng.random() < 0.5,
            "sched": K.sched(rng, prof) if nt > 1 else {"mode": "none"}}


def run(ctx):
    if ctx.sc["cust"]:
        reg = LR.registry.copy()
        enc = LR.encoding.TextStringEncoder
        reg.register("text", enc, decoding.StringDecoder(handle_string_errors="replace"))
        reg.register("lax", enc, decoding.StringDecoder(handle_string_errors="ignore"))
        reg.register("shout", enc, custom.UpperDecoder())
        d = decoding.ByteStringDecoder()
        reg.register("blob", LR.encoding.ByteStringEncoder, d)
        reg.register("blob2", LR.encoding.ByteStringEncoder, d)
        d = decoding.ByteStringDecoder()
        d.strict = False
        reg.register("soft", LR.encoding.ByteStringEncoder, d)
        reg.register("klass", enc, custom.KlassDecoder)
        reg.register("single", enc, custom.SingletonDecoder)
    else:
        reg = LR.registry
    codecs = {"r": eth_abi.codec.ABICodec(reg)}
    if not ctx.sc["late"]:
        codecs["r2"] = eth_abi.codec.ABICodec(reg.copy())
    ctx.make_sim()

    keep = {k: reg.get_decoder(t, strict=st) for k, t, st in ctx.sc.get("held", ())}

    def ex(op):
        if op["o"] == "use":
            stream = decoding.ContextFramesBytesIO(bytes.fromhex(op["d"]))
            stream.seek(32)
            out = W.call(keep[op["k"]], stream)
            if out.ok:
                out.val = (out.val,)
            return out
        if op["o"] == "get":
            kw = {} if op["strict"] is None else {"strict": op["strict"]}
            out = W.call(reg.get_decoder, op["ty"], **kw)
            if out.ok:
                out.val = "decoder"
            return out
        return W.do_call(op, codecs)

    for op in ctx.sc["setup"]:
        op["c"] = "r"
    ctx.run_ops(ctx.sc["setup"], ex)
    if ctx.sc["late"]:
        codecs["r2"] = eth_abi.codec.ABICodec(reg.copy())
    ctx.run_threads(ex)
    ctx.run_ops(ctx.sc["finale"], ex, "end")
    seen = {}
    for who, op, inv, ret, out in ctx.hist:
        if op["o"] == "get":
            ctx.stat("lookup")
            if not out.ok:
                ctx.fail("lookup", "%s gave %s" % (W.describe(op), out.brief()))
            continue
        e = W.exp_decode(op["ty"], bytes.fromhex(op["d"]), op.get("strict", True), ENV)
        if e is None:
            continue
        st = op.get("strict", True)
        ctx.stat("%s_%s" % ("strict" if st else "lenient", "ok" if out.ok else "rejected"))
        seen.setdefault((tuple(op["ty"]), op["d"]), {})[st] = out.ok
        if not e.match(out):
            ctx.fail("strict-leak" if out.ok != e.ok else "wrong-result", "thread %s: %s gave %s, must give %s" % (
                who, W.describe(op), out.brief(), e.brief()))
    if any(len(set(v.values())) == 2 for v in seen.values()):
        ctx.stat("nontrivial")
        ctx.stat("probe_flag_matters")
