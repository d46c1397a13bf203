"""C13 caller data is never modified or aliased, payloads are read atomically"""
import gc

from .. import gen
from .. import refabi as R
from .. import world as W
from . import common as K

ID = "C13"
QUICK, THOROUGH = 14000, 500000
RULE = ("a run = either 4-14 (one run in 80: up to 150) encode/packed/is_encodable/decode calls that share mutable argument objects (lists, nested lists, "
        "byte arrays, type lists, payload buffers) which the caller changes between calls (to rubbish, or to other proper contents for a further call with the same objects), with all results held and re-read at "
        "the end; or 1-2 simulated threads decoding a byte array that another simulated thread rewrites (also resizes), "
        "preempted at bytecode instructions, each result compared with decoding every state the buffer had during the call; "
        "non-trivial = a buffer was rewritten, or arguments were changed after a call; distinct = distinct (outcome log, switch "
        "sequence)")
STUBS = "thread scheduler, locks, clock"


def mut(v, rng, p=0.6):
    """bytes -> bytearray, tuple -> list, here and there"""
    if isinstance(v, bytes):
        return bytearray(v) if rng.random() < p else v
    if isinstance(v, (list, tuple)):
        r = [mut(x, rng, p) for x in v]
        return r if rng.random() < p else tuple(r)
    return v


def leaf(rng):
    if rng.random() < 0.5:
        return rng.choice(("bytes", "string", "bytes32", "bytes4", "bytes"))
    return gen.leaf_type(rng)


def tys(rng):
    while True:
        ty = [gen.typ(rng, rng.choice((0, 1, 2, 2)), leaf) for _ in range(max(1, gen.nargs(rng)))]
        if sum(R.resolve(t).words for t in ty) <= 24:
            return ty


def make(rng, idx, prof):
    u = K.Uid()
    pool = [tys(rng) for _ in range(rng.choice((1, 2, 3)))]
    if rng.random() < 0.5:
        ops = []
        objs = 0
        for _ in range(rng.randint(4, 14) if idx % 80 != 11 else rng.choice((60, 150))):
            ty = rng.choice(pool)
            ns = [R.resolve(t) for t in ty]
            o = rng.choice(("enc", "enc", "dec", "isenc"))
            if o == "dec":
                d = R.encode(ns, gen.values(rng, ns, small=True))
                if rng.random() < 0.15:
                    d, _ = gen.damage(rng, d)
                ops.append({"u": u(), "o": o, "c": "std", "ty": ty, "d": d.hex(), "buf": rng.random() < 0.7, "strict": rng.random() < 0.7})
            else:
                vals = [mut(v, rng) for v in gen.values(rng, ns, small=True)]
                if rng.random() < 0.15:
                    i = rng.randrange(len(vals))
                    b = gen.bad_value(rng, ns[i])
                    vals[i] = b if gen.jsonable_bad(b) else None
                c = rng.choice(("std", "std2", "packed"))
                if o == "enc":
                    ops.append({"u": u(), "o": o, "c": c, "ty": ty, "v": [R.to_j(v) for v in vals]})
                else:
                    ops.append({"u": u(), "o": o, "c": c, "ty": ty[0], "v": R.to_j(vals[0])})
            if rng.random() < 0.7:
                ops[-1]["scribble"] = 1
            if rng.random() < 0.3:
                ops[-1]["reuse"] = 1  # same argument objects a second time
            if rng.random() < 0.4:  # and again, after the caller changed their contents to something sensible
                if o == "dec":
                    ty2 = ty if rng.random() < 0.7 else rng.choice(pool)
                    ns = [R.resolve(t) for t in ty2]
                    ops[-1]["amend"] = [R.encode(ns, gen.values(rng, ns, small=True)).hex(), ty2]
                else:
                    vals = gen.values(rng, ns, small=True)
                    ops[-1]["amend"] = [R.to_j(v) for v in (vals if o == "enc" else vals[:1])]
            ops[-1]["tup"] = rng.choice((0, 0, 1, 2, 3))
        return {"ops": ops, "what": "alias", "sched": {"mode": "none"}}
    ty = pool[0]
    ns = [R.resolve(t) for t in ty]
    states = []
    L = None
    for _ in range(rng.choice((2, 3, 4))):
        d = R.encode(ns, gen.values(rng, ns, small=True))
        if rng.random() < 0.15:
            d, _ = gen.damage(rng, d)
        states.append(d.hex())
    if rng.random() < 0.4:  # same layout, different leaf bytes
        d = bytearray(bytes.fromhex(states[0]))
        e = bytearray(d)
        for _ in range(4):
            if e:
                j = rng.randrange(len(e))
                e[j] ^= rng.choice((1, 2, 0x10))
        states = [bytes(d).hex(), bytes(e).hex()] * 2
    threads = [[{"u": u(), "o": "write", "k": k} for k in range(1, len(states))]]
    for _ in range(rng.choice((1, 1, 2))):
        threads.append([{"u": u(), "o": "dec", "strict": rng.random() < 0.7} for _ in range(rng.choice((1, 2, 3)))])
    threads.append(threads.pop(0))
    return {"threads": threads, "what": "race", "ty": ty, "states": states, "warm": rng.random() < 0.6, "sched": K.sched(rng, prof)}


def run(ctx):
    (alias if ctx.sc["what"] == "alias" else race)(ctx)


def snap(v):
    if isinstance(v, list):
        return ["l"] + [snap(x) for x in v]
    if isinstance(v, tuple):
        return ["t"] + [snap(x) for x in v]
    if isinstance(v, (bytes, bytearray)):
        return [type(v).__name__, bytes(v)]
    return [type(v).__name__, repr(v)]


def scribble(v):
    """change everything changeable"""
    if isinstance(v, (list, tuple)):
        for x in v:
            scribble(x)
        if isinstance(v, list):
            v.append("scribble")
            if len(v) > 2:
                del v[0]
    elif isinstance(v, bytearray):
        for i in range(len(v)):
            v[i] ^= 0xA5
        v += b"zz"


def morph(v, new):
    """give v the contents of new, as far as that can be done in place"""
    if isinstance(v, list) and isinstance(new, (list, tuple)):
        for i, x in enumerate(new):
            if i >= len(v):
                v.append(x)
            elif not morph(v[i], x):
                v[i] = x
        del v[len(new):]
        return True
    if isinstance(v, bytearray) and isinstance(new, (bytes, bytearray)):
        v[:] = new
        return True
    if isinstance(v, tuple) and isinstance(new, (list, tuple)) and len(v) == len(new):
        return all([morph(x, y) for x, y in zip(v, new)])
    return False


def amended(op, args):
    """change the argument objects; the call they now amount to"""
    if op["o"] == "dec":
        morph(args[1], bytes.fromhex(op["amend"][0]))
        morph(args[0], op["amend"][1])
        return dict(op, ty=list(args[0]), d=bytes(args[1]).hex())
    new = [R.from_j(v) for v in op["amend"]]
    if op["o"] == "enc":
        morph(args[1], new)
        return dict(op, v=[R.to_j(v) for v in args[1]])
    morph(args[1], new[0])
    return dict(op, v=R.to_j(args[1]))


def alias(ctx):
    codecs = W.base_codecs()
    held = []
    for op in ctx.sc["ops"]:
        c = codecs[op["c"]]
        o = op["o"]
        if o == "dec":
            ty = list(op["ty"])
            data = bytes.fromhex(op["d"])
            buf = bytearray(data) if op["buf"] else data
            args = (ty, buf)
            kw = {"strict": op["strict"]}
            fn = c.decode
        elif o == "enc":
            args = (list(op["ty"]), [R.from_j(v) for v in op["v"]])
            kw = {}
            fn = c.encode
        else:
            args = (op["ty"], R.from_j(op["v"]))
            kw = {}
            fn = c.is_encodable
        tup = op.get("tup", 0)
        if o == "enc":
            args = (tuple(args[0]) if tup & 1 else args[0], tuple(args[1]) if tup & 2 else args[1])
        elif o == "dec" and tup & 1:
            args = (tuple(args[0]), buf)
        e = W.expect(op)
        now = op
        n = 2 if op.get("reuse") else 1
        for rnd in range(n + (1 if "amend" in op else 0)):
            if rnd == n:
                try:
                    now = amended(op, args)
                except BufferError as err:
                    if out.ok:
                        ctx.fail("storage-shared", "%s still holds the caller's buffer after returning: %r" % (W.describe(op), err))
                    break
                e = W.expect(now)
                ctx.stat("amended_" + o)
            before = [snap(a) for a in args]
            out = W.call(fn, *args, **kw)
            ctx.hist.append(("main", op, 0, 0, out))
            ctx.stat(o + ("_ok" if out.ok else "_rejected"))
            if [snap(a) for a in args] != before:
                ctx.fail("argument-changed", "%s changed its arguments from %r to %r" % (W.describe(op), before, [snap(a) for a in args]))
            if e is not None and not e.match(out):
                ctx.fail("wrong-result", "%s (round %d with the same argument objects) gave %s, must give %s" % (
                    W.describe(now), rnd + 1, out.brief(), e.brief()))
            if out.ok:
                held.append((now, out.val, snap(out.val)))
        if op.get("scribble"):
            ctx.stats["nontrivial"] = 1
            try:
                for a in args:
                    scribble(a)
            except BufferError as err:
                if out.ok:
                    ctx.fail("storage-shared", "%s still holds the caller's buffer after returning: %r" % (W.describe(op), err))
            for hop, v, s in held:
                if snap(v) != s:
                    ctx.fail("result-changed", "the result of %s was %r and became %r when the arguments of %s were changed" % (
                        W.describe(hop), s, snap(v), W.describe(op)))
    for hop, v, s in held:
        if snap(v) != s:
            ctx.fail("result-changed", "the result of %s was %r and became %r after later calls" % (W.describe(hop), s, snap(v)))


def race(ctx):
    codecs = W.base_codecs()
    sc = ctx.sc
    states = [bytes.fromhex(s) for s in sc["states"]]
    buf = bytearray(states[0])
    if sc["warm"]:
        for s in (True, False):
            W.call(codecs["std"].decode, sc["ty"], states[0], strict=s)
    sim = ctx.make_sim()

    def ex(op):
        if op["o"] == "write":
            try:
                buf[:] = states[op["k"]]
            except BufferError:
                return W.Out(True, "busy")
            ctx.stats["nontrivial"] = 1
            out = W.Out(True, "written")
            out.msg = sim.seq = sim.seq + 1
            sim.voluntary_yield()
            return out
        return W.call(codecs["std"].decode, sc["ty"], buf, strict=op["strict"])

    ctx.run_threads(ex)
    # the write itself is atomic: it happened right before sequence number out.msg
    writes = [(out.msg, out.msg, op["k"]) for who, op, inv, ret, out in ctx.hist if op["o"] == "write" and out.val == "written"]
    failed = False
    for who, op, inv, ret, out in ctx.hist:
        if op["o"] != "dec":
            continue
        failed |= not out.ok
        cand = []
        base = 0
        for wi, wr, k in sorted(writes):
            if wr < inv:
                base = k
            elif wi < ret:
                cand.append(k)
        cand.append(base)
        exps = [W.exp_decode(sc["ty"], states[k], op["strict"]) for k in cand]
        ctx.stat("decode_of_%d_states" % min(len(cand), 3))
        if not any(e is None or e.match(out) for e in exps):
            ctx.fail("torn-payload", "decode of %r (strict=%s) gave %s; the buffer states during the call give %s" % (
                sc["ty"], op["strict"], out.brief(), " or ".join(e.brief() for e in exps)))
    if not failed:
        gc.collect()
        try:
            buf += b"more"
        except BufferError as err:
            ctx.fail("storage-shared", "the payload buffer is still held after all decodes of %r returned: %r" % (sc["ty"], err))
