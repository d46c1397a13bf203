"""C11 stream faults surface and never corrupt a decoded value"""
import errno

from .. import custom
from .. import gen
from .. import refabi as R
from .. import world as W
from . import common as K

import eth_abi.codec
from eth_abi import decoding, registry as LR

ID = "C11"
QUICK, THOROUGH = 14000, 500000
RULE = ("a run = either 6 (one run in 80: up to 250) decodes through a codec whose stream class fails at seeded calls (read error, short read, empty read, "
        "persistently short reads, seek error), each followed by a healthy decode; or a history of 10-60 (one run in 40: up to 1500) push/pop/seek/read "
        "operations on 1-3 interleaved frame-tracking streams compared with a list model; or decoders called directly on "
        "caller-made streams with frames already pushed; non-trivial = a fault fired, or a frame history ran; distinct = "
        "distinct outcome logs")
STUBS = "input stream (fault-injecting subclass of the library's stream class)"


def leaf(rng):
    if rng.random() < 0.4:
        return rng.choice(("bytes", "string"))
    return gen.leaf_type(rng)


def types(rng, pool):
    if pool and rng.random() < 0.6:
        return rng.choice(pool)
    while True:
        ty = [gen.typ(rng, rng.choice((0, 1, 2, 2, 3)), leaf) for _ in range(max(1, gen.nargs(rng)))]
        if sum(R.resolve(t).words for t in ty) <= 40:
            pool.append(ty)
            return ty


def make(rng, idx, prof):
    u = K.Uid()
    k = rng.random()
    pool = []
    ops = []
    if k < 0.6:
        for _ in range(6 if idx % 80 != 11 else rng.choice((100, 250))):
            ty = types(rng, pool) if len(pool) < 4 else rng.choice(pool)
            ns = [R.resolve(t) for t in ty]
            d = R.encode(ns, gen.values(rng, ns, small=True))
            if rng.random() < 0.15:
                d, _ = gen.damage(rng, d)
            op = {"u": u(), "o": "dec", "ty": ty, "d": d.hex(), "strict": rng.random() < 0.6, "f": []}
            for _ in range(rng.choice((1, 1, 1, 2, 3))):
                kind = rng.choice(("eio", "short", "short", "empty", "seek", "cap"))
                i = rng.randint(0, 8) if rng.random() < 0.6 else rng.randint(0, 60)
                cut = rng.choice((1, 1, 2, 16, 31, 32, rng.randint(1, 64)))
                op["f"].append([kind, i, cut])
            ops.append(op)
        return {"ops": ops, "what": "faults", "sched": {"mode": "none"}}
    if k < 0.8:
        ns = rng.choice((1, 2, 2, 3))
        sizes = [rng.choice((0, 1, 64, 200)) for _ in range(ns)]
        pm = rng.choice((0.2, 0.35, 0.5))
        for _ in range(rng.randint(10, 60) if idx % 40 != 11 else rng.choice((300, 1500))):
            s = rng.randrange(ns)
            o = rng.choice(("push", "push", "pop", "pop", "seekf", "read", "read", "tell", "seek"))
            x = rng.choice((0, 1, 5, 32, 64, rng.randint(0, 300), 2**31, 2**40)) if o != "read" else rng.choice((0, 1, 32, 33, 500, -1))
            ops.append({"u": u(), "o": o, "s": s, "x": x})
        return {"ops": ops, "sizes": sizes, "what": "frames", "sched": {"mode": "none"}}
    for _ in range(6):
        ty = types(rng, pool)
        ns = [R.resolve(t) for t in ty]
        vals = gen.values(rng, ns, small=True)
        frames = []
        tot = 0
        for _ in range(rng.choice((0, 1, 1, 2, 3))):
            f = rng.choice((0, 1, 7, 32, 64, 96))
            frames.append(f)
            tot += f
        ops.append({"u": u(), "o": "direct", "ty": ty, "d": (bytes(rng.randrange(256) for _ in range(tot)) + R.encode(ns, vals)).hex(),
                    "frames": frames, "tot": tot})
    return {"ops": ops, "what": "direct", "sched": {"mode": "none"}}


class FaultyDecoder(eth_abi.codec.ABIDecoder):
    stream_class = custom.HookedStream


def run(ctx):
    {"faults": faults, "frames": frames, "direct": direct}[ctx.sc["what"]](ctx)


def faults(ctx):
    codec = FaultyDecoder(LR.registry)
    for op in ctx.sc["ops"]:
        data = bytes.fromhex(op["d"])
        e = W.exp_decode(op["ty"], data, op["strict"])
        if e is None:
            continue
        count = {"read": 0, "seek": 0}
        fired = []
        errs = []

        def fault(what, arg):
            i = count[what]
            count[what] += 1
            for kind, at, cut in op["f"]:
                if what == "seek":
                    if kind == "seek" and at == i:
                        err = OSError(errno.EIO, "injected seek error")
                        errs.append(err)
                        ctx.stat("fault_seek_error")
                        raise err
                    continue
                if kind == "eio" and at == i:
                    err = OSError(errno.EIO, "injected read error")
                    errs.append(err)
                    ctx.stat("fault_read_error")
                    raise err
                if kind == "empty" and at == i:
                    fired.append(kind)
                    ctx.stat("fault_empty_read")
                    return 0
                if kind == "short" and at == i and arg is not None and arg > 0:
                    fired.append(kind)
                    ctx.stat("fault_short_read")
                    return max(0, arg - cut)
                if kind == "cap" and i >= at and arg is not None and arg > cut:
                    fired.append(kind)
                    ctx.stat("fault_capped_read")
                    return cut
            return arg

        custom.STREAM_FAULT = fault
        try:
            out = W.call(codec.decode, op["ty"], data, strict=op["strict"])
        finally:
            custom.STREAM_FAULT = None
        ctx.hist.append(("main", op, 0, 0, out))
        if errs:
            ctx.stats["nontrivial"] = 1
            # an error met while cleaning up after the first one may take its place
            if out.ok or not any(out.exc is x for x in errs):
                ctx.fail("io-error-lost", "%s: the stream raised %r but the call gave %s" % (W.describe(op), errs[0], out.brief()))
        elif fired:
            ctx.stats["nontrivial"] = 1
            if out.ok:
                ctx.stat("probe_right_despite_fault")
                if not (e.ok or e.either) or not R.same(out.val, e.val):
                    ctx.fail("wrong-value", "%s with %s gave %s; the payload spells %s" % (W.describe(op), fired, out.brief(), e.brief()))
            elif out.cat not in ("decoding", "unicode"):
                ctx.fail("wrong-error", "%s with %s gave %s" % (W.describe(op), fired, out.brief()))
        elif not e.match(out):
            ctx.fail("wrong-result", "%s gave %s, must give %s" % (W.describe(op), out.brief(), e.brief()))
        again = W.call(codec.decode, op["ty"], data, strict=op["strict"])
        ctx.hist.append(("again", op, 0, 0, again))
        if not e.match(again):
            ctx.fail("after-fault", "%s afterwards, on a healthy stream, gave %s, must give %s" % (W.describe(op), again.brief(), e.brief()))


def frames(ctx):
    ctx.stats["nontrivial"] = 1
    datas = [bytes((7 * i + 13 * j) % 256 for i in range(n)) for j, n in enumerate(ctx.sc["sizes"])]
    streams = [decoding.ContextFramesBytesIO(d) for d in datas]
    model = [{"pos": 0, "fr": []} for _ in datas]
    for op in ctx.sc["ops"]:
        s, m, d = streams[op["s"]], model[op["s"]], datas[op["s"]]
        o, x = op["o"], op["x"]
        tot = sum(f for f, _ in m["fr"])
        if o == "push":
            out = W.call(s.push_frame, x)
            m["fr"].append((x, m["pos"]))
            m["pos"] = tot + x
            good = out.ok
        elif o == "pop":
            out = W.call(s.pop_frame)
            if m["fr"]:
                _, m["pos"] = m["fr"].pop()
                good = out.ok
            else:
                good = not out.ok and isinstance(out.exc, IndexError)
        elif o == "seekf":
            out = W.call(s.seek_in_frame, x)
            m["pos"] = tot + x
            good = out.ok
        elif o == "seek":
            out = W.call(s.seek, x)
            m["pos"] = x
            good = out.ok
        elif o == "read":
            out = W.call(s.read, x)
            want = d[m["pos"]:] if x < 0 else d[m["pos"]:m["pos"] + x]
            m["pos"] += len(want)
            good = out.ok and out.val == want
        else:
            out = W.call(s.tell)
            good = True
        ctx.hist.append(("main", op, 0, 0, out))
        ctx.stat("frame_" + o)
        if not good:
            ctx.fail("frame:" + o, "%s gave %s, model position %d frames %r" % (W.describe(op), out.brief(), m["pos"], m["fr"]))
        for k, (st, mm) in enumerate(zip(streams, model)):
            if st.tell() != mm["pos"]:
                ctx.fail("position", "after %s stream %d is at %d, must be at %d" % (W.describe(op), k, st.tell(), mm["pos"]))


def direct(ctx):
    ctx.stats["nontrivial"] = 1
    for op in ctx.sc["ops"]:
        data = bytes.fromhex(op["d"])
        ns = [R.resolve(t) for t in op["ty"]]
        s = decoding.ContextFramesBytesIO(data)
        back = []
        for f in op["frames"]:
            back.append(s.tell())
            s.push_frame(f)
        start = s.tell()
        decs = [LR.registry.get_decoder(t) for t in op["ty"]]
        out = W.call(decoding.TupleDecoder(decoders=decs), s)
        ctx.hist.append(("main", op, 0, 0, out))
        want = R.Dec(data[op["tot"]:], True).run(ns)
        if not out.ok or not R.same(out.val, want.value):
            ctx.fail("framed-decode", "%s gave %s, must give %r" % (W.describe(op), out.brief(), want.value))
        head = start + 32 * sum(n.words for n in ns)
        if s.tell() != head:
            ctx.fail("position", "%s left the stream at %d, must be at %d" % (W.describe(op), s.tell(), head))
        ctx.stat("direct_ok")
        while back:
            p = W.call(s.pop_frame)
            b = back.pop()
            if not p.ok or s.tell() != b:
                ctx.fail("frame-stack", "%s: popping the caller's frame afterwards gave %s, position %d instead of %d" % (
                    W.describe(op), p.brief(), s.tell(), b))
        p = W.call(s.pop_frame)
        if p.ok or not isinstance(p.exc, IndexError):
            ctx.fail("frame-stack", "%s left an extra frame behind" % W.describe(op))
