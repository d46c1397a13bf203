"""C09 a damaged payload cannot make decode run away"""
import tracemalloc

from .. import gen
from .. import refabi as R
from .. import world as W
from . import common as K

ID = "C09"
STEPS = "calls, resumptions and loop iterations inside the code under test"
QUICK, THOROUGH = 7000, 250000
PER = 24
RULE = ("a run = 24 payloads of random (mostly array and byte-string) types in which counts, lengths and offsets are damaged to "
        "values between 0 and 2**256-1, or (one run in 40) 4 payloads of several hundred parts, decoded strictly and leniently while the simulator counts loop iterations and calls executed and "
        "allocated memory of each call; bound = generous constant times (nodes the reference decoder visits on the same bytes "
        "x 2**nesting); exceeding it, MemoryError or any error that is not a decoding error is a violation; non-trivial = at "
        "least one size word was damaged; distinct = distinct outcome logs")
STUBS = "payload transport (fault injector); step and memory meter"

LEAF = ["uint8", "uint256", "bytes", "string", "bool", "bytes32", "address", "int64"]
# measured on the base tree: below 5 steps and 512 bytes per reference node
STEPS_PER_NODE = 50
STEPS_FREE = 20000
MEM_PER_NODE = 8192
MEM_FREE = 400_000


def leaf(rng):
    return rng.choice(LEAF)


def size_word(rng, L):
    k = rng.randrange(8)
    if k == 0:
        return rng.choice((0, 1, L // 32, L // 32 + 1, L // 32 - 1, L, L + 1, L - 32))
    if k == 1:
        return 2 ** rng.randint(10, 24) + rng.choice((0, 1, -1, 31, 32))
    if k in (2, 3):
        return 2 ** rng.randint(20, 40)
    if k == 4:
        return 2 ** rng.randint(40, 66) - rng.choice((0, 1, 31, 32, 33))
    if k == 5:
        return 2 ** rng.randint(64, 256) - rng.choice((0, 1, 31, 32, 33))
    if k == 6:
        return rng.randrange(2**256)
    return rng.choice((2**63 - 1, 2**63, 2**31, 2**32, 2**64 - 32, 2**256 - 1, 2**255, 2**58, 2**59))


def wide(rng):
    """few payloads with very many small parts: the work must stay in proportion"""
    u = K.Uid()
    ops = []
    for _ in range(4):
        n = rng.choice((200, 400, 700, 1000))
        t = rng.choice(("bytes[]", "string[]", "uint8[]", "(bytes)[]", "uint16[][]", "(uint8,string)[]", "bytes", "string", "bool[2][]", "(bytes[],uint8)", "bytes[][]", "bytes[%d]" % n, "uint8[%d]" % n))
        ns = [R.resolve(t)]
        if t in ("bytes", "string"):
            v = b"a" * (n * 32 - rng.randrange(32))
            v = v if t == "bytes" else v.decode()
        else:
            it = {"bytes[]": b"", "string[]": "", "uint8[]": 1, "(bytes)[]": (b"",), "uint16[][]": (), "(uint8,string)[]": (1, ""), "bool[2][]": (True, False)}.get(t)
            if t == "(bytes[],uint8)":
                v = ((b"",) * n, 2)
            elif t == "bytes[][]":
                k = rng.choice((1, 2, 20))
                v = ((b"",) * (n // k),) * k
            elif it is None:
                v = ((b"x",) if t.startswith("bytes[") else (7,)) * n
            else:
                v = (it,) * n
        d = bytearray(R.encode(ns, [v]))
        f = 0
        k = rng.random()
        if k < 0.3:
            d = d[: rng.choice((len(d) - 32, len(d) - 1, len(d) // 2, len(d) // 2 + 32))]
            f = 1
        elif k < 0.55:
            small = [i for i in range(min(4, len(d) // 32)) if int.from_bytes(d[32 * i:32 * i + 32], "big") <= len(d)]
            if small:
                i = rng.choice(small)
                d[32 * i:32 * i + 32] = (size_word(rng, len(d)) % 2**256).to_bytes(32, "big")
                f = 1
        ops.append({"u": u(), "o": "dec", "ty": [t], "d": bytes(d).hex(), "strict": rng.random() < 0.6, "f": f})
    return {"ops": ops, "meter": rng.random() < 0.3, "sched": {"mode": "none"}}


def make(rng, idx, prof):
    if idx % 40 == 3:
        return wide(rng)
    u = K.Uid()
    ops = []
    pool = []
    for _ in range(PER):
        while True:
            if len(pool) >= 3 and rng.random() < 0.75:
                ty, ns = rng.choice(pool)
                break
            ty = [gen.typ(rng, rng.choice((1, 2, 2, 3, 4)), leaf) for _ in range(rng.choice((1, 1, 2)))]
            ns = [R.resolve(t) for t in ty]
            if sum(n.words for n in ns) <= 40 and any(n.dyn for n in ns):
                pool.append((ty, ns))
                break
        d = bytearray(R.encode(ns, gen.values(rng, ns, small=True)))
        if rng.random() < 0.1:
            d += bytes(rng.choice((32, 512, 4096)))
        nw = len(d) // 32
        small = [i for i in range(nw) if int.from_bytes(d[32 * i:32 * i + 32], "big") <= len(d)]
        f = 0
        for _ in range(rng.choice((0, 1, 1, 1, 1, 2, 3))):
            if small:
                i = rng.choice(small)
                d[32 * i:32 * i + 32] = (size_word(rng, len(d)) % 2**256).to_bytes(32, "big")
                f += 1
        if rng.random() < 0.1:
            d, _ = gen.damage(rng, bytes(d))
        ops.append({"u": u(), "o": "dec", "ty": ty, "d": bytes(d).hex(), "strict": rng.random() < 0.6, "f": f})
    return {"ops": ops, "meter": rng.random() < 0.5, "sched": {"mode": "none"}}


def depth(n):
    return 1 + max((depth(i) for i in n.items or ()), default=0)


def run(ctx):
    codecs = W.base_codecs()
    reg = W.registry_mod.registry
    sim = ctx.make_sim(count=True)
    meter = ctx.sc["meter"]
    if meter:
        tracemalloc.start()
    total = 0
    try:
        for op in ctx.sc["ops"]:
            data = bytes.fromhex(op["d"])
            ns = W.nodes_for(op["ty"])
            ref = R.Dec(data, op["strict"]).run(ns)
            if ref.overflow:
                ctx.stat("skipped_too_big")
                continue
            for t in op["ty"]:
                reg.get_decoder(t, strict=op["strict"])
            W.call(codecs["std"].decode, op["ty"], b"", strict=op["strict"])  # coders are built outside the meter
            dp = max(depth(n) for n in ns)
            nodes = (ref.work + sum(n.words for n in ns) + len(data) // 32 + 2) * 2 ** dp
            limit = STEPS_FREE + STEPS_PER_NODE * nodes
            mlimit = MEM_FREE + MEM_PER_NODE * nodes
            total += sim.steps
            sim.steps = 0
            sim.count_limit = limit
            if meter:
                cur = tracemalloc.get_traced_memory()[0]
                tracemalloc.reset_peak()
            out = W.do_call(op, codecs)
            peak = tracemalloc.get_traced_memory()[1] - cur if meter else 0
            sim.count_limit = None
            ctx.hist.append(("main", op, 0, 0, out))
            r1 = sim.steps / nodes
            for lim in (2, 5, 10, 25, 50, 100):
                if r1 > lim:
                    ctx.stat("steps_per_node_over_%d" % lim)
            for lim in (512, 2048, 8192):
                if peak / nodes > lim:
                    ctx.stat("bytes_per_node_over_%d" % lim)
            if op["f"]:
                ctx.stats["nontrivial"] = 1
                ctx.stat("fault_size_word", op["f"])
            ctx.stat("returned" if out.ok else "rejected_" + out.cls)
            if not out.ok and out.cat not in ("decoding", "unicode"):
                ctx.fail("not-a-decoding-error", "%s gave %s" % (W.describe(op), out.brief()))
            if peak > mlimit:
                ctx.fail("memory", "%s allocated %d kB at once for %d payload bytes" % (W.describe(op), peak >> 10, len(data)))
    finally:
        if meter:
            tracemalloc.stop()
    sim.steps += total
