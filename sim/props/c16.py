"""C16 results do not depend on call history"""
from decimal import Decimal

from .. import refabi as R
from .. import regmodel as RM
from .. import world as W
from . import common as K

ID = "C16"
QUICK, THOROUGH = 9000, 400000
RULE = ("a run = a history of 20-160 encode, packed encode, decode, is_encodable and is_encodable_type calls in one thread on "
        "the standard, packed and custom codecs; types repeat or are all different, values repeat, recur as equal values of "
        "another python type (1/True/Decimal(1), bytes/bytearray, list/tuple, 1.0/1.00) or as near twins differing in one leaf or one byte, some calls fail; one run in 450 is a flood of 300-6000 distinct types or values; every outcome is "
        "compared with the reference for that call alone; non-trivial = some type was used at least twice; distinct = "
        "distinct outcome log")
STUBS = "none; clock and locks are watched"

TWINS = [1, True, Decimal(1), Decimal("1.0"), Decimal("1.00"), 0, False, Decimal(0), Decimal("-0"), Decimal("0.0"), b"\x01", bytearray(b"\x01"),
         b"", "", [1], (1,), [True], (True,), [], (), "1", "0x" + "00" * 20, b"\0" * 20, "0x" + "Ab" * 20, "0x" + "ab" * 20, None, 2**8, -1, 2**255]
TWIN_TYPES = ["bool", "uint8", "uint256", "int8", "int256", "fixed8x1", "ufixed128x18", "bytes", "bytes1", "bytes32", "string", "address",
              "bool[]", "uint8[]", "bool[1]", "uint8[1]", "(bool)", "(uint8)", "bytes[]", "bytes1[]", "string[]", "fixed128x18[]", "(fixed8x1)", "address[]"]
CUST = ["gamma", "delta8", "eps"]


def flood(rng, u):
    """very many different types, or values of one type, then early ones again"""
    n = rng.choice((300, 600, 1100, 1100, 2200)) if rng.random() < 0.9 else 6000
    ops = []
    if rng.random() < 0.6:
        for t in K.flood_types(rng, n):
            ops.append(K.call_op(rng, u, [t], codecs=("std", "packed2"), kinds=("enc", "dec", "istype"), bad=0.02, damage=0.02))
    else:
        ts = K.pool(rng, 2, 1)
        ops = [K.call_op(rng, u, ts, codecs=("std", "packed2"), kinds=("enc", "dec", "isenc"), bad=0.02, damage=0.02) for _ in range(n)]
    again = ops[:40] + rng.sample(ops, 60) + ops[-10:]
    rng.shuffle(again)
    return {"ops": ops + [dict(op, u=u()) for op in again], "sched": {"mode": "none"}}


def make(rng, idx, prof):
    u = K.Uid()
    if idx % 450 == 5:
        return flood(rng, u)
    style = rng.choice(("twins", "few", "many", "mixed", "mixed", "custom", "near"))
    n = rng.choice((20, 40, 80)) if style != "many" else rng.choice((80, 160))
    if style == "many":
        types = K.many_types(rng, rng.choice((40, 80, 140)))
        types = [t for t in types if R.resolve(t).words <= 24]
    elif style == "near":  # calls that differ in one small place, also long strings
        types = K.pool(rng, 2, 2) + ["bytes", "string", rng.choice(("address", "address", "address[]", "bytes32", "uint160", "fixed128x18")), rng.choice(("bytes[]", "(string,uint8)", "string[2]", "uint256[]"))]
    else:
        types = K.pool(rng, rng.choice((2, 4, 8)), 2, bad=0.1)
    past = []
    ops = []
    i = 0
    for k in range(n):
        x = rng.random()
        if style == "near" and past and x < 0.6:
            op = K.near(rng, u, rng.choice(past[-8:]))
        elif style == "near" and x < 0.75:
            t = rng.choice(("bytes", "string", "bytes[]", "(string,uint8)"))
            v = lengthy(rng, "string" in t)
            v = [v] if "[" in t else (v, 5) if "(" in t else v
            if rng.random() < 0.7:
                op = {"u": u(), "o": "enc", "c": rng.choice(("std", "std", "std2", "packed", "packed2")), "ty": [t], "v": [R.to_j(v)]}
            else:
                op = {"u": u(), "o": "dec", "c": "std", "ty": [t], "d": R.encode([R.resolve(t)], [v]).hex()}
        elif past and x < 0.25:
            op = dict(rng.choice(past))  # the same call again
            op["u"] = u()
            if rng.random() < 0.3 and op["o"] != "dec":
                op["c"] = rng.choice(("std", "std2", "packed", "packed2", "cust"))
            if rng.random() < 0.3 and op["o"] == "dec":
                op["strict"] = rng.random() < 0.5
        elif style == "twins" or (style == "mixed" and x < 0.5):
            t = rng.choice(TWIN_TYPES)
            v = rng.choice(TWINS)
            if "fixed" in t and not nobool(v):
                v = 1
            c = rng.choice(("std", "std", "std2", "packed", "packed2", "cust"))
            if rng.random() < 0.5:
                op = {"u": u(), "o": "enc", "c": c, "ty": [t], "v": [R.to_j(v)]}
            else:
                op = {"u": u(), "o": "isenc", "c": c, "ty": t, "v": R.to_j(v)}
        elif style == "custom" and x < 0.7:
            t = rng.choice(CUST)
            f, v = rng.choice((("%s", 7), ("%s[]", [7, 8]), ("(%s,bool)", (9, True)), ("%s[2]", [1, 2])))
            if t == "eps":  # a plain function: only by itself and in tuples
                f, v = rng.choice((("%s", 7), ("(%s,bool)", (9, True)), ("(%s,bool)", (-9, True)), ("(bool,(%s))", (True, (rng.choice((1, 0, -1, 2**64, "x", True)),)))))
            if rng.random() < 0.3:
                v = rng.choice(TWINS)
            if rng.random() < 0.5:
                op = {"u": u(), "o": "enc", "c": "cust", "ty": [f % t], "v": [R.to_j(v)]}
            else:
                op = {"u": u(), "o": "isenc", "c": rng.choice(("cust", "cust", "std", "packed")), "ty": f % t, "v": R.to_j(v)}
        else:
            if style == "many":
                t = [types[i % len(types)]]
                i += 1
            else:
                t = types
            op = K.call_op(rng, u, t, codecs=("std", "std", "std2", "packed", "packed2", "cust"), bad=0.25, damage=0.25)
        past.append(op)
        ops.append(op)
    return {"ops": ops, "sched": {"mode": "none"}}


def lengthy(rng, text):
    n = rng.choice((31, 32, 33, 64, 65, 100, 128, 200, 257, 600, 1025))
    if text:
        return rng.choice("abc") * n
    return bytes([rng.randrange(256)]) * n if rng.random() < 0.5 else rng.randbytes(n)


def nobool(v):
    if isinstance(v, (list, tuple)):
        return all(nobool(x) for x in v)
    return not isinstance(v, bool)


def run(ctx):
    it = RM.Interp()
    it.base("r", "copy")
    setup = [{"u": 0, "o": "reg", "r": "r", "lk": ["str", t], "co": ["tag", i + 1, "fn" if t == "eps" else "cls"]} for i, t in enumerate(CUST)]
    for op in setup:
        it(op)
    codecs = dict(W.base_codecs(), cust=it.codecs["r"])
    ctx.make_sim()
    ctx.run_ops(ctx.sc["ops"], lambda op: W.do_call(op, codecs))
    env = {t: R.N("custom", RM.Leaf(i + 1)) for i, t in enumerate(CUST)}
    seen = {}
    for who, op, inv, ret, out in ctx.hist:
        e = W.expect(op, env if op.get("c") == "cust" else None)
        ctx.stat(op["o"] + ("_ok" if out.ok else "_rejected"))
        k = str(op["ty"])
        seen[k] = seen.get(k, 0) + 1
        if e is not None and not e.match(out):
            ctx.fail("wrong:" + op["o"], "call %d of the history: %s gave %s, must give %s" % (ret, W.describe(op), out.brief(), e.brief()))
    if any(v > 1 for v in seen.values()):
        ctx.stats["nontrivial"] = 1
