"""pieces shared by the property workloads"""
from .. import gen
from .. import refabi as R


class Uid:
    def __init__(self):
        self.n = 0

    def __call__(self):
        self.n += 1
        return self.n


def sched(rng, prof, heavy=False):
    r = rng.random()
    if r < 0.5:
        return {"mode": "walk", "mean": rng.choice((4, 10, 25, 60, 150, 400, 1000, 2500)), "pb": rng.choice((0.0, 0.2, 0.6))}
    if r < 0.75:
        return {"mode": "loc", "fns": rng.choice((1, 1, 2, 4)), "bps": 0, "reps": rng.choice((1, 2)), "pf": rng.choice((0.03, 0.1, 0.3)),
                "pb": rng.choice((0.0, 0.2, 0.6)), "keys": prof}
    return {"mode": "loc", "bps": rng.choice((1, 2, 3, 6, 12, 30)), "reps": rng.choice((1, 1, 2, 4)),
            "pf": rng.choice((0.5, 1.0)), "pb": rng.choice((0.0, 0.2, 0.6)), "keys": prof}


def pool(rng, n=4, depth=2, bad=0.0, leaf=gen.leaf_type, words=24):
    ts = []
    while len(ts) < n:
        if bad and rng.random() < bad:
            ts.append(rng.choice(gen.BAD_TYPES))
            continue
        t = gen.typ(rng, rng.randint(0, depth), leaf)
        if R.resolve(t).words > words:
            continue
        ts.append(t)
        if rng.random() < 0.3 and len(ts) < n:  # a composite of the same element
            ts.append(rng.choice(["(%s)", "%s[]", "%s[2]", "(%s,uint8)"]) % t)
    return ts


def many_types(rng, n):
    """many distinct small types"""
    out = []
    while len(out) < n:
        k = rng.randrange(4)
        t = gen.leaf_type(rng)
        out.append(t if k == 0 else "%s[%d]" % (t, rng.randint(1, 6)) if k == 1 else "%s[]" % t if k == 2 else "(%s,%s)" % (t, gen.leaf_type(rng)))
    return out


def flood_types(rng, n):
    """n distinct small types, n up to some thousands"""
    leaves = ["uint%d" % (8 * i) for i in range(1, 33)] + ["int%d" % (8 * i) for i in range(1, 33)] + ["bytes%d" % i for i in range(1, 33)] + [
        "bool", "address", "string", "bytes", "fixed128x18", "ufixed8x1"]
    out = set()
    while len(out) < n:
        a, b = rng.choice(leaves), rng.choice(leaves)
        out.add(rng.choice(("(%s,%s)" % (a, b), "(%s,%s[])" % (a, b), "(%s[2],%s)" % (a, b), "%s[%d]" % (a, rng.randint(1, 9)), a)))
    out = sorted(out)
    rng.shuffle(out)
    return out


def call_op(rng, u, types, codecs=("std", "std", "std2", "packed", "packed2"), bad=0.1, kinds=("enc", "dec", "dec", "isenc", "istype"),
            damage=0.1, strict=(None, True, False)):
    """one random stateless call over the given types"""
    o = rng.choice(kinds)
    if o == "dec":
        codecs = [c for c in codecs if not c.startswith("packed")]
    c = rng.choice(codecs)
    if o == "istype":
        return {"u": u(), "o": o, "c": c, "ty": rng.choice(types)}
    if o == "isenc":
        t = rng.choice(types)
        try:
            n = R.resolve(t)
        except R.BadType:
            return {"u": u(), "o": o, "c": c, "ty": t, "v": ["i", "0x1"]}
        v = gen.value(rng, n, small=True) if rng.random() > max(bad, 0.3) else gen.bad_value(rng, n)
        if not gen.jsonable_bad(v):
            v = None
        return {"u": u(), "o": o, "c": c, "ty": t, "v": R.to_j(v)}
    ty = [rng.choice(types) for _ in range(gen.nargs(rng))]
    try:
        ns = [R.resolve(t) for t in ty]
    except R.BadType:
        ns = None
    if o == "enc":
        if ns is None:
            vals = [1] * len(ty)
        else:
            vals = gen.values(rng, ns, small=True)
            if vals and rng.random() < bad:
                i = rng.randrange(len(vals))
                v = gen.bad_value(rng, ns[i])
                vals[i] = v if gen.jsonable_bad(v) else None
        return {"u": u(), "o": o, "c": c, "ty": ty, "v": [R.to_j(v) for v in vals]}
    if ns is None:
        d = b"\0" * 64
    else:
        d = R.encode(ns, gen.values(rng, ns, small=True))
        if rng.random() < damage:
            d, _ = gen.damage(rng, d)
    op = {"u": u(), "o": "dec", "c": c, "ty": ty, "d": d.hex()}
    s = rng.choice(strict)
    if s is not None:
        op["strict"] = s
    return op


def nudge(rng, v):
    """a value that differs in one small place"""
    if isinstance(v, (list, tuple)) and v:
        i = rng.randrange(len(v))
        return type(v)(nudge(rng, x) if k == i else x for k, x in enumerate(v))
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return rng.choice((v + 1, v - 1, v ^ (1 << rng.randrange(max(1, v.bit_length())))))
    if isinstance(v, (bytes, bytearray)) and v:
        i = rng.choice((0, len(v) - 1, len(v) // 2, rng.randrange(len(v))))
        return type(v)(bytes(v[:i]) + bytes([v[i] ^ rng.choice((1, 0x20, 0x80))]) + bytes(v[i + 1:]))
    if isinstance(v, str) and v.startswith("0x") and len(v) > 2:  # an address: another digit
        i = rng.choice((2, len(v) - 1, rng.randrange(2, len(v))))
        return v[:i] + rng.choice("0123456789abcdef") + v[i + 1:]
    if isinstance(v, str) and v:
        i = rng.choice((0, len(v) - 1, len(v) // 2, rng.randrange(len(v))))
        return v[:i] + rng.choice("abAB1 \u00e9") + v[i + 1:]
    return v


def near(rng, u, op):
    """the same call with one small difference"""
    op = dict(op, u=u())
    if op["o"] == "enc":
        vs = [R.from_j(v) for v in op["v"]]
        vs = list(nudge(rng, vs)) if vs else vs
        op["v"] = [R.to_j(v) for v in vs]
    elif op["o"] == "isenc":
        op["v"] = R.to_j(nudge(rng, R.from_j(op["v"])))
    elif op["o"] == "dec":
        d = bytearray.fromhex(op["d"])
        if d:
            nz = [i for i, x in enumerate(d) if x] or [0]
            i = rng.choice(nz) if rng.random() < 0.7 else rng.randrange(len(d))
            d[i] ^= rng.choice((1, 2, 0x20, 0x80))
        op["d"] = bytes(d).hex()
    return op
