"""Seeded generators: types, values, damaged payloads.  All choices come from one Random."""
from decimal import Decimal

from . import refabi as R

LEAVES = (
    ["uint%d" % b for b in (8, 16, 64, 128, 248, 256)]
    + ["int%d" % b for b in (8, 24, 128, 256)]
    + ["uint", "int", "bool", "address", "bytes", "string", "bytes", "string", "function"]
    + ["bytes%d" % b for b in (1, 4, 20, 31, 32)]
    + ["ufixed8x1", "ufixed128x18", "fixed128x18", "fixed256x80", "fixed8x1", "ufixed256x1", "fixed", "ufixed"]
)


def leaf_type(rng):
    if rng.random() < 0.25:
        k = rng.randrange(4)
        if k == 0:
            return "uint%d" % (8 * rng.randint(1, 32))
        if k == 1:
            return "int%d" % (8 * rng.randint(1, 32))
        if k == 2:
            return "bytes%d" % rng.randint(1, 32)
        return "%sfixed%dx%d" % (rng.choice(["", "u"]), 8 * rng.randint(1, 32), rng.randint(1, 80))
    return rng.choice(LEAVES)


def deep(rng, leaf=leaf_type):
    """many layers around one leaf"""
    t = leaf(rng)
    for _ in range(rng.choice((4, 5, 5, 6, 7, 9))):
        t = rng.choice(("(%s)", "%s[]", "%s[]", "%s[1]", "(%s,uint8)", "(bool,%s)", "%s[2]")) % t
    return t


def nargs(rng):
    """how many arguments a call has"""
    if rng.random() < 0.94:
        return rng.choice((1, 1, 2, 3))
    return rng.choice((0, 4, 5, 6, 7, 8, 9, 12, 17))


def typ(rng, depth=2, leaf=leaf_type, maxdim=3):
    if depth >= 2 and rng.random() < 0.02:
        t = deep(rng, leaf)
        if R.resolve(t).words <= 24:
            return t
    r = rng.random()
    if depth <= 0 or r < 0.4:
        return leaf(rng)
    if r < 0.7:
        base = typ(rng, depth - 1, leaf, maxdim)
        if rng.random() < 0.6:
            return base + "[]"
        return base + "[%d]" % (rng.randint(1, maxdim) if rng.random() < 0.93 else rng.choice((5, 8, 9, 10, 11, 16, 17, 20)))
    n = rng.choice((1, 2, 2, 3, 3, 4)) if rng.random() < 0.95 else rng.choice((5, 6, 8, 9, 11, 17))
    return "(" + ",".join(typ(rng, depth - 1, leaf, maxdim) for _ in range(n)) + ")"


BAD_TYPES = ["uint7", "uint264", "bytes33", "foo", "uint256[", "()", "int0", "fixed8x81", "address8",
             "bytes0", "uint256[0]", "(uint256", "string3", "ufixed8", "hash", "", "bool,bool", "uint256]"]


def values(rng, nodes, **kw):
    return [value(rng, n, **kw) for n in nodes]


TEXTS = ["", "a", "0x00", "hello world", "é", "日本語", "\U0001f600", "x" * 31, "y" * 32, "z" * 33, "\x00", "a" * 64]


def longlen(rng):
    return rng.choice((127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4096, 5000))


def height(n):
    return 1 + max((height(i) for i in n.items or ()), default=0)


def value(rng, n, small=False):
    k = n.kind
    if k in ("uint", "int"):
        lo, hi = (0, 2**n.a - 1) if k == "uint" else (-(2 ** (n.a - 1)), 2 ** (n.a - 1) - 1)
        r = rng.random()
        if r < 0.35:
            return rng.choice([lo, hi, 0, 1, hi - 1, max(lo, -1)])
        if r < 0.7:
            return rng.randint(max(lo, -200), min(hi, 300))
        return rng.randint(lo, hi)
    if k in ("ufixed", "fixed"):
        lo, hi = (0, 2**n.a - 1) if k == "ufixed" else (-(2 ** (n.a - 1)), 2 ** (n.a - 1) - 1)
        m = rng.choice([lo, hi, 0, 1, rng.randint(lo, hi), rng.randint(lo, hi)])
        if rng.random() < 0.15:
            q = m // 10**n.b
            if lo <= q * 10**n.b <= hi:
                return q
        d = R.dec_exact(m, n.b)
        if rng.random() < 0.2 and m:
            # the same number spelled with a different exponent
            s, digs, e = d.as_tuple()
            d = Decimal((s, digs + (0,) * rng.randint(1, 3), None)) if False else Decimal(
                (s, digs + (0,) * 2, e - 2))
        return d
    if k == "bool":
        return rng.random() < 0.5
    if k == "address":
        b = rng.randbytes(20) if rng.random() < 0.8 else b"\0" * 20
        return "0x" + b.hex() if rng.random() < 0.7 else b
    if k == "bytesn":
        ln = n.a if rng.random() < 0.8 else rng.randint(0, n.a)
        return rng.choice([rng.randbytes(ln), b"\0" * ln, b"\xff" * ln])
    if k == "bytes":
        ln = rng.choice((0, 1, 5, 31, 32, 33, 63, 64, 65, rng.randint(0, 100)))
        if small:
            ln = min(ln, 40)
        if rng.random() < 0.02:
            ln = longlen(rng)
        return rng.randbytes(ln)
    if k == "string":
        if rng.random() < 0.5:
            return rng.choice(TEXTS)
        if rng.random() < 0.03:
            return rng.choice(("q", "é", "漢", "ab\x00")) * (longlen(rng) // 3)
        return "".join(rng.choice("abc xyz09éß漢\U0001f680") for _ in range(rng.randint(0, 40)))
    if k == "array":
        cnt = n.a if n.a is not None else rng.choice((0, 1, 1, 2, 2, 3, 4))
        dp = height(n)
        if n.a is None and dp > 4:
            cnt = rng.choice((0, 1, 1, 1, 2, 2)) if dp < 7 else rng.choice((1, 1, 1, 2))
        elif n.a is None and rng.random() < 0.03:
            cnt = rng.choice((5, 7, 8, 9, 11) if n.items[0].kind in ("array", "tuple") else (6, 9, 10, 12, 16, 17, 33, 40))
            if dp == 2 and rng.random() < 0.15:
                cnt = rng.choice((50, 64, 65, 100, 129, 257))
        v = [value(rng, n.items[0], small) for _ in range(cnt)]
        return v if rng.random() < 0.6 else tuple(v)
    if k == "tuple":
        v = [value(rng, i, small) for i in n.items]
        return v if rng.random() < 0.3 else tuple(v)
    if k == "custom":
        return n.a.gen(rng)
    raise AssertionError(k)


def bad_value(rng, n):
    """a value that is not encodable as n (checked by the reference before use)"""
    k = n.kind
    if k in ("array", "tuple") and rng.random() < 0.7:
        v = value(rng, n)
        if len(v):
            v = list(v)
            i = rng.randrange(len(v))
            it = n.items[0] if k == "array" else n.items[i]
            v[i] = bad_value(rng, it)
            return v if rng.random() < 0.5 else tuple(v)
    pool = [None, "x", b"x" * 40, -1, 2**256, True, 1.5, [], [1, 2, 3, 4, 5, 6, 7], Decimal("NaN"), Decimal("Infinity"),
            Decimal("0.123456789") * Decimal(10) ** -80, {"a": 1}, "0x12"]
    if k in ("uint", "int"):
        pool += [2**n.a, -(2**n.a), 2 ** (n.a - 1), -(2 ** (n.a - 1)) - 1]
    if k in ("ufixed", "fixed"):
        pool += [R.dec_exact(2**n.a, n.b), R.dec_exact(1, n.b + 1)]
    if k == "bytesn":
        pool += [b"\0" * (n.a + 1)]
    return rng.choice(pool)


def jsonable_bad(v):
    try:
        R.from_j(R.to_j(v))
        return True
    except Exception:
        return False


# ------------------------------------------------------------------ damaged payloads
def damage(rng, data, other=b""):
    """returns (damaged bytes, kind)"""
    b = bytearray(data)
    nw = len(b) // 32
    k = rng.choice(("bit", "byte", "trunc", "trunc32", "extend", "word", "word", "word", "wordadd", "wordadd",
                    "dropw", "dupw", "swapw", "splice", "zerow", "pad", "tail", "lowbyte", "ptr", "ptr"))
    if k == "bit" and b:
        i = rng.randrange(len(b) * 8)
        b[i // 8] ^= 1 << (i % 8)
    elif k == "byte" and b:
        b[rng.randrange(len(b))] = rng.choice((0, 1, 0x7F, 0x80, 0xFF, rng.randrange(256)))
    elif k == "trunc" and b:
        n = rng.choice((1, 2, 16, 31, rng.randint(1, len(b))))
        del b[max(0, len(b) - n):]
    elif k == "trunc32" and nw:
        del b[32 * rng.randrange(nw):]
    elif k == "extend":
        b += rng.choice((b"\0", b"\xff", b"\0" * 32, b"\xff" * 32, rng.randbytes(rng.randint(1, 70))))
    elif k == "word" and nw:
        i = rng.randrange(nw)
        L = len(b)
        x = rng.choice((0, 1, 2, 31, 32, 33, 64, 96, 128, L - 33, L - 32, L - 31, L - 1, L, L + 1, L + 31, L + 32,
                        2**256 - 1, 2**255, 2**255 - 1, 2**256 - 32, 2**63, 2**63 - 1, 2**63 - 32, 2**64, 2**31,
                        2**128, 2**160, 2**160 - 1, 2**8, 255, 2**256 - 2**160, rng.randrange(2**256),
                        rng.randrange(0, 4096), 32 * rng.randrange(0, nw + 3)))
        b[32 * i:32 * i + 32] = (x % 2**256).to_bytes(32, "big")
    elif k == "wordadd" and nw:
        i = rng.randrange(nw)
        x = int.from_bytes(b[32 * i:32 * i + 32], "big")
        x += rng.choice((1, -1, 2, -2, 3, -3, 8, 31, -31, 32, -32, 64, -64, 96, 2**64, 2**128, 2**255, 5, -5))
        b[32 * i:32 * i + 32] = (x % 2**256).to_bytes(32, "big")
    elif k == "ptr" and nw:  # something that looks like an offset now leads elsewhere
        ws = [(i, int.from_bytes(b[32 * i:32 * i + 32], "big")) for i in range(nw)]
        ws = [(i, x) for i, x in ws if 0 < x <= len(b) and x % 32 == 0]
        if ws:
            i, x = rng.choice(ws)
            y = rng.choice((x - 32, x - 32, x - 64, x + 32, x - 1, x + 1, x - 31, x + 31, 0, 32, len(b), len(b) - 32, len(b) - 1,
                            32 * rng.randrange(nw + 1), 32 * rng.randrange(nw + 1), 32 * rng.randrange(nw + 1)))
            b[32 * i:32 * i + 32] = (y % 2**256).to_bytes(32, "big")
    elif k == "lowbyte" and nw:
        i = rng.randrange(nw)
        b[32 * i + 31] = rng.choice((0, 1, 2, 3, 4, 8, 0x1F, 0x20, 0x21, 0x40, 0x60, 0x80, 0xFF))
    elif k == "dropw" and nw:
        i = rng.randrange(nw)
        del b[32 * i:32 * i + 32]
    elif k == "dupw" and nw:
        i = rng.randrange(nw)
        b[32 * i:32 * i] = b[32 * i:32 * i + 32]
    elif k == "swapw" and nw > 1:
        i, j = rng.randrange(nw), rng.randrange(nw)
        x, y = bytes(b[32 * i:32 * i + 32]), bytes(b[32 * j:32 * j + 32])
        b[32 * i:32 * i + 32], b[32 * j:32 * j + 32] = y, x
    elif k == "splice" and other:
        i = 32 * rng.randrange(nw + 1)
        j = 32 * rng.randrange(len(other) // 32 + 1)
        b = b[:i] + bytearray(other[j:])
    elif k == "zerow" and nw:
        i = rng.randrange(nw)
        b[32 * i:32 * i + 32] = b"\0" * 32
    elif k == "pad" and nw:
        # one byte inside a word that ends in zeros or starts with zeros
        i = rng.randrange(nw)
        wd = b[32 * i:32 * i + 32]
        zs = [j for j in range(32) if wd[j] in (0, 255)]
        if zs:
            j = rng.choice(zs)
            b[32 * i + j] = rng.choice((1, 0x80, 0xFF, 0x7F, 0x10)) if wd[j] == 0 else rng.choice((0, 0xFE, 0x7F))
    elif k == "tail" and b:
        b[-1] ^= rng.choice((1, 0x80, 0xFF))
    return bytes(b), k
