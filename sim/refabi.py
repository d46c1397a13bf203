"""Independent reference implementation of the ABI rules (oracle).

Imports nothing from eth_abi.  Written from the contract ABI specification and the
documentation of eth-abi: exact integer/rational arithmetic, no caches, no shared state.
"""
import re
from decimal import Decimal
from fractions import Fraction


class BadType(Exception):
    pass


# ------------------------------------------------------------------ type strings
_TOK = re.compile(r"([A-Za-z]+)((?:[1-9][0-9]*x[1-9][0-9]*)|(?:[1-9][0-9]*))?")
_DIM = re.compile(r"\[([1-9][0-9]*)?\]")


class PT:
    """Parsed type: base/sub or comps, dims (list of int|None)."""

    __slots__ = ("base", "sub", "comps", "dims")

    def __init__(self, base, sub, comps, dims):
        self.base, self.sub, self.comps, self.dims = base, sub, comps, dims

    def render(self):
        d = "".join("[%s]" % ("" if x is None else x) for x in self.dims)
        if self.comps is not None:
            return "(" + ",".join(c.render() for c in self.comps) + ")" + d
        if self.sub is None:
            s = ""
        elif isinstance(self.sub, tuple):
            s = "%dx%d" % self.sub
        else:
            s = str(self.sub)
        return self.base + s + d

    def is_dynamic(self):
        if any(x is None for x in self.dims):
            return True
        if self.comps is not None:
            return any(c.is_dynamic() for c in self.comps)
        return self.base == "string" or (self.base == "bytes" and self.sub is None)


def parse(s):
    t, i = _parse(s, 0)
    if i != len(s):
        raise BadType(s)
    return t


def _parse(s, i):
    if i < len(s) and s[i] == "(":
        comps = []
        i += 1
        while True:
            c, i = _parse(s, i)
            comps.append(c)
            if i < len(s) and s[i] == ",":
                i += 1
                continue
            if i < len(s) and s[i] == ")":
                i += 1
                break
            raise BadType(s)
        base = sub = None
    else:
        m = _TOK.match(s, i)
        if not m:
            raise BadType(s)
        base, comps = m.group(1), None
        sub = m.group(2)
        if sub is not None:
            sub = tuple(map(int, sub.split("x"))) if "x" in sub else int(sub)
        i = m.end()
    dims = []
    while True:
        m = _DIM.match(s, i)
        if not m:
            break
        dims.append(int(m.group(1)) if m.group(1) else None)
        i = m.end()
    return PT(base, sub, comps, dims), i


# ------------------------------------------------------------------ resolved types
class N:
    """Resolved type node. kind in uint int bool address bytesn bytes string ufixed fixed
    array tuple custom"""

    __slots__ = ("kind", "a", "b", "items", "dyn", "words", "errors")

    def __init__(self, kind, a=None, b=None, items=None, errors="strict"):
        self.kind, self.a, self.b, self.items, self.errors = kind, a, b, items, errors
        if kind in ("bytes", "string"):
            self.dyn, self.words = True, 1
        elif kind == "array":
            it = items[0]
            self.dyn = a is None or it.dyn
            self.words = 1 if self.dyn else a * it.words
        elif kind == "tuple":
            self.dyn = any(x.dyn for x in items)
            self.words = 1 if self.dyn else sum(x.words for x in items)
        else:
            self.dyn, self.words = bool(kind == "custom" and getattr(a, "dyn", False)), 1


ALIAS = {"int": 256, "uint": 256, "fixed": (128, 18), "ufixed": (128, 18)}


def resolve(s, env=None):
    """type string -> N; env maps custom type names to N (matched on the whole element)"""
    return _res(parse(s), env or {}, True)


def _res(t, env, top):
    if t.dims:
        inner = PT(t.base, t.sub, t.comps, t.dims[:-1])
        return N("array", t.dims[-1], items=[_res(inner, env, False)])
    if t.comps is not None:
        return N("tuple", items=[_res(c, env, False) for c in t.comps])
    name = t.render()
    if name in env:
        return env[name]
    b, s = t.base, t.sub
    if s is None and b in ALIAS:
        s = ALIAS[b]
    if b == "function" and s is None:
        return N("bytesn", 24)
    if b == "byte" and s is None and not top:
        return N("bytesn", 1)
    if b in ("int", "uint"):
        if not isinstance(s, int) or not 8 <= s <= 256 or s % 8:
            raise BadType(name)
        return N(b, s)
    if b in ("fixed", "ufixed"):
        if not isinstance(s, tuple) or not 8 <= s[0] <= 256 or s[0] % 8 or not 1 <= s[1] <= 80:
            raise BadType(name)
        return N(b, s[0], s[1])
    if b == "bool" and s is None:
        return N("bool")
    if b == "address" and s is None:
        return N("address")
    if b == "string" and s is None:
        return N("string")
    if b == "bytes":
        if s is None:
            return N("bytes")
        if isinstance(s, int) and 1 <= s <= 32:
            return N("bytesn", s)
    raise BadType(name)


# ------------------------------------------------------------------ encoding
class Reject(Exception):
    """value not encodable"""


def w(x):
    return x.to_bytes(32, "big")


def _addr(v):
    if isinstance(v, (bytes, bytearray)):
        if len(v) != 20:
            raise Reject
        return bytes(v)
    if isinstance(v, str) and re.fullmatch(r"0x[0-9a-fA-F]{40}", v):
        return bytes.fromhex(v[2:])
    raise Reject


NEG_EXCESS = None  # how a negative value with excess digits is treated: None (rejected), "trunc", "trunc-pad"


def _fixed_int(v, n):
    if not isinstance(v, (int, Decimal)):  # booleans count as integers here
        raise Reject
    if isinstance(v, Decimal) and not v.is_finite():
        raise Reject
    lo, hi = (0, 2**n.a - 1) if n.kind == "ufixed" else (-(2 ** (n.a - 1)), 2 ** (n.a - 1) - 1)
    if isinstance(v, Decimal):
        sign, digits, exp = v.as_tuple()
        if not any(digits):
            return 0
        k = exp + n.b
        st = "".join(map(str, digits)).lstrip("0")
        if len(st) + k > 200:  # far beyond every fixed type
            raise Reject
        if k >= 0:
            m = int(st) * 10**k
        else:
            whole = st[: len(st) + k] if len(st) + k > 0 else ""
            m = int(whole or "0")
            if st[len(whole):].strip("0"):  # digits beyond the last place
                if not (NEG_EXCESS and sign and n.kind == "fixed"):
                    raise Reject
                if m == 0 and NEG_EXCESS == "trunc-pad":
                    return -256
        m = -m if sign else m
    else:
        m = int(v) * 10**n.b
    if not lo <= m <= hi:
        raise Reject
    return m


def leaf(n, v):
    """-> (int or bytes payload, canonical kind)"""
    k = n.kind
    if k in ("uint", "int"):
        if isinstance(v, bool) or not isinstance(v, int):
            raise Reject
        lo, hi = (0, 2**n.a - 1) if k == "uint" else (-(2 ** (n.a - 1)), 2 ** (n.a - 1) - 1)
        if not lo <= v <= hi:
            raise Reject
        return v
    if k in ("ufixed", "fixed"):
        return _fixed_int(v, n)
    if k == "bool":
        if not isinstance(v, bool):
            raise Reject
        return int(v)
    if k == "address":
        return int.from_bytes(_addr(v), "big")
    if k == "bytesn":
        if not isinstance(v, (bytes, bytearray)) or len(v) > n.a:
            raise Reject
        return bytes(v).ljust(n.a, b"\0")
    if k == "bytes":
        if not isinstance(v, (bytes, bytearray)):
            raise Reject
        return bytes(v)
    if k == "string":
        if not isinstance(v, str):
            raise Reject
        return v.encode("utf8")
    raise AssertionError(k)


def enc(n, v):
    k = n.kind
    if k == "custom":
        return n.a.encode(v)
    if k == "array":
        if not isinstance(v, (list, tuple)):
            raise Reject
        if n.a is not None and len(v) != n.a:
            raise Reject
        body = _headtail([n.items[0]] * len(v), v)
        return body if n.a is not None else w(len(v)) + body
    if k == "tuple":
        if not isinstance(v, (list, tuple)) or len(v) != len(n.items):
            raise Reject
        return _headtail(n.items, v)
    x = leaf(n, v)
    if k in ("uint", "ufixed", "bool", "address"):
        return w(x)
    if k in ("int", "fixed"):
        return w(x % 2**256)
    if k == "bytesn":
        return x.ljust(32, b"\0")
    return w(len(x)) + x + b"\0" * (-len(x) % 32)


def _headtail(items, vals):
    head, tail = [], []
    hl = 32 * sum(n.words for n in items)
    tl = 0
    for n, v in zip(items, vals):
        e = enc(n, v)
        if n.dyn:
            head.append(w(hl + tl))
            tail.append(e)
            tl += len(e)
        else:
            head.append(e)
    return b"".join(head) + b"".join(tail)


def encode(nodes, vals):
    if len(nodes) != len(vals):
        raise Reject
    return _headtail(nodes, vals)


def encp(n, v):
    k = n.kind
    if k == "custom":
        return n.a.encode(v)
    if k in ("array", "tuple"):
        if not isinstance(v, (list, tuple)):
            raise Reject
        want = n.a if k == "array" else len(n.items)
        if want is not None and len(v) != want:
            raise Reject
        its = n.items * len(v) if k == "array" else n.items
        return b"".join(encp(i, x) for i, x in zip(its, v))
    x = leaf(n, v)
    if k in ("uint", "ufixed"):
        return x.to_bytes(n.a // 8, "big")
    if k in ("int", "fixed"):
        return (x % 2**n.a).to_bytes(n.a // 8, "big")
    if k == "bool":
        return bytes([x])
    if k == "address":
        return x.to_bytes(20, "big")
    return x


def encode_packed(nodes, vals):
    if len(nodes) != len(vals):
        raise Reject
    return b"".join(encp(n, v) for n, v in zip(nodes, vals))


# ------------------------------------------------------------------ decoding
class Dec:
    """Reference decoding of arbitrary bytes.

    After run(): hard = set of problem categories that oblige a decoder to reject,
    soft = True if a decoder may reject or accept (accepting means returning `value`),
    work = number of nodes visited, capped (`overflow` set when the cap was hit).
    """

    CAP = 20000

    def __init__(self, data, strict=True):
        self.d = bytes(data)
        self.strict = strict
        self.hard = set()
        self.soft = False
        self.work = 0
        self.overflow = False

    def run(self, nodes):
        try:
            self.value = self.tup(nodes, 0, True)
        except _Stop:
            self.value = None
        return self

    def bad(self, cat="decoding"):
        self.hard.add(cat)

    def tick(self):
        self.work += 1
        if self.work > self.CAP:
            self.overflow = True
            raise _Stop

    def word(self, pos):
        x = self.d[pos : pos + 32]
        if len(x) < 32:
            self.bad()
            return None
        return x

    def tup(self, nodes, base, direct):
        # pointers may not lead back into the head
        head = 32 * sum(1 if n.dyn else n.words for n in nodes)
        out = []
        pos = base
        for n in nodes:
            if n.dyn:
                out.append(self.ptr(n, pos, base, base + head, direct))
                pos += 32
            else:
                out.append(self.static(n, pos))
                pos += 32 * n.words
        return tuple(out)

    def ptr(self, n, pos, base, head_end, direct):
        self.tick()
        x = self.word(pos)
        if x is None:
            return None
        dest = base + int.from_bytes(x, "big")
        if dest < head_end or dest >= len(self.d):
            self.bad()
            return None
        return self.tail(n, dest, direct)

    def tail(self, n, pos, direct):
        if n.kind in ("bytes", "string"):
            return self.bstr(n, pos, direct)
        if n.kind == "tuple":
            return self.tup(n.items, pos, False)
        if n.kind == "custom":
            return self.static(n, pos)
        it = n.items[0]
        cnt = n.a
        if cnt is None:
            x = self.word(pos)
            if x is None:
                return None
            cnt = int.from_bytes(x, "big")
            pos += 32
        out = []
        end = pos + 32 * cnt
        for i in range(cnt):
            if it.dyn:
                out.append(self.ptr(it, pos + 32 * i, pos, end, False))
                if pos + 32 * i + 32 > len(self.d):
                    break
            else:
                out.append(self.static(it, pos + 32 * it.words * i))
                if pos + 32 * it.words * (i + 1) > len(self.d):
                    break
        return tuple(out)

    def bstr(self, n, pos, direct):
        self.tick()
        x = self.word(pos)
        if x is None:
            return None
        ln = int.from_bytes(x, "big")
        pos += 32
        avail = len(self.d) - pos
        if avail < ln:
            self.bad()
            return None
        data = self.d[pos : pos + ln]
        padlen = -ln % 32
        pad = self.d[pos + ln : pos + ln + padlen]
        if pad != b"\0" * padlen:
            if self.strict:
                self.bad()
                return None
            if not direct:
                self.soft = True
        if n.kind == "bytes":
            return data
        try:
            v = data.decode("utf8", errors=n.errors)
            return v.upper() if n.b == "upper" else v
        except UnicodeDecodeError:
            self.bad("unicode")
            return None

    def static(self, n, pos):
        self.tick()
        k = n.kind
        if k == "array":
            return tuple(self.static(n.items[0], pos + 32 * n.items[0].words * i) for i in range(n.a))
        if k == "tuple":
            out = []
            for i in n.items:
                out.append(self.static(i, pos))
                pos += 32 * i.words
            return tuple(out)
        x = self.word(pos)
        if x is None:
            return None
        if k == "custom":
            v = n.a.decode(x)
            if v is _BAD:
                self.bad()
                return None
            return v
        if k == "bytesn":
            if any(x[n.a :]):
                self.bad()
                return None
            return x[: n.a]
        u = int.from_bytes(x, "big")
        if k in ("uint", "ufixed"):
            if u >> n.a:
                self.bad()
                return None
            return u if k == "uint" else dec_exact(u, n.b)
        if k in ("int", "fixed"):
            s = u - 2**256 if u >> 255 else u
            if not -(2 ** (n.a - 1)) <= s < 2 ** (n.a - 1):
                self.bad()
                return None
            return s if k == "int" else dec_exact(s, n.b)
        if k == "bool":
            if u > 1:
                self.bad()
                return None
            return bool(u)
        if k == "address":
            if u >> 160:
                self.bad()
                return None
            return "0x%040x" % u
        raise AssertionError(k)


_BAD = object()
BAD = _BAD


class _Stop(Exception):
    pass


def dec_exact(i, places):
    return Decimal((1 if i < 0 else 0, tuple(map(int, str(abs(i)))), -places))


def frac(d):
    return Fraction(*d.as_integer_ratio())


# ------------------------------------------------------------------ value comparison
def same(a, b):
    """type-strict deep equality (decimals by exact value)"""
    ta, tb = type(a), type(b)
    if isinstance(a, Decimal) and isinstance(b, Decimal):
        if not (a.is_finite() and b.is_finite()):
            return False
        return a.as_integer_ratio() == b.as_integer_ratio()
    if ta is not tb:
        return False
    if ta in (tuple, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


# ------------------------------------------------------------------ JSON form of values
def to_j(v):
    if v is None:
        return ["n"]
    t = type(v)
    if t is bool:
        return ["b", v]
    if t is int:
        return ["i", hex(v)]
    if t is bytes:
        return ["y", v.hex()]
    if t is bytearray:
        return ["ya", v.hex()]
    if t is str:
        return ["s", v]
    if t is Decimal:
        return ["d", str(v)]
    if t is float:
        return ["f", repr(v)]
    if t is list:
        return ["l", [to_j(x) for x in v]]
    if t is tuple:
        return ["t", [to_j(x) for x in v]]
    return ["r", repr(v)]


def from_j(j):
    k = j[0]
    if k == "n":
        return None
    if k == "b":
        return j[1]
    if k == "i":
        return int(j[1], 16)
    if k == "y":
        return bytes.fromhex(j[1])
    if k == "ya":
        return bytearray.fromhex(j[1])
    if k == "s":
        return j[1]
    if k == "d":
        return Decimal(j[1])
    if k == "f":
        return float(j[1])
    if k == "l":
        return [from_j(x) for x in j[1]]
    if k == "t":
        return tuple(from_j(x) for x in j[1])
    raise ValueError(k)
