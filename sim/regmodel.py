"""Executable reference model of a registry and its interpreter for scenario operations.

The model state of a registry is a pair (encoders, decoders); each side is a tuple of entries
(predkey, spec, coder, label) in registration order.  Nothing here looks at library internals.
"""
from . import boot  # noqa: F401
from . import custom
from . import refabi as R
from . import world as W

import copy as _copy
import gc

import eth_abi.codec
from eth_abi import decoding, encoding, registry as LR

STD = [
    (["base", "uint", None], "uint"),
    (["base", "int", None], "int"),
    (["base", "address", None], "address"),
    (["base", "bool", None], "bool"),
    (["base", "ufixed", None], "ufixed"),
    (["base", "fixed", None], "fixed"),
    (["base", "bytes", True], "bytes<M>"),
    (["base", "bytes", False], "bytes"),
    (["base", "function", None], "function"),
    (["base", "string", None], "string"),
    (["arr"], "has_arrlist"),
    (["tup"], "is_base_tuple"),
]
STDE = {
    "uint": encoding.UnsignedIntegerEncoder, "int": encoding.SignedIntegerEncoder, "address": encoding.AddressEncoder,
    "bool": encoding.BooleanEncoder, "ufixed": encoding.UnsignedFixedEncoder, "fixed": encoding.SignedFixedEncoder,
    "bytes<M>": encoding.BytesEncoder, "bytes": encoding.ByteStringEncoder, "function": encoding.BytesEncoder,
    "string": encoding.TextStringEncoder, "has_arrlist": encoding.BaseArrayEncoder, "is_base_tuple": encoding.TupleEncoder,
}
STDD = {
    "uint": decoding.UnsignedIntegerDecoder, "int": decoding.SignedIntegerDecoder, "address": decoding.AddressDecoder,
    "bool": decoding.BooleanDecoder, "ufixed": decoding.UnsignedFixedDecoder, "fixed": decoding.SignedFixedDecoder,
    "bytes<M>": decoding.BytesDecoder, "bytes": decoding.ByteStringDecoder, "function": decoding.BytesDecoder,
    "string": decoding.StringDecoder, "has_arrlist": decoding.BaseArrayDecoder, "is_base_tuple": decoding.TupleDecoder,
}


# ------------------------------------------------------------------ predicates
def predkey(spec):
    k = spec[0]
    if k in ("str", "eq"):
        return ("eq", spec[1])
    if k == "base":
        return ("base", spec[1], spec[2])
    if k == "eqp":
        return ("eqp", frozenset(spec[2]))
    if k in ("fn", "meth", "part"):
        return (k, spec[1])
    return (k,)


_memo = {}


def _parse(t):
    r = _memo.get(t)
    if r is None:
        try:
            r = R.parse(t)
        except R.BadType:
            r = False
        _memo[t] = r
    return r


def matches(spec, t):
    k = spec[0]
    if k in ("str", "eq"):
        return t == spec[1]
    if k in ("fn", "eqp", "meth", "part"):
        return t in spec[2]
    p = _parse(t)
    if not p:
        return False
    if k == "base":
        if p.comps is not None or p.dims or p.base != spec[1]:
            return False
        return spec[2] is None or (p.sub is not None) == spec[2]
    if k == "arr":
        return bool(p.dims)
    if k == "tup":
        return p.comps is not None and not p.dims
    raise AssertionError(k)


# ------------------------------------------------------------------ model
class Leaf:
    """reference behaviour of a tagged custom coder"""

    def __init__(self, tag, dyn=False):
        self.tag = tag
        self.dyn = dyn  # the word is in the tail

    def encode(self, v):
        if isinstance(v, bool) or not isinstance(v, int) or not 0 <= v < 2**64:
            raise R.Reject
        return self.tag.to_bytes(4, "big") + v.to_bytes(28, "big")

    def decode(self, x):
        return ("tag", self.tag, int.from_bytes(x[4:], "big"))


class Lookup(Exception):
    def __init__(self, cat):
        self.cat = cat


class PackedLeaf:
    """reference behaviour of a standard encoder of the packed registry"""

    def __init__(self, n):
        self.n = n

    def encode(self, v):
        return R.encp(self.n, v)


class PackedArray:
    def __init__(self, size, item):
        self.size, self.item = size, item

    def encode(self, v):
        if not isinstance(v, (list, tuple)) or (self.size is not None and len(v) != self.size):
            raise R.Reject
        return b"".join(R.enc(self.item, x) for x in v)


def base_state(kind, std_only=None):
    if kind == "empty":
        return ((), ())
    if kind == "packed":
        return (tuple((predkey(s), tuple(s), ("stdp", l), l) for s, l in STD), ())
    ent = tuple((predkey(s), tuple(map(lambda x: tuple(x) if isinstance(x, list) else x, s)), ("std", l), l) for s, l in STD
                if std_only is None or l in std_only)
    return (ent, ent)


def find(side, t):
    m = [e for e in side if matches(e[1], t)]
    if not m:
        raise Lookup("missing" if _parse(t) else "badtype")
    if len(m) > 1:
        raise Lookup("multiple")
    return m[0][2]


def resolve(side, t, depth=0):
    """type string -> R.N under this side of the registry"""
    c = find(side, t)
    if c[0] == "tag":
        return R.N("custom", Leaf(c[1], c[2].startswith("dyn")))
    p = _parse(t)
    if not p:
        raise Lookup("badtype")
    l = c[1]
    p = _canon(p)
    if l == "has_arrlist":
        inner = R.PT(p.base, p.sub, p.comps, p.dims[:-1])
        item = resolve(side, inner.render(), depth + 1)
        if c[0] == "stdp":
            return R.N("custom", PackedArray(p.dims[-1], item))
        return R.N("array", p.dims[-1], items=[item])
    if l == "is_base_tuple":
        return R.N("tuple", items=[resolve(side, x.render(), depth + 1) for x in p.comps])
    try:
        n = R.resolve(t)
    except R.BadType:
        raise Lookup("badtype")
    return R.N("custom", PackedLeaf(n)) if c[0] == "stdp" else n


_ALIAS = {"int": ("int", 256), "uint": ("uint", 256), "fixed": ("fixed", (128, 18)), "ufixed": ("ufixed", (128, 18)),
          "function": ("bytes", 24), "byte": ("bytes", 1)}


def _canon(p):
    if p.comps is not None:
        return R.PT(None, None, [_canon(c) for c in p.comps], p.dims)
    if p.sub is None and p.base in _ALIAS:
        b, s = _ALIAS[p.base]
        return R.PT(b, s, None, p.dims)
    return p


def _add(side, spec, coder, label):
    """-> (ok, side') ; ok False means ValueError"""
    key = predkey(spec)
    if spec[0] == "str":
        label = spec[1]
    if any(e[0] == key for e in side):
        return False, side
    if label is not None and any(e[3] == label for e in side):
        return False, side
    return True, side + ((key, tuple(tuple(x) if isinstance(x, list) else x for x in spec), coder, label),)


def _remove(side, by):
    """by: ["label", x] or a predicate spec; -> (ok, side')"""
    if by[0] == "label":
        n = tuple(e for e in side if e[3] != by[1])
    else:
        k = predkey(by)
        n = tuple(e for e in side if e[0] != k)
    return len(n) < len(side), n


def apply(op, st):
    """mutator op on model state -> list of (accepts(out) predicate, new state)"""
    o = op["o"]
    e, d = st

    def ok(out):
        return out.ok

    def val(out):
        return (not out.ok) and out.cat == "value"

    def key(out):
        return (not out.ok) and out.cat == "key"

    def typ(out):
        return (not out.ok) and out.cat == "type"

    if op.get("bogus"):
        return [(typ, st)]
    if o in ("regE", "regD"):
        i = 0 if o == "regE" else 1
        good, n = _add(st[i], op["lk"], tuple(op["co"]), op.get("lb"))
        if not good:
            return [(val, st)]
        return [(ok, (n, d) if i == 0 else (e, n))]
    if o in ("unE", "unD"):
        i = 0 if o == "unE" else 1
        good, n = _remove(st[i], op["by"])
        if not good:
            return [(key, st)]
        return [(ok, (n, d) if i == 0 else (e, n))]
    if o == "reg":
        g1, n1 = _add(e, op["lk"], tuple(op["co"]), op.get("lb"))
        g2, n2 = _add(d, op["lk"], tuple(op["co"]), op.get("lb"))
        if g1 and g2:
            return [(ok, (n1, n2))]
        if not g1:
            return [(val, st)]
        return [(val, (n1, d)), (val, st)]  # combined change half applied or rolled back
    if o == "un":
        g1, n1 = _remove(e, op["by"])
        g2, n2 = _remove(d, op["by"])
        if g1 and g2:
            return [(ok, (n1, n2))]
        if not g1:
            return [(key, st)]
        return [(key, (n1, d)), (key, st)]
    raise AssertionError(o)


MUT = ("regE", "regD", "unE", "unD", "reg", "un")


def expect(op, st):
    """reader op under a model state -> W.Exp"""
    o = op["o"]
    side = st[1] if o in ("dec", "getD") else st[0]
    try:
        if o in ("istype", "isenc", "has"):
            try:
                n = resolve(side, op["ty"])
            except Lookup as l:
                if l.cat == "multiple":
                    return W.Exp(False, cats=("multiple",))
                return W.Exp(True, False)
            if o in ("istype", "has"):
                return W.Exp(True, True)
            try:
                R.enc(n, R.from_j(op["v"]))
                return W.Exp(True, True)
            except R.Reject:
                return W.Exp(True, False)
        if o in ("getE", "getD"):
            resolve(side, op["ty"])
            return W.Exp(True, "coder")
        ns = [resolve(side, t) for t in op["ty"]]
    except Lookup as l:
        return W.Exp(False, cats=("badtype", "value") if l.cat == "badtype" else (l.cat,))
    if o == "enc":
        try:
            return W.Exp(True, R.encode(ns, [R.from_j(v) for v in op["v"]]))
        except R.Reject:
            return W.Exp(False, cats=("encoding",))
    if o == "dec":
        d = R.Dec(bytes.fromhex(op["d"]), op.get("strict", True)).run(ns)
        if d.hard:
            return W.Exp(False, cats=("decoding", "unicode"))
        return W.Exp(True, d.value, cats=("decoding",), either=d.soft)
    raise AssertionError(o)


# ------------------------------------------------------------------ interpreter
class Interp:
    """runs registry operations against the real library"""

    def __init__(self):
        self.regs = {}
        self.codecs = {}
        self.preds = {}
        self.coders = {}

    def add_registry(self, name, reg):
        codec = eth_abi.codec.ABICodec(reg)
        self.codecs[name] = codec
        self.regs[name] = reg

    def base(self, name, kind, std_only=None):
        if kind == "copy":
            reg = LR.registry.copy()
        elif kind == "std":
            reg = LR.registry
        elif kind == "packed":
            reg = LR.registry_packed
        else:
            reg = LR.ABIRegistry()
            if kind == "lean":
                for s, l in STD:
                    if std_only is None or l in std_only:
                        reg.register(self.pred(s), STDE[l], STDD[l], label=l)
        self.add_registry(name, reg)

    def pred(self, s):
        k = s[0]
        if k == "str":
            return s[1]
        if k == "eq":
            return LR.Equals(s[1])
        if k == "base":
            return LR.BaseEquals(s[1], with_sub=s[2])
        if k == "arr":
            return LR.has_arrlist
        if k == "tup":
            return LR.is_base_tuple
        if k == "eqp":
            return custom.EqPred(s[1], s[2])
        o = self.preds.get((k, s[1]))
        if o is None:
            if k == "fn":
                o = custom.make_pred(s[1], frozenset(s[2]))
            elif k == "meth":
                o = custom.Methods(s[1], s[2])
            elif k == "part":
                o = custom.make_partial(frozenset(s[2]))
            self.preds[(k, s[1])] = o
        return o.match if k == "meth" else o

    def coder(self, co, side):
        if co[0] == "std":
            return (STDE if side == "E" else STDD)[co[1]]
        k = (co[1], co[2], side)
        c = self.coders.get(k)
        if c is None:
            mk = {("fn", "E"): custom.make_fn_encoder, ("fn", "D"): custom.make_fn_decoder,
                  ("cls", "E"): custom.make_cls_encoder, ("cls", "D"): custom.make_cls_decoder,
                  ("dyn", "E"): custom.make_dyn_encoder, ("dyn", "D"): custom.make_dyn_decoder}[(co[2].replace("obj", "") or "cls", side)]
            c = mk(co[1])
            if co[2].endswith("obj"):
                c = c()
            self.coders[k] = c
        return c

    def prepare(self, sc):
        """create the user-side objects up front, outside the simulated threads"""
        for op in sc.get("setup", []) + sum(sc.get("threads", []), []) + sc.get("ops", []) + sc.get("finale", []):
            if "lk" in op:
                self.pred(op["lk"])
            if "by" in op and op["by"][0] != "label":
                self.pred(op["by"])
            if "co" in op:
                self.coder(op["co"], "E")
                self.coder(op["co"], "D")

    def __call__(self, op):
        o = op["o"]
        if o == "copy":
            src = self.regs.get(op["r"])
            if src is None:
                return W.Out(True, "skip")
            how = op.get("how", "method")
            fn = {"method": src.copy, "copy": lambda: _copy.copy(src), "deep": lambda: _copy.deepcopy(src)}[how]
            out = W.call(fn)
            if out.ok:
                self.add_registry(op["new"], out.val)
                out.val = "copied"
            return out
        r = op["r"]
        if r not in self.regs:
            return W.Out(True, "skip")
        if o == "drop":
            del self.regs[r], self.codecs[r]
            gc.collect()
            return W.Out(True, "skip")
        reg, codec = self.regs[r], self.codecs[r]
        if o in MUT:
            if op.get("bogus"):
                args = {"regE": (123, self.coder(op["co"], "E")), "regD": (None, self.coder(op["co"], "D")),
                        "unE": (123,), "unD": (None,), "reg": (b"x", self.coder(op["co"], "E"), self.coder(op["co"], "D")),
                        "un": (b"x",)}[o] if "co" in op else {"unE": (123,), "unD": (None,), "un": (b"x",)}[o]
                return W.call(getattr(reg, METHOD[o]), *args)
            if o in ("regE", "regD"):
                a = (self.pred(op["lk"]), self.coder(op["co"], o[-1]))
                return W.call(getattr(reg, METHOD[o]), *a, **({"label": op["lb"]} if "lb" in op else {}))
            if o == "reg":
                a = (self.pred(op["lk"]), self.coder(op["co"], "E"), self.coder(op["co"], "D"))
                return W.call(reg.register, *a, **({"label": op["lb"]} if "lb" in op else {}))
            by = op["by"]
            return W.call(getattr(reg, METHOD[o]), by[1] if by[0] == "label" else self.pred(by))
        if o == "has":
            return W.call(reg.has_encoder, op["ty"])
        if o in ("getE", "getD"):
            out = W.call(reg.get_encoder if o == "getE" else reg.get_decoder, op["ty"])
            if out.ok:
                out.val = "coder" if callable(out.val) else repr(out.val)
            return out
        return W.do_call(dict(op, c=r), self.codecs)


def layout(t, v, dyn):
    """payload for value v of type t: leaves one word each, in the head or, if dyn, in the tail"""
    def canon(p):
        if p.dims:
            return R.N("array", p.dims[-1], items=[canon(R.PT(p.base, p.sub, p.comps, p.dims[:-1]))])
        if p.comps is not None:
            return R.N("tuple", items=[canon(c) for c in p.comps])
        std = p.base in ("uint", "int", "bool")
        return R.N("uint", 256) if std or not dyn else R.N("custom", Leaf(0, True))

    def num(x):
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, (list, tuple)):
            return [num(y) for y in x]
        return x

    return R.encode([canon(R.parse(t))], [num(v)])


METHOD = {"regE": "register_encoder", "regD": "register_decoder", "unE": "unregister_encoder", "unD": "unregister_decoder",
          "reg": "register", "un": "unregister"}


# ------------------------------------------------------------------ history checkers
def check_sequential(ctx, init):
    """history of one thread; init: {registry name: model state}"""
    states = {r: [s] for r, s in init.items()}  # possible states
    for who, op, inv, ret, out in ctx.hist:
        o = op["o"]
        r = op["r"]
        if out.ok and isinstance(out.val, str) and out.val == "skip":
            continue
        if o == "copy":
            if not out.ok:
                ctx.fail("copy-failed", "%s gave %s" % (W.describe(op), out.brief()))
            states[op["new"]] = list(states[r])
            continue
        nxt = []
        exp = set()
        for s in states[r]:
            if o in MUT:
                for acc, n in apply(op, s):
                    if acc(out) and n not in nxt:
                        nxt.append(n)
                    exp.add("accepted" if acc(W.Out(True)) else "rejected")
            else:
                e = expect(op, s)
                exp.add(e.brief())
                if e.match(out) and s not in nxt:
                    nxt.append(s)
        ctx.stat(o + ("_ok" if out.ok else "_rejected"))
        if not nxt:
            ctx.fail(("change" if o in MUT else "lookup") + ":" + o, "%s gave %s, must be %s" % (
                W.describe(op), out.brief(), " or ".join(sorted(exp))))
        states[r] = nxt[:8]


class TooMany(Exception):
    pass


def check_concurrent(ctx, init, cap=3000):
    """regular-register check with a total order of changes per registry and snapshot copies"""
    by = {}
    for i, (who, op, inv, ret, out) in enumerate(ctx.hist):
        if out.ok and isinstance(out.val, str) and out.val == "skip":
            continue
        by.setdefault(op["r"], []).append((op, inv, ret, out))
        ctx.stat(op["o"] + ("_ok" if out.ok else "_rejected"))
    for name, st in init.items():
        why = _check_reg(ctx, name, st, by, [cap])
        if why:
            ctx.fail(*why)


def _check_reg(ctx, name, st0, by, cap):
    """None if some order of the changes explains everything, else (class, message)"""
    h = by.get(name, [])
    muts = [x for x in h if x[0]["o"] in MUT]
    rest = [x for x in h if x[0]["o"] not in MUT]
    n = len(muts)
    best = [(-1, None)]
    memo = {}

    def readers(order, states):
        pos = {id(m): k for k, m in enumerate(order)}
        for x in rest:
            op, inv, ret, out = x
            lo, hi = 0, n
            for m in muts:
                k = pos[id(m)]
                if m[2] < inv:
                    lo = max(lo, k + 1)
                if m[1] > ret:
                    hi = min(hi, k)
            okk = False
            if op["o"] == "copy":
                if not out.ok:
                    return ("copy-failed", "%s gave %s" % (W.describe(op), out.brief()))
                why = None
                seen = []
                for k in range(lo, hi + 1):
                    s = states[k]
                    if s in seen:
                        continue
                    seen.append(s)
                    why = _check_reg(ctx, op["new"], s, by, cap)
                    if why is None:
                        okk = True
                        break
                if not okk:
                    return why
                continue
            exps = []
            for k in range(lo, hi + 1):
                key = (op["u"], states[k])
                e = memo.get(key)
                if e is None:
                    e = memo[key] = expect(op, states[k])
                if e.match(out):
                    okk = True
                    break
                exps.append(e.brief())
            if not okk:
                cls = "lost-change" if lo == hi or len(set(exps)) == 1 else "torn-lookup"
                return (cls + ":" + op["o"], "%s on %s gave %s; the registry at every moment of the call prescribes %s" % (
                    W.describe(op), name, out.brief(), " or ".join(sorted(set(exps)))[:600]))
        return None

    def rec(done, order, states):
        cap[0] -= 1
        if cap[0] < 0:
            raise TooMany
        if len(order) == n:
            w = readers(order, states)
            if w is None:
                return True
            if n >= best[0][0]:
                best[0] = (n + 1, w)
            return False
        # candidates: not done, and no other undone change returned before it began
        left = [m for m in muts if id(m) not in done]
        for m in left:
            if any(o is not m and o[2] < m[1] for o in left):
                continue
            alts = apply(m[0], states[-1])
            hit = False
            for acc, nst in alts:
                if acc(m[3]):
                    hit = True
                    if rec(done | {id(m)}, order + [m], states + [nst]):
                        return True
            if not hit and len(order) > best[0][0]:
                best[0] = (len(order), ("change:" + m[0]["o"], "%s on %s gave %s, which no order of the changes explains" % (
                    W.describe(m[0]), name, m[3].brief())))
        return False

    try:
        if rec(frozenset(), [], [st0]):
            return None
    except TooMany:
        ctx.stat("order_search_capped")
        return None
    return best[0][1]
