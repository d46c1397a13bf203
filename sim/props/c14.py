"""C14 parsed types are stable shared values"""
from .. import gen
from .. import refabi as R
from .. import world as W
from . import common as K

import eth_abi.grammar as G

ID = "C14"
QUICK, THOROUGH = 14000, 500000
RULE = ("a run = a history of parse/normalize/validate/item_type/equality/is_dynamic operations and codec calls over 2-5 type "
        "strings that share parts (one run in 80: up to 400 operations, one in 700: very many types), by 1-3 simulated threads preempted at bytecode instructions; each parse result is compared "
        "with an independent parser at once, is held, and is compared again at the end of the run; non-trivial = at least one "
        "type was parsed repeatedly with other operations in between; distinct = distinct (outcome log, switch sequence)")

EXTRA = ["foo", "foo8", "hash", "hash8", "bool8", "bytes33", "string8", "uint7", "int512", "address1", "fixed8", "fixed8x81", "ufixed7x3", "bytes2x3",
         "uint", "byte", "function", "fixed", "uint[2][]", "byte[]", "bytes", "string", "(uint,byte)[3]", "foo3x4"]
BAD = ["", "(", "()", "uint256[", "uint256[-1]", "a b", "(uint256,)", "[]", "8", "uint0256", "((uint8)", "uint8)", "(),uint8", "uint8[0]"]


def make(rng, idx, prof):
    u = K.Uid()
    if idx % 700 == 5:  # very many types, early ones again at the end
        fl = [{"u": u(), "o": rng.choice(("parse", "parse", "normparse", "item", "dyn")), "ty": t} for t in
              K.flood_types(rng, rng.choice((300, 700, 1200, 2500)))]
        return {"threads": [fl], "finale": [{"u": u(), "o": "parse", "ty": op["ty"]} for op in fl[:60] + rng.sample(fl, 60)],
                "sched": {"mode": "none"}}
    types = K.pool(rng, rng.choice((1, 2, 3)), 3)
    types += rng.sample(EXTRA, rng.choice((0, 1, 2)))
    if rng.random() < 0.5:
        t = rng.choice(types)
        types += [t + "[]", t + "[2][]"] if rng.random() < 0.5 else ["(%s,%s)" % (t, rng.choice(types)), "(%s)[2][]" % t]
    if rng.random() < 0.3:
        types.append(rng.choice(BAD))

    def op():
        t = rng.choice(types)
        x = rng.random()
        if x < 0.75:
            o = rng.choice(("parse", "parse", "parse", "normalize", "validate", "item", "itemparse", "eq", "normparse", "dyn"))
            r = {"u": u(), "o": o, "ty": t}
            if o == "eq":
                r["t2"] = rng.choice(types)
            return r
        return K.call_op(rng, u, [t for t in types if ok(t)] or ["uint8"])

    nt = rng.choice((1, 1, 2, 3)) if idx % 80 != 11 else 1
    threads = [[op() for _ in range(rng.choice((150, 400)) if idx % 80 == 11 else rng.randint(6, 20) if nt == 1 else rng.randint(2, 6))] for _ in range(nt)]
    return {"threads": threads, "finale": [{"u": u(), "o": "parse", "ty": t} for t in types],
            "sched": K.sched(rng, prof) if nt > 1 else {"mode": "none"}}


def ok(t):
    try:
        return R.resolve(t).words <= 24
    except R.BadType:
        return False


# ------------------------------------------------------------------ expected structure
def ptval(p):
    """does the specification allow this (already parsed) type"""
    if p.comps is not None:
        return all(ptval(c) for c in p.comps)
    b, s = p.base, p.sub
    if b == "string" or b == "address":
        return s is None
    if b == "bytes":
        return s is None or (isinstance(s, int) and s <= 32)
    if b in ("int", "uint"):
        return isinstance(s, int) and 8 <= s <= 256 and s % 8 == 0
    if b in ("fixed", "ufixed"):
        return isinstance(s, tuple) and 8 <= s[0] <= 256 and s[0] % 8 == 0 and 1 <= s[1] <= 80
    if b == "hash":
        return isinstance(s, int)
    return True


def want(p):
    d = None if not p.dims else tuple(() if x is None else (x,) for x in p.dims)
    if p.comps is not None:
        return ("tuple", p.render(), d, bool(p.dims), p.is_dynamic(), tuple(want(c) for c in p.comps))
    return ("basic", p.render(), d, bool(p.dims), p.is_dynamic(), (p.base, p.sub))


def got(a):
    if isinstance(a, G.TupleType):
        return ("tuple", a.to_type_str(), a.arrlist, a.is_array, a.is_dynamic, tuple(got(c) for c in a.components))
    return ("basic", a.to_type_str(), a.arrlist, a.is_array, a.is_dynamic, (a.base, a.sub))


ALIAS = {"int": "int256", "uint": "uint256", "fixed": "fixed128x18", "ufixed": "ufixed128x18", "function": "bytes24", "byte": "bytes1"}


def canon(p):
    if p.comps is not None:
        return R.PT(None, None, [canon(c) for c in p.comps], p.dims)
    if p.sub is None and p.base in ALIAS:
        q = R.parse(ALIAS[p.base])
        return R.PT(q.base, q.sub, None, p.dims)
    return p


def item(p):
    return R.PT(p.base, p.sub, p.comps, p.dims[:-1])


def parse(t):
    try:
        return R.parse(t)
    except R.BadType:
        return None


BADCAT = ("badtype", "value")


def expect(op):
    o = op["o"]
    p = parse(op["ty"])
    if o == "normalize":
        return W.Exp(True, canon(p).render()) if p else None
    if p is None:
        return W.Exp(False, cats=BADCAT)
    if o == "parse":
        return W.Exp(True, want(p))
    if o == "normparse":
        return W.Exp(True, want(canon(p)))
    if o == "validate":
        return W.Exp(True, True) if ptval(p) else W.Exp(False, cats=("badtype",))
    if o == "dyn":
        return W.Exp(True, p.is_dynamic())
    if o in ("item", "itemparse"):
        return W.Exp(True, want(item(p))) if p.dims else W.Exp(False, cats=("value",))
    q = parse(op["t2"])
    if q is None:
        return W.Exp(False, cats=BADCAT)
    return W.Exp(True, p.render() == q.render())


def run(ctx):
    codecs = W.base_codecs()
    sim = ctx.make_sim()
    held = []

    def ex(op):
        o = op["o"]
        t = op["ty"]

        def keep(a, p):
            held.append((a, want(p), t))
            return got(a)

        if o == "parse":
            return W.call(lambda: keep(G.parse(t), parse(t)))
        if o == "normalize":
            return W.call(G.normalize, t)
        if o == "normparse":
            return W.call(lambda: keep(G.parse(G.normalize(t)), canon(parse(t))))
        if o == "validate":
            return W.call(lambda: G.parse(t).validate() is None)
        if o == "dyn":
            return W.call(lambda: G.parse(t).is_dynamic)
        if o == "item":
            return W.call(lambda: keep(G.parse(t).item_type, item(parse(t))))
        if o == "itemparse":
            return W.call(lambda: keep(G.parse(G.parse(t).item_type.to_type_str()), item(parse(t))))
        if o == "eq":
            return W.call(lambda: G.parse(t) == G.parse(op["t2"]))
        return W.do_call(op, codecs)

    ctx.run_threads(ex)
    ctx.run_ops(ctx.sc["finale"], ex, "end")
    sim.uninstrument()
    seen = {}
    for who, op, inv, ret, out in ctx.hist:
        o = op["o"]
        e = W.expect(op) if o in ("enc", "dec", "isenc", "istype") else expect(op)
        ctx.stat(o + ("_ok" if out.ok else "_rejected"))
        if o == "parse":
            seen[op["ty"]] = seen.get(op["ty"], 0) + 1
        if e is not None and not e.match(out):
            ctx.fail("wrong:" + o, "thread %s: %s gave %s, must give %s" % (who, W.describe(op), out.brief(), e.brief()))
    if any(v > 1 for v in seen.values()):
        ctx.stats["nontrivial"] = 1
    for a, w, t in held:
        g = W.call(got, a)
        if not g.ok or g.val != w:
            ctx.fail("changed-later", "a type parsed from %r was %r and later became %s" % (t, w, g.brief()))
