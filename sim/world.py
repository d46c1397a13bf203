"""Executes scenario operations against the real library and records the history."""
import random
import re

from . import boot  # noqa: F401  (imports the code under test)
from . import custom, engine
from . import refabi as R
from .engine import RunAbort

import eth_abi
import eth_abi.codec
import eth_abi.grammar as grammar
import eth_abi.registry as registry_mod
from eth_abi import exceptions as X
import parsimonious


def category(e):
    if isinstance(e, X.EncodingError):
        return "encoding"
    if isinstance(e, X.DecodingError):
        return "decoding"
    if isinstance(e, UnicodeDecodeError):
        return "unicode"
    if isinstance(e, X.NoEntriesFound):
        return "missing"
    if isinstance(e, X.MultipleEntriesFound):
        return "multiple"
    if isinstance(e, (X.ParseError, X.ABITypeError, parsimonious.ParseError)):
        return "badtype"
    if isinstance(e, KeyError):
        return "key"
    if isinstance(e, TypeError):
        return "type"
    if isinstance(e, ValueError):
        return "value"
    if isinstance(e, OSError):
        return "os"
    return "other"


_ADDR = re.compile(r" at 0x[0-9a-f]+")


class Out:
    """outcome of one call"""

    __slots__ = ("ok", "val", "cat", "cls", "exc", "msg")

    def __init__(self, ok, val=None, exc=None):
        self.ok, self.val, self.exc = ok, val, exc
        if not ok:
            self.cat, self.cls = category(exc), type(exc).__name__
            try:
                self.msg = _ADDR.sub("", str(exc)[:160])
            except Exception:
                self.msg = "?"
        else:
            self.cat = self.cls = self.msg = None

    def brief(self):
        if self.ok:
            s = repr(self.val)
            return "ok " + (s if len(s) < 200 else s[:200] + "...")
        return "err %s(%s)" % (self.cls, self.msg)


def call(fn, *a, **kw):
    try:
        v = fn(*a, **kw)
    except RunAbort:
        raise
    except BaseException as e:
        _over()
        e.__traceback__ = None
        return Out(False, exc=e)
    _over()
    return Out(True, v)


def _over():
    """the call is over: a fault still armed for it must not hit the harness"""
    s = engine.SIM
    if s is not None and s.armed:
        s.disarm()


class Violation(Exception):
    def __init__(self, cls, msg):
        self.cls, self.msg = cls, msg


class Ctx:
    """one simulated run"""

    def __init__(self, sc, rng):
        self.sc = sc
        self.rng = rng
        self.hist = []
        self.stats = {}
        self.viol = None
        self.sim = None
        self.log = []

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def fail(self, cls, msg):
        if self.viol is None:
            self.viol = (cls, msg)
        raise Violation(cls, msg)

    def flag(self, cls, msg):
        if self.viol is None:
            self.viol = (cls, msg)

    # -- simulation
    def make_sim(self, **kw):
        sched = self.sc.get("sched") or {"mode": "none"}
        self.sim = engine.Sim(boot.CODES, sched, self.rng)
        self.sim.on_abort = self._abort
        if self.sc.get("seed", 0) % 2:
            self.sim.clk = random.Random(self.sc["seed"])
        self.points_on = kw.get("points", False)
        self.sim.instrument(**kw)
        return self.sim

    def _abort(self, kind, msg):
        self.flag(kind, msg)
        self.on_abort()

    def on_abort(self):  # replaced by the runner
        pass

    def run_ops(self, ops, execute, who="main"):
        for op in ops:
            s = self.sim
            inv = s.op_begin(op["u"]) if s else len(self.hist)
            out = execute(op)
            ret = s.op_end(op["u"]) if s else len(self.hist)
            self.hist.append((who, op, inv, ret, out))
            if s:
                s.boundary(op["u"])

    def run_threads(self, execute):
        bodies = []
        for i, ops in enumerate(self.sc["threads"]):
            def body(i=i, ops=ops):
                self.run_ops(ops, execute, i)
            bodies.append(body)
        self.sim.run_threads(bodies)


# ------------------------------------------------------------------ stateless expectations
NOTYPE = ("missing", "badtype", "value")


class Exp:
    """expected outcome: ok value, or an error of one of the categories"""

    __slots__ = ("ok", "val", "cats", "either")

    def __init__(self, ok, val=None, cats=(), either=False):
        self.ok, self.val, self.cats, self.either = ok, val, cats, either

    def match(self, out):
        if out.ok:
            return (self.ok or self.either) and R.same(out.val, self.val)
        return (not self.ok or self.either) and out.cat in self.cats

    def brief(self):
        if self.ok:
            return "ok " + repr(self.val)[:200] + (" or rejection" if self.either else "")
        return "rejection (%s)" % "/".join(self.cats)


def nodes_for(types, env=None):
    return [R.resolve(t, env) for t in types]


def exp_encode(types, vals, env=None, packed=False):
    try:
        ns = nodes_for(types, env)
    except R.BadType:
        return Exp(False, cats=NOTYPE)
    try:
        return Exp(True, (R.encode_packed if packed else R.encode)(ns, vals))
    except R.Reject:
        return Exp(False, cats=("encoding",))


def exp_decode(types, data, strict=True, env=None):
    try:
        ns = nodes_for(types, env)
    except R.BadType:
        return Exp(False, cats=NOTYPE)
    d = R.Dec(data, strict).run(ns)
    if d.overflow:
        return None
    if d.hard:
        return Exp(False, cats=("decoding", "unicode") if "unicode" in d.hard else ("decoding",))
    return Exp(True, d.value, cats=("decoding",), either=d.soft)


def exp_isenc(t, v, env=None):
    try:
        n = R.resolve(t, env)
    except R.BadType:
        return Exp(True, False)
    try:
        R.enc(n, v)
        return Exp(True, True)
    except R.Reject:
        return Exp(True, False)


def exp_istype(t, env=None):
    try:
        R.resolve(t, env)
        return Exp(True, True)
    except R.BadType:
        return Exp(True, False)


def expect(op, env=None):
    o = op["o"]
    if o == "enc":
        return exp_encode(op["ty"], [R.from_j(v) for v in op["v"]], env, op.get("c", "").startswith("packed"))
    if o == "dec":
        return exp_decode(op["ty"], bytes.fromhex(op["d"]), op.get("strict", True), env)
    if o == "isenc":
        return exp_isenc(op["ty"], R.from_j(op["v"]), env)
    if o == "istype":
        return exp_istype(op["ty"], env)
    raise AssertionError(o)


def do_call(op, codecs):
    """performs enc/dec/isenc/istype through the codec named in the op"""
    o = op["o"]
    c = codecs[op.get("c", "std")]
    if o == "enc":
        return call(c.encode, op["ty"], [R.from_j(v) for v in op["v"]])
    if o == "dec":
        if "strict" in op:
            return call(c.decode, op["ty"], bytes.fromhex(op["d"]), strict=op["strict"])
        return call(c.decode, op["ty"], bytes.fromhex(op["d"]))
    if o == "isenc":
        return call(c.is_encodable, op["ty"], R.from_j(op["v"]))
    if o == "istype":
        return call(c.is_encodable_type, op["ty"])
    raise AssertionError(o)


class Std:
    """module-level functions as one more codec"""

    encode = staticmethod(eth_abi.encode)
    decode = staticmethod(eth_abi.decode)
    is_encodable = staticmethod(eth_abi.is_encodable)
    is_encodable_type = staticmethod(eth_abi.is_encodable_type)


def base_codecs():
    import eth_abi.packed as P

    class Packed:
        encode = staticmethod(P.encode_packed)
        is_encodable = staticmethod(P.is_encodable_packed)

    pc = eth_abi.codec.ABIEncoder(registry_mod.registry_packed)
    Packed.is_encodable_type = staticmethod(pc.is_encodable_type)
    return {
        "std": Std,
        "std2": eth_abi.codec.ABICodec(registry_mod.registry),
        "packed": Packed,
        "packed2": pc,
    }


def fresh_codecs(codecs, names):
    """codecs over copies of the default registries that nobody has used yet: f<k> and packedf<k>"""
    for k in sorted(set(names)):
        reg = (registry_mod.registry_packed if k.startswith("packedf") else registry_mod.registry).copy()
        codecs[k] = (eth_abi.codec.ABIEncoder if k.startswith("packedf") else eth_abi.codec.ABICodec)(reg)
        codecs["reg:" + k] = reg


def look(codecs, c, t):
    """looks coders up without using them"""
    reg = codecs.get("reg:" + c)
    if reg is None:
        reg = registry_mod.registry_packed if c.startswith("packed") else registry_mod.registry
    call(reg.get_encoder, t)
    if not c.startswith("packed"):
        call(reg.get_decoder, t)
        call(reg.get_decoder, t, strict=False)


def describe(op):
    o = dict(op)
    o.pop("u", None)
    s = repr(o)
    return s if len(s) < 400 else s[:400] + "..."
