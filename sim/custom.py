"""User-side extensions used by the workloads: coders, matchers, streams.

They stand for what a user of the library writes, so their code is scheduled and interrupted
like library code.  `HOOK` lets a scenario run something (a fault, a nested call, a scheduling
point) from inside any of them.
"""
import functools

from eth_abi import decoding, encoding, exceptions

HOOK = None


def hook(kind, tag):
    h = HOOK
    if h is not None:
        h(kind, tag)


def _check(value):
    if isinstance(value, bool) or not isinstance(value, int) or not 0 <= value < 2**64:
        raise exceptions.EncodingTypeError("custom coder takes integers below 2**64")


def _word(tag, value):
    return tag.to_bytes(4, "big") + value.to_bytes(28, "big")


def _read(stream, tag):
    data = stream.read(32)
    if len(data) != 32:
        raise exceptions.InsufficientDataBytes("custom decoder wants 32 bytes")
    return ("tag", tag, int.from_bytes(data[4:], "big"))


# ---- plain functions
def make_fn_encoder(tag):
    def encoder(value):
        hook("enc", tag)
        _check(value)
        return _word(tag, value)

    return encoder


def make_fn_decoder(tag):
    def decoder(stream):
        hook("dec", tag)
        return _read(stream, tag)

    return decoder


# ---- coder classes
def make_cls_encoder(tag):
    class TagEncoder(encoding.BaseEncoder):
        def validate_value(self, value):
            _check(value)

        def encode(self, value):
            hook("enc", tag)
            _check(value)
            return _word(tag, value)

        @classmethod
        def from_type_str(cls, type_str, registry):
            hook("fac", tag)
            return cls()

    return TagEncoder


def make_cls_decoder(tag):
    class TagDecoder(decoding.BaseDecoder):
        def decode(self, stream):
            hook("dec", tag)
            return _read(stream, tag)

        @classmethod
        def from_type_str(cls, type_str, registry):
            hook("fac", tag)
            return cls()

    return TagDecoder


# ---- coder classes of dynamic types (one word in the tail)
def make_dyn_encoder(tag):
    class DynTagEncoder(make_cls_encoder(tag)):
        is_dynamic = True

    return DynTagEncoder


def make_dyn_decoder(tag):
    class DynTagDecoder(make_cls_decoder(tag)):
        is_dynamic = True

    return DynTagDecoder


# ---- matchers
def make_pred(name, matches):
    def pred(type_str):
        hook("pred", name)
        return type_str in matches

    return pred


class EqPred:
    """matcher with value equality"""

    def __init__(self, name, matches):
        self.name = name
        self.matches = frozenset(matches)

    def __call__(self, type_str):
        hook("pred", self.name)
        return type_str in self.matches

    def __eq__(self, other):
        return type(self) is type(other) and self.matches == other.matches

    def __hash__(self):
        return hash(len(self.matches))

    def __repr__(self):
        return "EqPred(%s)" % self.name


class Methods:
    """matchers that are bound methods: equal but not identical on every access"""

    def __init__(self, name, matches):
        self.name = name
        self.matches = frozenset(matches)

    def match(self, type_str):
        hook("pred", self.name)
        return type_str in self.matches


def partial_pred(matches, type_str):
    hook("pred", "partial")
    return type_str in matches


def make_partial(matches):
    return functools.partial(partial_pred, matches)


# ---- streams
class HookedStream(decoding.ContextFramesBytesIO):
    """Stream whose every read and seek the scenario can disturb."""

    def read(self, size=-1):
        f = STREAM_FAULT
        if f is not None:
            size = f("read", size)
        return super().read(size)

    def seek(self, *args):
        f = STREAM_FAULT
        if f is not None:
            f("seek", args[0])
        return super().seek(*args)


STREAM_FAULT = None


# ---- user decoders that are registered as ready-made objects
class UpperDecoder(decoding.StringDecoder):
    def decode(self, stream):
        return super().decode(stream).upper()


class KlassDecoder(UpperDecoder):
    """a user's decoder class for a type name of its own"""

    @classmethod
    def from_type_str(cls, type_str, registry):
        return cls()


class SingletonDecoder(UpperDecoder):
    """a user's decoder class that hands out one object for ever"""

    _one = None

    @classmethod
    def from_type_str(cls, type_str, registry):
        if cls._one is None:
            cls._one = cls()
        return cls._one
