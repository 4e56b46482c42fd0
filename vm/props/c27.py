import base64
import collections
import copy
import datetime
import decimal
import enum
import fractions
import gzip
import hashlib
import pickle
import uuid

import numpy

from diamondback import Serial
from vm.engine import Kind

RULE = ("Each case builds a random nested object (containers, numbers of every type, text of every plane, bytes, arrays, dates, sets, shared references), "
        "encodes it with a random compression and encoding, and checks alphabet, determinism, the decoded value by a strict recursive comparison, and that "
        "the object is unchanged. Corruption cases alter a compressed payload (substitution, deletion, insertion, swap, truncation, duplication) beyond its "
        "header. Signatures are the encoded text.")
ASSUMPTIONS = ["encodings are ASCII-compatible", "alterations touch the compressed payload beyond the ten-byte gzip header",
               "equality of NaN is by being NaN; decoding text from an untrusted source runs pickle and is outside the guarantee"]
ALPHABET = set("0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz!#$%&()*+-;<=>?@^_`{|}~")
ENCODINGS = ("utf-8", "ascii", "latin-1", "cp1252", "UTF8", "iso8859-15", "cp437", "koi8-r", "big5", "shift_jis")
REACH = ("compressed", "plain", "detected", "utf-8", "ascii", "other encoding", "array", "text", "bytes", "nested", "large", "very large", "shared", "scalar", "code", "corrupted", "object",
         "substitution", "deletion", "insertion", "swap", "truncation", "rejected", "structured array", "complex", "falsy", "cyclic", "surrogate", "gzip-like bytes", "encoded again")


class Colour(enum.Enum):
    RED, BLUE = 1, "b"


Pair = collections.namedtuple("Pair", "a b")


class Rows(list):
    pass


class Point:
    def __init__(self, x, y):
        self.x, self.y = x, y


def text(rng):
    k = rng.integers(0, 4)
    n = int(rng.integers(0, 30))
    if k == 0:
        return "".join(chr(c) for c in rng.integers(32, 127, n))
    if k == 1:
        return "".join(chr(c) for c in rng.integers(0, 0xD7FF, n))
    if k == 2:
        return "".join(chr(c) for c in rng.integers(0x10000, 0x10FFFF, n))
    return str(rng.choice(["", "\x00", "\n\r\t", "'\"\\", "{}%s<red>", "a" * 500, "a\r\nb\r\n", "\ufeffx", "e\u0301", " x ", "x\n"]))


def make(ctx, depth=0):
    rng = ctx.rng
    k = int(rng.integers(0, 20 if depth < 3 else 12))
    if k == 0:
        return rng.choice([None, True, False]).item() if rng.uniform() < 0 else [None, True, False][rng.integers(0, 3)]
    if k == 1:
        ctx.tag("scalar")
        return int(rng.integers(-5, 5)) * 10 ** int(rng.choice([0, 1, 18, 40]))
    if k == 2:
        return float(rng.choice([0.0, -0.0, numpy.inf, -numpy.inf, numpy.nan, 5e-324, rng.normal(), 1.7e308]))
    if k == 3:
        ctx.tag("complex")
        return complex(*rng.normal(size=2))
    if k == 4:
        ctx.tag("text")
        return text(rng)
    if k == 5:
        ctx.tag("bytes")
        b = bytes(rng.integers(0, 256, int(rng.integers(0, 40)), dtype=numpy.uint8))
        return b if rng.uniform() < 0.7 else bytearray(b)
    if k in (6, 7):
        ctx.tag("array")
        t = str(rng.choice(["f8", "f4", "c16", "c8", "i8", "i4", "u1", "?", "<U3"]))
        s = tuple(int(v) for v in rng.integers(0, 4, int(rng.integers(0, 4))))
        a = numpy.array(rng.integers(-9 if t != "u1" else 0, 9, s)).astype(t)
        return numpy.asfortranarray(a) if rng.uniform() < 0.3 else a
    if k == 8:
        ctx.tag("structured array")
        return numpy.zeros(int(rng.integers(1, 4)), [("a", "f8"), ("b", "i4", 2)])
    if k == 9:
        return [datetime.datetime(2026, 1, 2, 3, 4, 5, 6), datetime.date(1, 1, 1), datetime.timedelta(-1, 5), decimal.Decimal("1.10"), fractions.Fraction(-3, 7),
                range(3, 40, 5), slice(1, None, 2), numpy.float32(0.1), numpy.int64(-3), numpy.float64(numpy.nan), datetime.datetime(2026, 1, 1, tzinfo=datetime.timezone.utc)][rng.integers(0, 11)]
    if k == 10:
        ctx.tag("object")
        return Point(make(ctx, depth + 1), int(rng.integers(0, 9)))
    if k == 11:
        ctx.tag("falsy")
        return [0, 0.0, "", b"", [], (), {}, set(), False, None][rng.integers(0, 10)]
    n = int(rng.integers(0, 5))
    ctx.tag("nested")
    if k in (12, 13, 14):
        v = [make(ctx, depth + 1) for _ in range(n)]
        if n and rng.uniform() < 0.3:
            ctx.tag("shared")
            v.append(v[0])
        return v
    if k in (15, 16):
        return tuple(make(ctx, depth + 1) for _ in range(n))
    if k == 17:
        return {text(rng) if rng.uniform() < 0.6 else int(rng.integers(0, 99)): make(ctx, depth + 1) for _ in range(n)}
    if k == 18:
        v = {text(rng) if rng.uniform() < 0.5 else int(rng.integers(0, 99)) for _ in range(n)}
        return v if rng.uniform() < 0.5 else frozenset(v)
    if rng.uniform() < 0.5:
        return [collections.defaultdict(list, {i: make(ctx, depth + 1) for i in range(n)}), Pair(make(ctx, depth + 1), n), Colour.RED, Colour.BLUE, uuid.UUID(int=int(rng.integers(0, 2**60))),
                numpy.array([make(ctx, 3) for _ in range(n)] + [None], object), numpy.array(["2026-01-01", "NaT"], "M8[D]"), Rows(range(n)), len, collections.OrderedDict,
                numpy.dtype("f4"), datetime.time(1, 2, 3), b"x" * n, ValueError("v", n), ...][rng.integers(0, 15)]
    return [collections.OrderedDict((i, make(ctx, depth + 1)) for i in range(n)), collections.deque(range(n), 7), collections.Counter("abca")][rng.integers(0, 3)]


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, numpy.ndarray):
        if a.dtype == object:
            return b.dtype == object and a.shape == b.shape and all(map(same, a.ravel().tolist(), b.ravel().tolist()))
        return (a.dtype == b.dtype and a.shape == b.shape and (a.tobytes() == b.tobytes()))
    if isinstance(a, (float, numpy.floating)):
        return (a != a and b != b) or (a == b and numpy.signbit(a) == numpy.signbit(b))
    if isinstance(a, dict):
        return len(a) == len(b) and list(map(repr, a)) == list(map(repr, b)) and all(same(v, b[k]) for k, v in a.items())
    if isinstance(a, BaseException):
        return same(a.args, b.args)
    if isinstance(a, collections.defaultdict) and a.default_factory is not b.default_factory or isinstance(a, collections.deque) and a.maxlen != b.maxlen:
        return False
    if isinstance(a, (list, tuple, collections.deque)):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, Point):
        return same(a.x, b.x) and same(a.y, b.y)
    return a == b


def snapshot(x):
    return copy.deepcopy(x)


def roundtrip(ctx):
    rng = ctx.rng
    x = make(ctx)
    if rng.uniform() < 0.05:
        x = [x, rng.normal(size=30000)]
        ctx.tag("large")
    if rng.uniform() < 0.004:
        n = int(rng.integers(1 << 20, 3 << 20))
        x = [bytes(n), rng.integers(0, 256, n, dtype=numpy.uint8).tobytes(), "\u4e2d0" * (n // 4), rng.normal(size=n // 8), list(range(n // 8)),
             {"a": bytes(n), "b": make(ctx)}][rng.integers(0, 6)]
        ctx.tag("very large")
    elif rng.uniform() < 0.1:
        x = gzip.compress(pickle.dumps(x)) if rng.uniform() < 0.5 else b"\x1f\x8b\x08\x00" + bytes(20)
        ctx.tag("gzip-like bytes")
    before = snapshot(x)
    compress, encoding = bool(rng.integers(0, 2)), str(rng.choice(ENCODINGS))
    if compress and encoding == "utf-8" and rng.uniform() < 0.5:
        y = Serial.encode(x)
    else:
        y = Serial.encode(x, compress, encoding) if rng.uniform() < 0.5 else Serial.encode(x=x, compress=compress, encoding=encoding)
    ctx.event()
    ctx.ok(type(y) is str and y, "encoded value is text", got=type(y))
    ctx.ok(set(y) <= ALPHABET, "encoded text is Base-85", extra=sorted(set(y) - ALPHABET))
    ctx.ok(same(x, before), "object unchanged by encoding", object=repr(before)[:200])
    if not compress:
        ctx.ok(Serial.encode(x, False, encoding) == y, "uncompressed encoding is deterministic")
        ctx.ok(same(pickle.loads(base64.b85decode(y)), x), "text is Base-85 of the serialized object")
    else:
        ctx.ok(same(pickle.loads(gzip.decompress(base64.b85decode(y))), x), "text is Base-85 of the compressed serialized object")
    z = Serial.decode(y) if encoding == "utf-8" and rng.uniform() < 0.5 else Serial.decode(x=y, encoding=encoding)
    ctx.ok(same(z, before), "decoded object equals the original", original=repr(before)[:200], decoded=repr(z)[:200], compress=compress, encoding=encoding)
    other = str(rng.choice(ENCODINGS))
    ctx.ok(same(Serial.decode(y, other), before), "any ASCII-compatible encoding decodes alike", encoding=encoding, other=other)
    c = Serial.code(y, encoding) if encoding != "utf-8" or rng.uniform() < 0.5 else Serial.code(y)
    ctx.ok(c == hashlib.sha3_256(y.encode("ascii")).hexdigest(), "code is the digest of the encoded text", got=c)
    ctx.tag("compressed" if compress else "plain", "detected", encoding if encoding in ("utf-8", "ascii") else "other encoding", "code")
    ctx.note(object=repr(before)[:120], length=len(y), compress=compress, encoding=encoding)
    ctx.sig(y)


def cyclic(ctx):
    """Objects that hold themselves, share parts, or hold text that no encoding holds."""
    rng = ctx.rng
    compress, encoding = bool(rng.integers(0, 2)), str(rng.choice(ENCODINGS))
    part = [make(ctx) for _ in range(int(rng.integers(1, 4)))]
    x = [part, dict(p=part), (part, "\ud800" + text(rng))]
    x[1]["self"] = x
    x.append(x)
    p = Point(part, 1)
    p.x = p
    x.append(p)
    y = Serial.encode(x, compress, encoding)
    ctx.event()
    ctx.ok(len(x) == 5 and x[3] is x and x[1]["self"] is x and p.x is p, "object unchanged by encoding")
    z = Serial.decode(y, encoding)
    ctx.ok(type(z) is list and len(z) == 5 and z[3] is z and z[1]["self"] is z and z[4].x is z[4], "an object that holds itself is decoded holding itself")
    ctx.ok(z[0] is z[1]["p"] and z[0] is z[2][0] and z[0] is not part, "shared parts are shared in the decoded object")
    ctx.ok(same(z[0], part) and same(z[2][1], x[2][1]), "decoded parts equal the original")
    ctx.tag("cyclic", "surrogate")
    ctx.note(compress=compress, length=len(y))
    ctx.sig(y)


def again(ctx):
    """An object encoded, changed in place, and encoded again, between encodings of others."""
    rng = ctx.rng
    inner = [make(ctx) for _ in range(int(rng.integers(1, 4)))]
    k = rng.integers(0, 4)
    a = rng.normal(size=int(rng.integers(1, 2000)))
    x = [{"a": inner, "b": a, "c": 1}, [inner, a], Point(inner, a), a][k]
    compress = bool(rng.integers(0, 2))
    for _ in range(int(rng.integers(2, 5))):
        before = snapshot(x)
        y = Serial.encode(x, compress)
        ctx.event()
        ctx.ok(same(Serial.decode(y), before), "object encoded again decodes as it is now", original=repr(before)[:200], compress=compress)
        if rng.uniform() < 0.3:
            Serial.encode(make(ctx), compress)
        z = Serial.decode(y)
        (z if k == 3 else z["b"] if k == 0 else z[1] if k == 1 else z.y)[:] = 7.0
        ctx.ok(same(Serial.decode(y), before), "text decoded again is independent of the first object decoded")
        v = rng.integers(0, 3)
        if v == 0 or k == 3:
            a[rng.integers(0, len(a))] = rng.normal()
        elif v == 1:
            inner[rng.integers(0, len(inner))] = make(ctx)
        elif k == 0:
            x["c"] += 1
        else:
            inner.append(make(ctx))
        if rng.uniform() < 0.2:
            compress = not compress
    ctx.tag("encoded again")
    ctx.note(kind=int(k))
    ctx.sig(y)


def code(ctx):
    rng = ctx.rng
    x = text(rng) or "x"
    for encoding in ("utf-8", "utf-16", "latin-1", "ascii", "cp1252"):
        try:
            want = hashlib.sha3_256(x.encode(encoding)).hexdigest()
        except UnicodeEncodeError:
            ctx.raises(UnicodeEncodeError, "text beyond the encoding", Serial.code, x, encoding)
            continue
        ctx.event()
        ctx.ok(Serial.code(x, encoding) == want, "code is the SHA3-256 digest", text=x, encoding=encoding)
    y = x + text(rng)
    if x != y:
        ctx.ok(Serial.code(x, "utf-8") != Serial.code(y, "utf-8"), "different text has a different code")
    ctx.tag("code")
    ctx.note(text=x[:40])
    ctx.sig(x)


def corruption(ctx):
    rng = ctx.rng
    x = make(ctx)
    if rng.uniform() < 0.5:
        x = [x, rng.normal(size=int(rng.integers(1, 200)))]
    y = Serial.encode(x, True)
    head = 13
    done = 0
    for _ in range(24):
        s = list(y)
        i = int(rng.integers(head, len(s)))
        k = rng.integers(0, 6)
        if k == 0:
            s[i] = str(rng.choice(sorted(ALPHABET)))
            name = "substitution"
        elif k == 1:
            del s[i : i + int(rng.integers(1, 12))]
            name = "deletion"
        elif k == 2:
            s[i:i] = list(rng.choice(sorted(ALPHABET), int(rng.integers(1, 12))))
            name = "insertion"
        elif k == 3:
            j = int(rng.integers(head, len(s)))
            s[i], s[j] = s[j], s[i]
            name = "swap"
        elif k == 4:
            s = s[:i]
            name = "truncation"
        else:
            j = int(rng.integers(i, min(len(s), i + 40) + 1))
            s[i:i] = s[i:j]
            name = "duplication"
        s = "".join(s)
        if s == y:
            continue
        done += 1
        ctx.event()
        ctx.tag(name)
        try:
            z = Serial.decode(s)
        except Exception:
            ctx.ok(True, "error")
            continue
        ctx.ok(same(z, x), "altered text decodes into a different object", alteration=name, at=i, original=repr(x)[:100], decoded=repr(z)[:100])
    ctx.tag("corrupted")
    ctx.note(object=repr(x)[:80], length=len(y), alterations=done)
    ctx.sig(y)
    ctx.trivial = not done


def rejects(ctx):
    rng = ctx.rng
    for e in ("", None):
        ctx.raises(ValueError, "encoding", Serial.encode, 1, True, e)
        ctx.raises(ValueError, "encoding", Serial.decode, "abc", e)
        ctx.raises(ValueError, "encoding", Serial.code, "abc", e)
        ctx.raises(ValueError, "text", Serial.decode, e)
        ctx.raises(ValueError, "text", Serial.code, e)
    y = Serial.encode({"a": 1}, bool(rng.integers(0, 2)))
    ctx.raises(Exception, "text outside the alphabet", Serial.decode, y[:5] + str(rng.choice(['"', " ", "/", "\\", "é"])) + y[6:])
    ctx.raises(Exception, "object that cannot be serialized", Serial.encode, lambda: 0)
    ctx.tag("rejected")
    ctx.note(text=y)
    ctx.sig(y)


KINDS = dict(roundtrip=Kind(roundtrip, 3000, 40000), cyclic=Kind(cyclic, 200, 4000), again=Kind(again, 400, 12000), code=Kind(code, 400, 4000), corruption=Kind(corruption, 500, 6000), rejects=Kind(rejects, 20, 40))
