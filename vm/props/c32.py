import copy as cp
import hashlib

import numpy

from vm import components
from vm.engine import Kind

RULE = ("Each case drives two identical instances of one component through the same random history. The subject is handed arguments in hostile form "
        "(writable arrays, read-only arrays, strided and reversed views of larger buffers, lists, tuples) whose bytes, and those of the buffers behind "
        "them, are digested before and after every call; once a call returned, arguments and results are overwritten at random, in the subject's history "
        "only. The twin gets pristine copies that nobody overwrites. Every result of the subject must equal the twin's, earlier results must stay as they "
        "were returned, and the class tables must keep their digest. Signatures are (component, configuration, operations).")
ASSUMPTIONS = ["what a property such as b or s returns is not covered: some are the live state by design"]
REACH = [s.name for s in components.ALL] + ["long", "read-only argument", "view argument", "list argument", "argument overwritten", "result overwritten", "assigned array overwritten",
                                            "earlier result kept", "query overwritten", "configuration overwritten"]


def digest(v):
    if isinstance(v, numpy.ndarray):
        b = v
        while isinstance(b.base, numpy.ndarray):
            b = b.base
        return hashlib.sha256(str((v.shape, v.strides, v.dtype)).encode() + numpy.ascontiguousarray(v).tobytes() + numpy.ascontiguousarray(b).tobytes()).hexdigest()
    return repr(v)


def values(v):
    return hashlib.sha256(str((v.shape, v.dtype)).encode() + numpy.ascontiguousarray(v).tobytes()).hexdigest()


def hostile(rng, x, lists=True):
    """The same values in a form that shows a modification, and the name of the form."""
    k = int(rng.integers(0, 6 if lists else 4))
    if k == 0:
        return numpy.array(x), "array"
    if k == 1:
        y = numpy.array(x)
        y.flags.writeable = False
        return y, "read-only"
    if k == 2:
        y = numpy.full((x.shape[0] * 2 + 3,) + x.shape[1:], 7, x.dtype)
        y[1 : 1 + 2 * x.shape[0] : 2] = x
        return y[1 : 1 + 2 * x.shape[0] : 2], "view"
    if k == 3:
        return numpy.array(x[::-1])[::-1], "view"
    return (x.tolist(), "list") if k == 4 else (tuple(x.tolist()), "list")


def scribble(rng, v, whole=True):
    """Overwrites an array, the whole buffer behind it, or a list."""
    if isinstance(v, numpy.ndarray):
        while whole and isinstance(v.base, numpy.ndarray):
            v = v.base
        if v.flags.writeable and v.size:
            v[...] = rng.integers(1, 100, v.shape).astype(v.dtype)
            return True
    elif isinstance(v, list) and v:
        v[:] = [99 if not isinstance(u, list) else [99 for _ in u] for u in v]
        return True
    return False


LISTS = {"FirFilter", "IirFilter", "DerivativeFilter", "IntegralFilter", "PidFilter", "RankFilter", "GoertzelFilter", "ComplexExponentialFilter", "ComplexBandpassFilter",
         "ComplexFrequencyFilter", "PolynomialRateFilter", "PolyphaseRateFilter", "WindowFilter", "FourierTransform", "PsdTransform", "ZTransform", "WaveletTransform",
         "ComplexTransform", "DiversityModel"}


def form(ctx, k):
    ctx.tag(*{"read-only": ["read-only argument"], "view": ["view argument"], "list": ["list argument"]}.get(k, []))


def alias(ctx):
    rng = ctx.rng
    spec = components.pick(rng)
    p = spec.params(rng)
    static = isinstance(spec, components.Static)
    before = components.tables()
    pa = {}
    for k, v in p.items():
        if isinstance(v, numpy.ndarray):
            pa[k], f = hostile(rng, v, spec.name in LISTS)
            form(ctx, f)
        else:
            pa[k] = v
    marks = {k: digest(v) for k, v in pa.items()}
    subject, twin = spec.build(pa), spec.build(components.copy(p))
    ctx.event(2)
    for k, v in pa.items():
        ctx.ok(digest(v) == marks[k], f"{spec.name}: construction leaves its argument {k} as it was", argument=v)
    ops = []
    if not static:
        for k, v in pa.items():
            if rng.uniform() < 0.7 and scribble(rng, v):
                ctx.tag("configuration overwritten")
    kept = []  # (result, digest)

    def intact(what):
        for r, d in kept:
            ctx.ok(values(r) == d, f"{spec.name}: a result stays as it was returned", after=what, operations=ops)
        if len(kept) > 1:
            ctx.tag("earlier result kept")

    for _ in range(int(rng.integers(2, 6))):
        c = rng.uniform()
        q = components.assignment(rng, spec, twin) if c < 0.25 else None
        if q:
            k, v = q
            a, f = hostile(rng, v)
            form(ctx, f)
            d = digest(a)
            setattr(subject, k, a)
            setattr(twin, k, numpy.array(v))
            ctx.ok(digest(a) == d, f"{spec.name}: assignment of {k} leaves the array as it was")
            if isinstance(a, numpy.ndarray):
                kept.append((a, values(a)))
            if rng.uniform() < 0.7 and scribble(rng, a):
                if isinstance(a, numpy.ndarray):
                    kept.pop()
                ctx.tag("assigned array overwritten")
            ops.append(f"assign {k} {f}")
        elif c < 0.35:
            d, fn = spec.tweak(rng, p)
            fn(subject), fn(twin)
            ops.append(d)
        elif c < 0.45 and spec.name in ("FirFilter", "IirFilter", "DerivativeFilter"):
            n = int(rng.integers(3, 20))
            name = str(rng.choice(["response", "delay", "roots"]))
            if name == "delay" and (not numpy.asarray(twin.b).any()):
                name = "response"
            try:
                u = getattr(subject, name)(*(() if name == "roots" else (n,)))
                v = getattr(twin, name)(*(() if name == "roots" else (n,)))
            except Exception:
                continue  # a query outside the domain of its numerical method; other properties judge it
            for i, (g, w) in enumerate(zip(u, v)):
                ctx.ok(numpy.array_equal(g, w, equal_nan=True), f"{spec.name}: {name} result {i} equals the twin's", got=g, want=w)
                if scribble(rng, g, False):
                    ctx.tag("query overwritten")
            ops.append(name)
        n = spec.length(rng, p)
        if rng.uniform() < 0.012 and not static and spec.name not in ("WaveletTransform", "WindowFilter"):
            n = int(rng.integers(100, 3000))
            ctx.tag("long")
        x = spec.signal(rng, n, p)
        a, f = hostile(rng, x, spec.name in LISTS)
        form(ctx, f)
        d = digest(a)
        got = spec.run(subject, a)
        ctx.ok(digest(a) == d, f"{spec.name}: a call leaves its argument as it was", form=f, argument=a)
        if static:
            for k, v in pa.items():
                ctx.ok(digest(v) == marks[k], f"{spec.name}: a call leaves its argument {k} as it was", argument=v)
        want = spec.run(twin, numpy.array(x))
        ctx.event(2)
        ops.append(f"call {f} {n}")
        components.compare(ctx, spec, p, numpy.concatenate((x.ravel(), [1.0])), got, want, "subject against twin", operations=ops)
        intact("a later call")
        for i, r in enumerate(got):
            ctx.ok(isinstance(r, numpy.ndarray) and r.flags.writeable, f"{spec.name}: result {i} is the caller's to write")
        order = rng.permutation(2)
        for k in order:
            if k == 0 and rng.uniform() < 0.6:
                d = [values(r) for r in got]
                if scribble(rng, a):
                    ctx.tag("argument overwritten")
                    ctx.ok(d == [values(r) for r in got], f"{spec.name}: a result does not follow its argument", operations=ops)
            elif k == 1 and rng.uniform() < 0.6:
                d, m = digest(a), [digest(v) for v in pa.values()]
                for i, r in enumerate(got):
                    others = [values(u) for j, u in enumerate(got) if j != i]
                    if scribble(rng, r, False):
                        ctx.tag("result overwritten")
                    ctx.ok(others == [values(u) for j, u in enumerate(got) if j != i], f"{spec.name}: results are independent of one another", operations=ops)
                ctx.ok(digest(a) == d and m == [digest(v) for v in pa.values()], f"{spec.name}: writing to a result leaves arguments as they were", operations=ops)
        kept += [(r, values(r)) for r in got]
        intact("overwriting")
    x = spec.signal(rng, spec.length(rng, p), p)
    components.compare(ctx, spec, p, numpy.concatenate((x.ravel(), [1.0])), spec.run(subject, numpy.array(x)), spec.run(twin, numpy.array(x)), "subject against twin at the end", operations=ops)
    intact("the end")
    after = components.tables()
    ctx.ok(after == before, f"{spec.name}: class tables keep their values", changed=[k for k in before if before[k] != after.get(k)])
    ctx.tag(spec.name)
    ctx.note(component=spec.name, configuration=p, operations=ops)
    ctx.sig(spec.name, p, ops)


KINDS = dict(alias=Kind(alias, 12000, 60000))
