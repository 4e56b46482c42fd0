import numpy

from diamondback import ComplexTransform
from vm import gen
from vm.engine import Kind

RULE = ("Each case transforms random complex signals (one or two dimensions, one row) and three-phase signals (balanced, unbalanced, common mode, "
        "integer) with neutral either way, and checks the round trip, zero sum, the closed-form projection, balanced magnitude, linearity and sample "
        "independence. Signatures are (direction, neutral, signal).")
ASSUMPTIONS = ["rounding up to 1e-13 of the signal magnitude is accepted"]
REACH = ("complex", "three-phase", "neutral", "not neutral", "one row", "real as complex", "balanced", "common mode", "int", "one sample", "additive", "single samples", "rejected")
A = numpy.exp(2j * numpy.pi / 3.0)


def neutral(ctx):
    v = bool(ctx.rng.integers(0, 2))
    ctx.tag("neutral" if v else "not neutral")
    return v


def call(ctx, x, n):
    ctx.event(numpy.shape(x)[-1])
    n = [n, n, numpy.bool_(n), int(n), numpy.int64(n)][ctx.rng.integers(0, 5)]
    if n and ctx.rng.uniform() < 0.3:
        return ComplexTransform.transform(x)
    return ComplexTransform.transform(x, neutral=n) if ctx.rng.uniform() < 0.5 else ComplexTransform.transform(x, n)


def forward(ctx):
    rng = ctx.rng
    n = gen.length(rng, 200, tail=2500)
    x, d = gen.signal(rng, n, ("complex", "complex", "complex", "real"))
    k = neutral(ctx)
    row = rng.uniform() < 0.4
    y = call(ctx, x[numpy.newaxis, :] if row else gen.container(rng, x), k)
    m = float(numpy.abs(x).max()) + 1e-300
    ctx.ok(numpy.shape(y) == (3, n), f"shape {numpy.shape(y)}, expected {(3, n)}", row=row)
    ctx.ok(not numpy.iscomplexobj(y), "three phases are real")
    ctx.close("phases sum to zero", y.sum(axis=0), numpy.zeros(n), 1e-13 * m * 6)
    u = x if k else x / (numpy.exp(-1j * numpy.pi / 6.0) / numpy.sqrt(3.0))
    ctx.close("phases", y, numpy.stack([u.real + 0.0, (u * A.conjugate()).real, (u * A).real]), 1e-13 * m * 6, neutral=k)
    ctx.close("round trip", call(ctx, y, k), x.astype(complex), 1e-13 * m * 10, neutral=k)
    if row:
        ctx.tag("one row")
    ctx.tag("complex" if numpy.iscomplexobj(x) else "real as complex", *(["one sample"] if n == 1 else []))
    ctx.note(signal=d, length=n, neutral=k, row=row)
    ctx.sig(d, n, k, row, x[:2])


def backward(ctx):
    rng = ctx.rng
    n = gen.length(rng, 200, tail=2500)
    k = neutral(ctx)
    s = rng.integers(0, 4)
    if s == 0:
        a, f, q = rng.uniform(0.1, 10.0), rng.uniform(-1, 1), rng.uniform(-3, 3)
        c = a * numpy.exp(1j * (numpy.pi * f * numpy.arange(n) + q))
        x = numpy.stack([c.real, (c * A.conjugate()).real, (c * A).real])
        ctx.close("balanced magnitude", numpy.abs(call(ctx, x, True)), numpy.full(n, a), 1e-12 * a)
        ctx.close("balanced signal", call(ctx, x, True), c, 1e-12 * a)
        d = "balanced"
    elif s == 1:
        x = numpy.tile(gen.real(rng, n)[0], (3, 1))
        d = "common mode"
        ctx.close("common mode vanishes", call(ctx, x, k), numpy.zeros(n), 1e-13 * numpy.abs(x).max() * 6)
    elif s == 2:
        x, d = rng.integers(-50, 51, (3, n)), "int"
    else:
        x, d = numpy.stack([gen.real(rng, n, scale=1.0)[0] for _ in range(3)]), "three-phase"
    m = float(numpy.abs(x).max()) + 1e-300
    before = numpy.array(x)
    y = call(ctx, x if rng.uniform() < 0.7 else x.tolist(), k)
    ctx.ok(numpy.shape(y) == (n,), f"shape {numpy.shape(y)}, expected {(n,)}")
    ctx.ok(numpy.iscomplexobj(y), "result is complex")
    g = 1.0 if k else numpy.exp(-1j * numpy.pi / 6.0) / numpy.sqrt(3.0)
    ctx.close("projection", y, (2.0 / 3.0) * (x[0] + A * x[1] + A.conjugate() * x[2]) * g, 1e-13 * m * 6, neutral=k)
    ctx.close("round trip removes the common mode", call(ctx, y, k), x - x.mean(axis=0), 1e-13 * m * 12, neutral=k)
    ctx.ok((x == before).all(), "signal unchanged")
    ctx.tag("three-phase", d)
    ctx.note(signal=d, length=n, neutral=k)
    ctx.sig(d, n, k, x[:, :2])


def additive(ctx):
    rng = ctx.rng
    n = gen.length(rng, 60)
    k = neutral(ctx)
    a, b = rng.normal(size=2)
    three = rng.uniform() < 0.5
    u, v = (rng.normal(size=(3, n)) if three else rng.normal(size=n) + 1j * rng.normal(size=n) for _ in range(2))
    y = call(ctx, u, k)
    ctx.close("linearity", call(ctx, a * u + b * v, k), a * y + b * call(ctx, v, k), 1e-12 * (abs(a) + abs(b)) * 10)
    i = int(rng.integers(0, n))
    z = call(ctx, u[..., i : i + 1], k)
    ctx.close("each sample alone", z[..., 0], y[..., i], 1e-13 * 50)
    ctx.tag("additive", "single samples")
    ctx.note(three_phase=three, length=n, neutral=k)
    ctx.sig(three, n, k, a)


def rejects(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 6))
    r = int(rng.choice([2, 4, 5, 6]))
    for x in ([], numpy.zeros((0, n)), numpy.zeros((1, 0)), numpy.zeros((3, 0)), rng.normal(size=(r, n)), rng.normal(size=(3, n, 2)), rng.normal(size=(1, n, 1))):
        ctx.raises(ValueError, f"shape {numpy.shape(x)}", ComplexTransform.transform, x, bool(rng.integers(0, 2)))
    ctx.tag("rejected")
    ctx.note(rows=r, columns=n)
    ctx.sig(r, n)


KINDS = dict(forward=Kind(forward, 60000, 1800000), backward=Kind(backward, 60000, 1800000), additive=Kind(additive, 18000, 540000), rejects=Kind(rejects, 100, 100))
