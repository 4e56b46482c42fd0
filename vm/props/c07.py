import numpy

from diamondback import DerivativeFilter, FirFilter, IirFilter
from vm import gen, oracle
from vm.engine import Kind

RULE = ("Each case builds an FIR, derivative or IIR filter (explicit or designed, real or complex), drives a random prior history, and compares "
        "response, delay and roots for random lengths (even, odd, one) and counts with the transfer function evaluated directly from the "
        "coefficients. Signatures are (filter, coefficients, length, count); every case is non-trivial.")
ASSUMPTIONS = ["delay is judged away from response zeros (|B| or |A| below 1e-2 of their coefficient sum) and from the edge samples the method smooths"]
REACH = ("fir", "iir", "designed", "complex", "odd length", "even length", "length one", "count above one", "coefficients longer than length",
         "response", "delay", "roots", "derivative", "long filter", "zeros near a point of symmetry", "queried before", "coefficient changed", "real recursive, complex forward", "complex recursive, real forward")


def build(ctx):
    rng = ctx.rng
    k = rng.integers(0, 8)
    zero = numpy.zeros(1)
    if k == 0:
        d = int(rng.choice(list(DerivativeFilter.B)))
        f = DerivativeFilter(d, int(rng.choice(list(DerivativeFilter.B[d]))))
        ctx.tag("derivative")
        return f, zero, numpy.array(f.b)
    if k == 1:
        ctx.tag("designed", "fir")
        f = FirFilter(style=str(rng.choice(FirFilter.STYLE)), frequency=rng.uniform(0.2, 0.6), order=int(rng.integers(4, 20)))
        return f, zero, numpy.array(f.b)
    if k == 2:
        ctx.tag("designed", "iir")
        f = IirFilter(style=str(rng.choice(("Butterworth", "Chebyshev"))), frequency=rng.uniform(0.2, 0.6), order=int(rng.integers(2, 5)))
        return f, numpy.array(f.a), numpy.array(f.b)
    kind = str(rng.choice(["real", "real", "complex"]))
    if k == 3 and rng.uniform() < 0.3:
        ctx.tag("fir", "long filter")
        n = int(rng.integers(20, 200))
        b = rng.normal(size=n) * 0.9 ** numpy.arange(n) if rng.uniform() < 0.5 else rng.normal(size=n)
        if kind == "complex":
            b = b * numpy.exp(1j * rng.uniform(-3, 3, n))
        return FirFilter(b=b), zero, b
    if k == 3 and rng.uniform() < 0.3:
        # Zeros close to points of symmetry.
        ctx.tag("fir", "zeros near a point of symmetry")
        z = rng.choice([1.0, -1.0, 1j, -1j, 0.5, 2.0], int(rng.integers(1, 4)), False) * (1.0 + rng.choice([-1.0, 1.0]) * 10.0 ** rng.uniform(-7, -3))
        b = numpy.poly(numpy.concatenate((z, z[z.imag != 0].conjugate()[: 1 if kind == "real" else 0]))) * rng.uniform(0.5, 2.0)
        return FirFilter(b=b), zero, numpy.array(b)
    if kind == "complex":
        ctx.tag("complex")
    b = gen.coefficients(rng, int(rng.integers(1, 9)), (kind,))[0]
    b[0] = b[0] or 1.0
    if k < 5:
        ctx.tag("fir")
        return FirFilter(b=b), zero, b
    ctx.tag("iir")
    other = str(rng.choice(["real", "complex"])) if rng.uniform() < 0.3 else kind
    if other != kind:
        ctx.tag(f"{other} recursive, {kind} forward")
    a = gen.recursive(rng, int(rng.integers(1, 6)), other, 0.9)
    n = max(len(a), len(b))
    return IirFilter(a=a, b=b), numpy.concatenate((a, numpy.zeros(n - len(a)))), numpy.concatenate((b, numpy.zeros(n - len(b))))


def change(ctx, f):
    rng = ctx.rng
    c = numpy.array(f.b)
    i = int(rng.integers(1 if len(c) > 1 else 0, len(c)))
    c[i] = (c[i] or 1.0) * rng.choice([-1.0, 0.5, 1.001, 3.0])
    if rng.uniform() < 0.5:
        f.b[i] = c[i]  # in place, should the property be the live array
    else:
        f.b = c
    ctx.tag("coefficient changed")


def warm(ctx, f, a, b):
    """A history of calls, queries and changes of coefficients; returns the coefficients now."""
    rng = ctx.rng
    for _ in range(int(rng.integers(0, 4))):
        k = rng.integers(0, 5)
        if k < 2:
            f.filter(rng.normal(size=int(rng.integers(1, 20))))
        elif k == 2:
            [f.response, f.delay][rng.integers(0, 2)](int(rng.integers(1, 40)), int(rng.integers(1, 3)))
            f.roots(int(rng.integers(1, 3)))
            ctx.tag("queried before")
        elif k == 3:
            change(ctx, f)
        elif isinstance(f, IirFilter):
            c = numpy.array(f.a)
            c[1:] = c[1:] * 0.9 ** numpy.arange(1, len(c))
            f.a = c
            ctx.tag("coefficient changed")
    return (numpy.array(f.a) if isinstance(f, IirFilter) else a), numpy.array(f.b)


def measure(rng):
    n = int(rng.choice([gen.length(rng, 200), rng.integers(1, 12), 2 ** rng.integers(0, 8), 2 ** rng.integers(1, 8) + 1]))
    return n, int(rng.choice([1, 1, 2, 3, 4]))


def asked(rng, n):
    """A length or count as a Python or numpy integer."""
    return n if rng.uniform() < 0.8 or n > 255 else gen.NARROW[rng.integers(0, 4)](n)


def tags(ctx, n, count, b):
    ctx.tag("odd length" if n % 2 else "even length", *(["length one"] if n == 1 else []), *(["count above one"] if count > 1 else []),
            *(["coefficients longer than length"] if len(b) > n else []))


def response(ctx):
    rng = ctx.rng
    f, a, b = build(ctx)
    a, b = warm(ctx, f, a, b)
    n, count = measure(rng)
    if rng.uniform() < 0.25:
        # The same question, before a coefficient changed.
        f.response(n, count)
        change(ctx, f)
        b = numpy.array(f.b)
    y, g = f.response(asked(rng, n), asked(rng, count)) if rng.uniform() < 0.7 else f.response(length=asked(rng, n), count=count)
    ctx.event(n)
    ctx.close("frequency axis", g, oracle.axis(n), 1e-12, length=n)
    h = oracle.transfer(b, a, oracle.axis(n))
    d = numpy.abs(oracle.transfer([1.0], a, oracle.axis(n)))
    ctx.close("response", y, h**count, 1e-10 * count * (numpy.abs(b).sum() * (1.0 + d)) ** count * (1.0 + numpy.abs(a).sum()), length=n, count=count)
    tags(ctx, n, count, b)
    ctx.tag("response")
    ctx.note(a=a, b=b, length=n, count=count)
    ctx.sig(a, b, n, count)


def delay(ctx):
    rng = ctx.rng
    f, a, b = build(ctx)
    a, b = warm(ctx, f, a, b)
    n, count = measure(rng)
    if rng.uniform() < 0.25:
        f.delay(n, count)
        change(ctx, f)
        b = numpy.array(f.b)
    y, g = f.delay(asked(rng, n), asked(rng, count))
    ctx.close("frequency axis", g, oracle.axis(n), 1e-12, length=n)
    ctx.ok(numpy.shape(y) == (n,), f"delay has shape {numpy.shape(y)} for length {n}")
    z = numpy.exp(-1j * numpy.pi * oracle.axis(n))
    den = numpy.concatenate(([1.0], -a[1:]))
    with numpy.errstate(all="ignore"):
        B, A = sum(c * z**i for i, c in enumerate(b)), sum(c * z**i for i, c in enumerate(den))
        want = (sum(i * c * z**i for i, c in enumerate(b)) / B).real - (sum(i * c * z**i for i, c in enumerate(den)) / A).real
    m = (numpy.abs(B) > 1e-2 * numpy.abs(b).sum()) & (numpy.abs(A) > 1e-2 * numpy.abs(den).sum())
    if isinstance(f, IirFilter):
        if n > 6:
            m[:6], m[-6:] = False, False
    elif n > 2:
        m[0] = False
    ctx.event(int(m.sum()))
    if m.any():
        ctx.close("group delay", numpy.asarray(y)[m], count * want[m], 1e-7 * count * (1.0 + numpy.abs(want[m])), length=n, count=count)
    tags(ctx, n, count, b)
    ctx.tag("delay")
    ctx.note(a=a, b=b, length=n, count=count, compared=int(m.sum()))
    ctx.sig(a, b, n, count)
    ctx.trivial = not m.any()


def roots(ctx):
    rng = ctx.rng
    f, a, b = build(ctx)
    a, b = warm(ctx, f, a, b)
    count = int(rng.choice([1, 1, 2, 3, 4]))
    if rng.uniform() < 0.25:
        f.roots(count)
        change(ctx, f)
        b = numpy.array(f.b)
    p, z = f.roots(asked(rng, count))
    ctx.event(len(p) + len(z))
    iir = isinstance(f, IirFilter)
    den = numpy.concatenate(([1.0], -a[1:])) if iir else numpy.concatenate(([1.0], numpy.zeros(len(b) - 1)))
    for name, got, poly in (("poles", p, den), ("zeros", z, b)):
        want = list(numpy.tile(numpy.roots(poly), count))
        got = numpy.asarray(got)
        ctx.ok(got.shape == (len(want),), f"{len(got)} {name}, expected {len(want)}")
        ctx.ok((numpy.diff(numpy.abs(got)) >= -1e-9).all(), f"{name} ordered by magnitude")
        for v in got:
            e = numpy.abs(numpy.array(want) - v)
            k = int(numpy.argmin(e))
            ctx.ok(e[k] <= 1e-5 * (1.0 + abs(v)), f"{name}: {v} is not a root, nearest at {e[k]:.2g}", count=count)
            want.pop(k)
        if count == 1 and 1 < len(poly) <= 20:
            # Roots as computed are those of a polynomial within rounding of that of the filter.
            q = numpy.trim_zeros(poly, "f")
            if len(q) > 1:
                base = numpy.roots(q)
                tol = 1e-11 * len(q) ** 2 * numpy.abs(q[0]) * numpy.abs(numpy.poly(-numpy.abs(base))).max() + 1e3 * numpy.abs(numpy.poly(base) * q[0] - q).max()
                ctx.close(f"polynomial of the {name}", numpy.poly(got) * q[0], q, tol)
    ctx.tag("roots", *(["count above one"] if count > 1 else []))
    ctx.note(a=a, b=b, count=count)
    ctx.sig(a, b, count)


def rejects(ctx):
    rng = ctx.rng
    f, a, b = build(ctx)
    for n in (0, -1, -int(rng.integers(1, 99))):
        ctx.raises(ValueError, f"response length {n}", f.response, n, 1)
        ctx.raises(ValueError, f"delay length {n}", f.delay, n, 1)
        ctx.raises(ValueError, f"response count {n}", f.response, 8, n)
        ctx.raises(ValueError, f"delay count {n}", f.delay, 8, n)
    ctx.note(filter=type(f).__name__, rejected="length and count not positive")
    ctx.sig(b)


KINDS = dict(response=Kind(response, 1800, 54000), delay=Kind(delay, 1500, 45000), roots=Kind(roots, 900, 27000), rejects=Kind(rejects, 48, 200))
