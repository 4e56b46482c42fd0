import numpy

from diamondback import FourierTransform, WindowFilter
from vm import gen, oracle
from vm.engine import Kind

RULE = ("Each case transforms a random real, complex or integer signal with a random window (designed, random, with zeros, integer), compares values and "
        "frequencies with direct sums, and inverts the result with the same window; inverse cases invert arbitrary spectra. Signatures are (window, signal).")
ASSUMPTIONS = ["where the window is below 1e-7 of its maximum the inverse is not judged; rounding up to 1e-12 sqrt(N) of the sums is accepted"]
REACH = ("vast", "even", "odd", "length 1", "real", "complex", "int", "window shorter", "designed window", "vanishing endpoint", "zero inside", "integer window",
         "inverse of arbitrary", "rejected window", "rejected empty", "additive", "power of two", "large window", "small beside zero", "small inside", "small endpoint", "long window", "complex window", "vanishing ends", "longer inverse", "small window", "window of another scale")


def window(ctx, n):
    rng = ctx.rng
    k = rng.integers(0, 6)
    if k == 0:
        b = numpy.array(WindowFilter(str(rng.choice(["Hann", "Blackman", "Hamming", "Kaiser"])), n - 1).b) if n > 2 else numpy.ones(n)
        ctx.tag("designed window")
    elif k == 1:
        b = numpy.ones(n) * rng.uniform(0.1, 3.0)
    elif k == 2:
        b = rng.integers(1, 5, n)
        ctx.tag("integer window")
    elif k == 3 and n > 3:
        b = rng.uniform(0.2, 2.0, n)
        b[rng.integers(1, n - 1)] = 0.0
        ctx.tag("zero inside")
    elif k == 4 and n > 3:
        b = rng.uniform(0.2, 2.0, n)
        b[0 if rng.uniform() < 0.5 else -1] = 0.0
        if rng.uniform() < 0.5:
            b[0] = b[-1] = 0.0
        if rng.uniform() < 0.4:
            j = [[1], [-2], [1, -2]][rng.integers(0, 3)]
            b[j] *= 10.0 ** -rng.uniform(1, 5)
            ctx.tag("small beside zero")
    else:
        b = rng.uniform(0.2, 2.0, n) * rng.choice([-1.0, 1.0], n)
    if n > 3 and rng.uniform() < 0.08:
        b = b * numpy.where(numpy.arange(n) == rng.integers(1, n - 1), 10.0 ** -rng.uniform(5, 11), 1.0)
        ctx.tag("small inside")
    if n > 1 and rng.uniform() < 0.08:
        b = numpy.array(b, numpy.result_type(b, 1.0))
        j = [[0], [-1], [0, -1]][rng.integers(0, 3)]
        b[j] *= 10.0 ** -rng.uniform(1, 5.5)
        ctx.tag("small endpoint")
    if rng.uniform() < 0.12:
        b = b * numpy.exp(1j * numpy.pi * (rng.uniform(-1, 1, n) if rng.uniform() < 0.5 else rng.uniform(-1, 1) * numpy.arange(n)))
        ctx.tag("complex window")
    if rng.uniform() < 0.08:
        m = 10.0 ** rng.uniform(-7.0, 9.0)
        b = b * (m / numpy.abs(b).max())
        ctx.tag("small window" if m < 1e-4 else "window of another scale")
    if n > 2 and (numpy.abs(b[[0, -1]]) < 1e-9).any():
        ctx.tag("vanishing endpoint")
    return b


def call(ctx, x, b, inverse=False):
    ctx.event(len(b))
    inverse = [inverse, inverse, numpy.bool_(inverse), int(inverse)][ctx.rng.integers(0, 4)]
    if not inverse and ctx.rng.uniform() < 0.5:
        return FourierTransform.transform(x, b)
    return FourierTransform.transform(x=x, b=b, inverse=inverse)


def length(rng):
    if rng.uniform() < 0.001:
        return int(rng.choice([2 ** rng.integers(12, 14), rng.integers(1500, 9000)]))
    if rng.uniform() < 0.06:
        return int(rng.choice([2 ** rng.integers(8, 12), rng.integers(200, 1500)]))
    return int(rng.choice([gen.length(rng, 120), 2 ** rng.integers(0, 8), rng.integers(1, 20)]))


def forward(ctx):
    rng = ctx.rng
    n = length(rng)
    if n > 4000:
        ctx.tag("vast")
    b = window(ctx, n)
    extra = int(rng.choice([0, 0, 1, rng.integers(1, 50)]))
    x, d = gen.signal(rng, n + extra)
    y, f = call(ctx, gen.container(rng, x), gen.container(rng, b))
    u = b * x[:n]
    m = float(numpy.abs(u).sum()) / n
    ctx.close("frequencies", f, oracle.axis(n), 1e-12)
    # Of a vast window only some frequencies are summed directly.
    at = numpy.arange(n) if n < 1600 else numpy.unique(numpy.concatenate(([0, n // 2, n - 1], rng.integers(0, n, 200))))
    ctx.ok(numpy.shape(y) == (n,), f"spectrum of shape {numpy.shape(y)}")
    ctx.close("spectrum", numpy.asarray(y)[at], oracle.dtft(u, oracle.axis(n)[at]) / n, 1e-12 * numpy.sqrt(n) * m + 1e-300, length=n, signal=d)
    z, t = call(ctx, y, gen.container(rng, b), True)
    ctx.close("sequence", t, numpy.arange(n), 1e-9)
    k = numpy.abs(b) > 1e-7 * numpy.abs(b).max()
    k[1:-1] |= numpy.abs(b[1:-1]) > 1e-11 * numpy.abs(b).max()
    if k.any():
        ctx.close("inverse returns the signal", numpy.asarray(z)[k], x[:n][k], 1e-12 * numpy.sqrt(n) * n * (m / numpy.abs(b[k]) + 1e-300), length=n, signal=d)
    if n > 2 and k[1:-1].all() and not k.all():
        with numpy.errstate(all="ignore"):
            finite = numpy.isfinite(numpy.asarray(z)).all()
        ctx.ok(finite or not numpy.isfinite(m), "the inverse is finite where the window vanishes at its ends", got=numpy.asarray(z)[[0, -1]], length=n)
        ctx.tag("vanishing ends")
    ctx.tag("odd" if n % 2 else "even", d.split(":")[0], *(["length 1"] if n == 1 else []), *(["window shorter"] if extra else []),
            *(["power of two"] if n & (n - 1) == 0 else []), *(["large window"] if n > 60 else []), *(["long window"] if n > 1000 else []))
    ctx.note(length=n, extra=extra, signal=d, b=b)
    ctx.sig(n, extra, d, b[:3], x[:3])


def inverse(ctx):
    rng = ctx.rng
    n = length(rng)
    b = rng.uniform(0.2, 2.0, n) * (rng.choice([-1.0, 1.0], n) if rng.uniform() < 0.8 else numpy.exp(1j * rng.uniform(-3, 3, n)))
    s = rng.normal(size=n) + 1j * rng.normal(size=n)
    if rng.uniform() < 0.2:
        # Of more than the window spans, the first is taken.
        more = numpy.concatenate((s, rng.normal(size=int(rng.integers(1, 20)))))
        x, t = call(ctx, more, b, True)
        ctx.ok(numpy.shape(x) == (n,) and numpy.shape(t) == (n,), f"signal of shape {numpy.shape(x)}, sequence of shape {numpy.shape(t)}")
        ctx.close("sequence of an inverse of more than the window spans", t, numpy.arange(n), 1e-9)
        ctx.tag("longer inverse")
    x, t = call(ctx, s, b, True)
    f = oracle.axis(n)
    at = numpy.arange(n) if n < 1600 else numpy.unique(numpy.concatenate(([0, n // 2, n - 1], rng.integers(0, n, 200))))
    want = numpy.array([(s * numpy.exp(1j * numpy.pi * f * i)).sum() for i in at]) / b[at]
    ctx.ok(numpy.shape(x) == (n,), f"signal of shape {numpy.shape(x)}")
    ctx.close("inverse is the windowed sum of exponentials", numpy.asarray(x)[at], want, 1e-11 * n, length=n)
    ctx.close("sequence", t, numpy.arange(n), 1e-9)
    ctx.close("forward of the inverse", call(ctx, x, b)[0], s, 1e-11 * n, length=n)
    a, c = rng.normal(size=2)
    u, v = rng.normal(size=n), rng.normal(size=n) * 1j
    ctx.close("linearity", call(ctx, a * u + c * v, b)[0], a * call(ctx, u, b)[0] + c * call(ctx, v, b)[0], 1e-11 * (abs(a) + abs(c)))
    ctx.tag("inverse of arbitrary", "additive", "odd" if n % 2 else "even")
    ctx.note(length=n)
    ctx.sig(n, b[:3], s[:3])


def rejects(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 9))
    for inv in (False, True):
        ctx.raises(ValueError, "empty signal", FourierTransform.transform, [], numpy.ones(n), inv)
        ctx.raises(ValueError, "window longer than the signal", FourierTransform.transform, rng.normal(size=n), numpy.ones(n + int(rng.integers(1, 4))), inv)
        ctx.raises(ValueError, "vanishing window", FourierTransform.transform, rng.normal(size=n), numpy.zeros(n), inv)
        ctx.raises(ValueError, "empty window", FourierTransform.transform, rng.normal(size=n), [], inv)
    ctx.tag("rejected window", "rejected empty")
    ctx.note(length=n)
    ctx.sig(n)


KINDS = dict(forward=Kind(forward, 19200, 576000), inverse=Kind(inverse, 4800, 144000), rejects=Kind(rejects, 60, 60))
