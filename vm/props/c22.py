import numpy

from diamondback import WaveletTransform
from vm import gen
from vm.engine import Kind
from vm.props.c05 import case

RULE = ("Each case draws a style and order (all are cycled through), a count and a one- or two-dimensional signal, and checks analysis against a direct "
        "evaluation of the decimated convolutions recursing on the low-pass quadrant, synthesis against its own direct evaluation, reconstruction, "
        "linearity, shape, and orthonormality of the filters to even shifts. Signatures are (style, order, count, signal).")
ASSUMPTIONS = ["coefficients are tabulated to 1e-8 or better: orthonormality and reconstruction within 1e-7 of the signal (Haar 1e-13)"]
ORDERS = dict(Coiflet=(5, 11, 17, 23, 29), Daubechies=(3, 5, 7, 9, 11, 13, 15, 17, 19), Haar=(1,), Symmlet=(7, 9, 11, 13, 15, 17, 19))
PAIRS = [(s, n) for s, ns in ORDERS.items() for n in ns]
REACH = tuple(f"{s} {n}" for s, n in PAIRS) + ("one dimension", "column", "row", "two dimensions", "count 1", "count 2", "count 3", "count 4", "count 5", "count 8", "real", "int", "complex",
                                                "analysis", "synthesis", "Haar reconstruction", "delayed reconstruction", "orthonormal", "additive", "shorter than filter",
                                                "rejected style", "rejected order", "rejected count", "rejected dimension")


def level(x, b):
    """One level of analysis along the last axis."""
    n = x.shape[-1]
    out = numpy.zeros(x.shape, numpy.result_type(x, 1.0))
    for k in range(2):
        for i in range(n // 2):
            for j, c in enumerate(b[k]):
                if 0 <= 2 * i + 1 - j:
                    out[..., k * (n // 2) + i] += c * x[..., 2 * i + 1 - j]
    return out


def merge(y, b):
    """One level of synthesis along the last axis."""
    n = y.shape[-1]
    out = numpy.zeros(y.shape, numpy.result_type(y, 1.0))
    for k in range(2):
        for i in range(n // 2):
            for j, c in enumerate(b[k]):
                if 2 * i + j < n:
                    out[..., 2 * i + j] += 2.0 * c * y[..., k * (n // 2) + i]
    return out


def analysis(x, b, count):
    y = numpy.array(x, numpy.result_type(x, 1.0))
    r, c = y.shape
    for _ in range(count):
        q = y[:r, :c]
        if c > 1:
            q = level(q, b)
        if r > 1:
            q = level(q.T, b).T
        y[:r, :c] = q
        r, c = max(r // 2, 1), max(c // 2, 1)
    return y


def synthesis(y, b, count):
    x = numpy.array(y, numpy.result_type(y, 1.0))
    sizes = [x.shape]
    for _ in range(count - 1):
        sizes.append((max(sizes[-1][0] // 2, 1), max(sizes[-1][1] // 2, 1)))
    for r, c in reversed(sizes):
        q = x[:r, :c]
        if r > 1:
            q = merge(q.T, b).T
        if c > 1:
            q = merge(q, b)
        x[:r, :c] = q
    return x


def instance(ctx):
    style, order = PAIRS[ctx.idx % len(PAIRS)]
    ctx.tag(f"{style} {order}")
    return style, order, WaveletTransform(style=case(ctx.rng, style), order=order)


def filters(ctx):
    """Channels orthonormal to even shifts up to a common factor; low pass has unity gain."""
    style, order, o = instance(ctx)
    tol = 1e-13 if style == "Haar" else 1e-7
    for inverse in (0, 1):
        b = [numpy.array(v) for v in o.b[inverse]]
        ctx.ok(len(b) == 2 and b[0].shape == b[1].shape == (order + 1,), f"channels {[v.shape for v in b]} for order {order}")
        ctx.close("gain at zero frequency", b[0].sum(), 1.0, 1e-12)
        for s in range(-(order // 2), order // 2 + 1):
            for i in range(2):
                for j in range(2):
                    u = numpy.zeros(3 * (order + 1))
                    v = numpy.zeros(3 * (order + 1))
                    u[order + 1 : 2 * order + 2] = b[i]
                    v[order + 1 + 2 * s : 2 * order + 2 + 2 * s] = b[j]
                    ctx.close(f"product of channels {i} and {j} at shift {2 * s}", 2.0 * (u * v).sum(), float(i == j and s == 0), 2 * tol, style=style, order=order)
                    ctx.event()
    ctx.tag("orthonormal")
    ctx.note(style=style, order=order, b=o.b[0][0])
    ctx.sig(style, order)


def signal(ctx, m, limit=4, flat=False):
    rng = ctx.rng
    k = rng.integers(0, 3 if flat else 4)
    size = lambda: int(m * (1 + rng.integers(0, max(1, limit // m) if limit > m else 1)))
    if k == 0:
        n = size()
        x, d = gen.signal(rng, n)
        ctx.tag("one dimension")
        shape = (n,)
    else:
        shape = (1, size()) if k == 1 else (size(), 1) if k == 2 else (size(), size())
        x, d = gen.signal(rng, shape[0] * shape[1])
        x = x.reshape(shape)
        ctx.tag("row" if k == 1 else "column" if k == 2 else "two dimensions")
    ctx.tag(d.split(":")[0])
    return x, d


def transform(ctx):
    rng = ctx.rng
    style, order, o = instance(ctx)
    count = int(rng.choice([1, 1, 2, 2, 3, 4, 5]))
    if style == "Haar" and rng.uniform() < 0.3:
        count = int(rng.integers(5, 10))
    x, d = signal(ctx, 2**count, 24, flat=count > 4)
    m = float(numpy.abs(x).max()) + 1e-300
    two = x if x.ndim == 2 else x[numpy.newaxis, :]
    y = o.transform(x if x.ndim == 2 else gen.container(rng, x), count)
    ctx.event(x.size)
    ctx.ok(numpy.shape(y) == x.shape, f"analysis changed the shape {x.shape} to {numpy.shape(y)}")
    want = analysis(two, o.b[0], count).reshape(x.shape)
    g = (numpy.abs(o.b[0][0]).sum() * 2.0) ** (2 * count)
    ctx.close("analysis", y, want, 1e-13 * g * m, style=style, order=order, count=count, shape=x.shape)
    z = o.transform(y, count, inverse=True)
    ctx.ok(numpy.shape(z) == x.shape, f"synthesis changed the shape {x.shape} to {numpy.shape(z)}")
    ctx.close("synthesis", z, synthesis(want.reshape(two.shape), o.b[1], count).reshape(x.shape), 1e-13 * g * g * m, style=style, order=order, count=count, shape=x.shape)
    if style == "Haar":
        ctx.close("synthesis of analysis", z, x, 1e-12 * m, count=count, shape=x.shape)
        ctx.tag("Haar reconstruction")
    elif count == 1:
        w = numpy.zeros(two.shape, numpy.result_type(two, 1.0))
        i, j = (order - 1 if two.shape[0] > 1 else 0), (order - 1 if two.shape[1] > 1 else 0)
        w[i:, j:] = two[: max(two.shape[0] - i, 0), : max(two.shape[1] - j, 0)]
        ctx.close("synthesis of analysis is the delayed signal", z, w.reshape(x.shape), 1e-6 * m, style=style, order=order, shape=x.shape)
        ctx.tag("delayed reconstruction")
    ctx.tag("analysis", "synthesis", f"count {count}", *(["shorter than filter"] if max(x.shape) <= order else []))
    ctx.note(style=style, order=order, count=count, shape=x.shape, signal=d)
    ctx.sig(style, order, count, x.shape, d)


def additive(ctx):
    rng = ctx.rng
    style, order, o = instance(ctx)
    count = int(rng.integers(1, 4))
    x, d = signal(ctx, 2**count, 16)
    u = rng.normal(size=x.shape)
    v = rng.normal(size=x.shape)
    a, b = rng.normal(size=2)
    inverse = bool(rng.integers(0, 2))
    ctx.event(3 * x.size)
    g = (numpy.abs(o.b[0][0]).sum() * 2.0) ** (2 * count)
    ctx.close("linearity", o.transform(a * u + b * v, count, inverse), a * o.transform(u, count, inverse) + b * o.transform(v, count, inverse), 1e-12 * g * (abs(a) + abs(b)) * 10)
    ctx.tag("additive")
    ctx.note(style=style, order=order, count=count, inverse=inverse, shape=x.shape)
    ctx.sig(style, order, count, inverse, x.shape)


def rejects(ctx):
    rng = ctx.rng
    style, order, o = instance(ctx)
    ctx.raises(ValueError, "style", WaveletTransform, str(rng.choice(["", "Haarr", "Morlet", "db4"])), order)
    ctx.raises(ValueError, "order", WaveletTransform, style, int(rng.choice([0, 2, 4, 31, -1, 100])))
    ctx.raises(ValueError, "count 0", o.transform, numpy.ones(8), 0)
    ctx.raises(ValueError, "negative count", o.transform, numpy.ones(8), -1)
    c = int(rng.integers(1, 4))
    n = int(2**c * rng.integers(1, 4) + rng.integers(1, 2**c))
    for inverse in (False, True):
        if n > 1:
            ctx.raises(ValueError, f"{n} samples for count {c}", o.transform, rng.normal(size=n), c, inverse)
            ctx.raises(ValueError, f"{n} rows for count {c}", o.transform, rng.normal(size=(n, 2**c)), c, inverse)
            ctx.raises(ValueError, f"{n} columns for count {c}", o.transform, rng.normal(size=(2**c, n)), c, inverse)
        ctx.raises(ValueError, "empty", o.transform, [], c, inverse)
        ctx.raises(ValueError, "three dimensions", o.transform, rng.normal(size=(8, 8, 8)), 1, inverse)
    ctx.tag("rejected style", "rejected order", "rejected count", "rejected dimension")
    ctx.note(style=style, order=order, count=c, length=n)
    ctx.sig(style, order, c, n)


KINDS = dict(filters=Kind(filters, 220, 6600), transform=Kind(transform, 26400, 792000), additive=Kind(additive, 2640, 79200), rejects=Kind(rejects, 220, 220))
