import numpy

from diamondback import WindowFilter
from vm import gen
from vm.engine import Kind
from vm.props.c05 import case

RULE = ("Each case constructs a window of random style (any letter case), order and normalization, compares it with the closed form of the style, checks "
        "symmetry, peak and normalization, and filters real, integer and complex signals in several containers. Signatures are (style, order, normal).")
ASSUMPTIONS = ["a Kaiser window has shape parameter 7; Hann and Blackman of order 1 vanish identically and are excluded"]
REACH = ("Blackman", "Hamming", "Hann", "Kaiser", "normal", "not normal", "order 0", "order 1", "odd", "even", "long", "very long", "real", "int", "complex",
         "rejected length", "rejected dimension", "rejected style", "rejected order")


def closed(style, n):
    if n == 0:
        return numpy.ones(1)
    t = numpy.arange(n + 1) / n
    if style == "Hann":
        return 0.5 - 0.5 * numpy.cos(2.0 * numpy.pi * t)
    if style == "Hamming":
        return 0.54 - 0.46 * numpy.cos(2.0 * numpy.pi * t)
    if style == "Blackman":
        return 0.42 - 0.5 * numpy.cos(2.0 * numpy.pi * t) + 0.08 * numpy.cos(4.0 * numpy.pi * t)
    return numpy.i0(7.0 * numpy.sqrt(numpy.maximum(0.0, 1.0 - (2.0 * t - 1.0) ** 2))) / numpy.i0(7.0)


def window(ctx):
    rng = ctx.rng
    style = ("Blackman", "Hamming", "Hann", "Kaiser")[ctx.idx % 4]
    n = int(rng.choice([0, 1, 2, rng.integers(0, 40), rng.integers(0, 600), 2 ** rng.integers(1, 10), 2 ** rng.integers(1, 10) - 1]))
    if rng.uniform() < 0.04:
        n = int(10.0 ** rng.uniform(2.8, 4.0))
        ctx.tag("very long")
    if n == 1 and style in ("Hann", "Blackman"):
        n = 2
    normal = bool(rng.integers(0, 2))
    o = WindowFilter(case(rng, style), n) if normal and rng.uniform() < 0.5 else WindowFilter(style=case(rng, style), order=n, normal=normal)
    b = numpy.array(o.b)
    ctx.event(n + 1)
    ctx.ok(b.shape == (n + 1,), f"{b.shape} coefficients for order {n}")
    want = closed(style, n)
    g = (n + 1) / numpy.abs(want).sum() if normal else 1.0
    ctx.close("coefficients", b, want * g, 1e-11 * g, style=style, order=n, normal=normal)
    ctx.close("symmetry", b, b[::-1], 1e-12 * g)
    ctx.ok((b <= b[n // 2] + 1e-12 * g).all(), "peak at the centre")
    if normal:
        ctx.close("sum of magnitudes", numpy.abs(b).sum(), n + 1.0, 1e-10 * (n + 1))
    for _ in range(2):
        x, d = gen.signal(rng, n + 1)
        y = o.filter(gen.container(rng, x))
        ctx.event(n + 1)
        ctx.close("product", y, want * g * x, 1e-11 * g * (numpy.abs(x).max() + 1e-300), signal=d)
        ctx.tag(d.split(":")[0])
    ctx.close("coefficients after filtering", o.b, b, 0.0)
    ctx.tag(style, "normal" if normal else "not normal", "odd" if n % 2 else "even", *([f"order {n}"] if n < 2 else []), *(["long"] if n > 200 else []))
    ctx.note(style=style, order=n, normal=normal, b=b)
    ctx.sig(style, n, normal)


def rejects(ctx):
    rng = ctx.rng
    style = ("Blackman", "Hamming", "Hann", "Kaiser")[ctx.idx % 4]
    n = int(rng.integers(2, 20))
    o = WindowFilter(style, n)
    m = int(rng.choice([1, n, n + 2, 2 * n + 2]))
    ctx.raises(ValueError, f"{m} samples for order {n}", o.filter, gen.container(rng, rng.normal(size=m)))
    ctx.raises(ValueError, "empty", o.filter, [])
    for shape in ((n + 1, n + 1), (1, n + 1), (n + 1, 1), ()):
        ctx.raises(ValueError, f"shape {shape} for order {n}", o.filter, numpy.array(rng.normal(size=shape))) if shape else None
    ctx.raises(ValueError, "order -1", WindowFilter, style, -int(rng.integers(1, 9)))
    ctx.raises(ValueError, "style", WindowFilter, str(rng.choice(["", "Boxcar", "Hannn", "Ham", "triang", "Kaiser 7"])), n)
    ctx.tag("rejected length", "rejected dimension", "rejected style", "rejected order")
    ctx.note(style=style, order=n, length=m)
    ctx.sig(style, n, m)


KINDS = dict(window=Kind(window, 54000, 1620000), rejects=Kind(rejects, 360, 400))
