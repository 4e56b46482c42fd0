import math

import numpy
from scipy import signal

from diamondback import IirFilter
from vm import oracle
from vm.engine import Kind
from vm.props.c05 import case

RULE = ("Each case designs an IIR filter from a random style (any letter case), frequency, order, count, complement and gain in the stated ranges "
        "and checks stability, poles and zeros of the style, response at zero frequency (Nyquist for a complement), -3 dB magnitude, monotony or "
        "ripple, the closed-form analog reference (scipy butter, cheby1, besselap), and the mirror and gain relations with companion designs. "
        "Signatures are the design parameters; every design is non-trivial.")
ASSUMPTIONS = ["-3 dB magnitude within 2e-3 (order 2) to 2e-4; Butterworth and Chebyshev responses within 3e-3 (order 2) to 3e-4 of the closed form; "
               "Bessel pole pattern within 1e-5"]
REACH = ("Bessel", "Butterworth", "Chebyshev", "complement", "gain", "gain zero", "count 2", "order 1", "order 6", "odd", "even", "rejected style",
         "rejected frequency", "rejected order", "rejected count")


def reference(style, order, f, count):
    """Closed-form digital design with |H|**count = 1/sqrt(2) at f and unity DC gain."""
    t = 2.0 ** (-1.0 / (2.0 * count))
    if style == "Butterworth":
        w = math.tan(math.pi * f / 2.0) / ((2.0 ** (1.0 / count) - 1.0) ** (1.0 / (2.0 * order)))
        return signal.butter(order, 2.0 * math.atan(w) / math.pi), 2.0 * math.atan(w) / math.pi
    eps = (10.0**0.0125 - 1.0) ** 0.5
    g = 1.0 / (1.0 + eps * eps) if order % 2 == 0 else 1.0
    c = math.sqrt(1.0 / (g * t * t) - 1.0) / eps
    w = math.tan(math.pi * f / 2.0) / math.cosh(math.acosh(c) / order)
    edge = 2.0 * math.atan(w) / math.pi
    b, a = signal.cheby1(order, 0.125, edge)
    return (b * a.sum() / b.sum(), a), edge


def design(ctx):
    rng = ctx.rng
    style = str(rng.choice(["Bessel", "Butterworth", "Chebyshev"]))
    order = int(rng.integers(1, 7))
    count = int(rng.choice([1, 1, 2]))
    f = float(rng.uniform(0.02, 0.1) if style == "Bessel" else rng.uniform(0.05, 0.7))
    gain = float(rng.choice([1.0, 1.0, 1.0, -2.5, 1e-3, 40.0, 0.0, -1e-9, 1e12, rng.normal()]))
    comp = bool(rng.uniform() < 0.4)
    arg = 1.0 - f if comp else f
    o = IirFilter(style=case(rng, style), frequency=arg, order=order, count=count, complement=comp, gain=gain)
    a, b = numpy.array(o.a), numpy.array(o.b)
    ctx.event(6)
    ctx.note(style=style, frequency=arg, order=order, count=count, complement=comp, gain=gain, a=a, b=b)
    ctx.tag(style, f"order {order}", "odd" if order % 2 else "even", *(["complement"] if comp else []), *(["gain"] if gain != 1.0 else []), *(["gain zero"] if gain == 0.0 else []), *([f"count {count}"] if count > 1 else []))
    ctx.ok(a.shape == b.shape == (order + 1,), f"lengths {len(a)} {len(b)} for order {order}")
    ctx.ok(a.dtype.kind == "f" and b.dtype.kind == "f", "real coefficients")
    ctx.ok(a[0] == 0.0, "a[0] = 0")
    ctx.ok(len(o.s) == order + 1 and not numpy.array(o.s).any(), "initial state is zero")
    alt = (-1.0) ** numpy.arange(order + 1)
    am, bm = (a * alt, b * alt) if comp else (a, b)
    den = numpy.concatenate(([1.0], -am[1:]))
    p = numpy.roots(den)
    ctx.ok(numpy.abs(p).max() < 1.0, "stability", poles=numpy.abs(p))
    # Zeros: the numerator is a multiple of (1 + 1/z)**order.
    comb = numpy.array([math.comb(order, i) for i in range(order + 1)], float)
    ctx.close("zeros at the band edge", bm, comb * bm[0], 1e-9 * abs(bm[0]) * comb.max())
    ctx.close("response at zero frequency", bm.sum() / den.sum(), gain, 1e-6 * abs(gain))
    low = IirFilter(style=style, frequency=1.0 - arg if comp else f, order=order, count=count)
    ctx.close("mirror relation of a", am, low.a, 1e-9)
    ctx.close("mirror and gain relation of b", bm, gain * low.b, 1e-9 * abs(gain))
    h3 = abs(oracle.transfer(low.b, low.a, f)) ** count
    tol = {"Chebyshev": 1e-5, "Bessel": 4e-4}.get(style, 2e-3 if order == 2 else 2e-4)
    if order > 1 or style == "Chebyshev":
        ctx.close("-3 dB magnitude", h3, 2.0**-0.5, tol, frequency=f)
    else:
        ctx.close("-3 dB magnitude, order 1", h3, 2.0**-0.5, 0.02 if f < 0.35 else 0.2, frequency=f)
    grid = numpy.linspace(0.0, 1.0, 401)
    h = oracle.transfer(low.b, low.a, grid)
    if style == "Bessel":
        r = signal.besselap(order, norm="delay")[1]
        s = numpy.log(p)
        key = lambda v: v[numpy.lexsort((v.imag, numpy.round(v.real / numpy.abs(v).max(), 5)))]  # noqa: E731
        q = key(s) / key(r)
        ctx.close("Bessel pole pattern", q, numpy.full(order, q.mean().real), 1e-5 * abs(q.mean()))
    elif order > 1 or style == "Chebyshev":
        (rb, ra), edge = reference(style, order, f, count)
        ctx.close(f"{style} response", h, oracle.transfer(rb, numpy.concatenate(([0.0], -ra[1:])), grid), 1e-5 if style == "Chebyshev" else 3e-3 if order == 2 else 3e-4)
        m = numpy.abs(h)
        if style == "Butterworth":
            ctx.ok((numpy.diff(m) <= 1e-9).all(), "monotone magnitude", rise=numpy.diff(m).max())
        else:
            band = 20.0 * numpy.log10(m[grid <= edge * 0.999])
            ctx.ok(band.max() - band.min() <= 0.126, "in-band ripple", ripple=band.max() - band.min())
    else:
        ctx.close("one pole", low.b[1] - low.b[0], 0.0, 1e-12)
    ctx.sig(style, arg, order, count, comp, gain)


def rejects(ctx):
    rng = ctx.rng
    good = dict(style="Chebyshev", frequency=0.3, order=3, count=1)
    IirFilter(**good)
    which = ctx.idx % 4
    if which == 0:
        bad = [dict(good, style=v) for v in ("", "Kaiser", "Chebychev", "Bessel ", "Butter")]
        ctx.tag("rejected style")
    elif which == 1:
        bad = [dict(good, frequency=float(v)) for v in (0.0, 1.0, -0.3, 1.3, 2.0, -1e-9, 1.0 + 1e-9, rng.uniform(1, 9))]
        ctx.tag("rejected frequency")
    elif which == 2:
        bad = [dict(good, order=int(v)) for v in (0, -1, -rng.integers(1, 99))]
        ctx.tag("rejected order")
    else:
        bad = [dict(good, count=int(v)) for v in (0, -1, -rng.integers(1, 99))]
        ctx.tag("rejected count")
    for kw in bad:
        ctx.raises(ValueError, f"design {kw}", IirFilter, **kw)
        ctx.raises(ValueError, f"complement {kw}", IirFilter, **dict(kw, complement=True))
    ctx.note(rejected=bad)
    ctx.sig(bad)


KINDS = dict(design=Kind(design, 420, 8000), rejects=Kind(rejects, 8, 40))
