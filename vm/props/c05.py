import math

import numpy
from scipy.optimize import brentq
from scipy.signal import firwin

from diamondback import FirFilter
from vm.engine import Kind

RULE = ("Each case designs an FIR filter from a random style (any letter case), frequency, order, count, complement and gain and checks "
        "length, symmetry, response at zero frequency (Nyquist for a complement), the mirror and gain relations against companion designs, and, "
        "where the order can realize the constraint, the -3 dB magnitude and the coefficients of an independent design whose cutoff is solved "
        "by bracketing.  Signatures are the design parameters; every design is non-trivial.")
ASSUMPTIONS = ["-3 dB magnitude is met to 5e-5; the independent design (scipy firwin with the cutoff found by brentq) agrees to 1e-3 of the gain"]
REACH = ("Blackman", "Hamming", "Hann", "Kaiser", "complement", "gain", "count 2", "count 3", "-3 dB", "odd order", "odd complement", "reference", "order one", "long",
         "frequency near an end", "rejected style", "rejected frequency", "rejected order", "rejected count")


def magnitude(b, f):
    return abs(numpy.polyval(b, numpy.exp(1j * math.pi * f)))


def reference(style, f, order, count):
    """Independent design: the cutoff at which the windowed sinc meets the constraint, if it is bracketed."""
    w = (style.lower(), 7.0) if style == "Kaiser" else style.lower()

    def g(c):
        return magnitude(firwin(order + 1, c, window=w, pass_zero=True, scale=True, fs=2.0), f) ** count - 2.0**-0.5

    lo, hi = f * 0.5, min(f * 2.0, 0.999)
    if g(lo) >= 0.0 or g(hi) <= 0.0:
        return None
    c = brentq(g, lo, hi, xtol=1e-13)
    return firwin(order + 1, c, window=w, pass_zero=True, scale=True, fs=2.0)


def case(rng, text):
    return "".join(c.upper() if rng.uniform() < 0.5 else c.lower() for c in text)


def design(ctx):
    rng = ctx.rng
    style = str(rng.choice(["Blackman", "Hamming", "Hann", "Kaiser"]))
    realizable = rng.uniform() < 0.6
    if realizable:
        order = int(rng.choice([8, 12, 16, 20, 24, 32, 48, 64, 96, 100, 120, 128, 160, 200]))
        f = float(rng.uniform(4.0 / order, 0.75))
        if order > 64:
            ctx.tag("long")
    else:
        order = int(rng.choice([2, 3, 4, 5, 6, 7, 9, 10, 11, 15, 31, 33, 63, 101, 128, 150]))
        if style in ("Hamming", "Kaiser") and rng.uniform() < 0.2:
            order = 1
            ctx.tag("order one")
        f = float(rng.choice([rng.uniform(0.02, 0.98), 0.5, 0.1, 0.25]))
        if rng.uniform() < 0.12:
            # Close to the ends of the range, representable with its complement.
            f = float(2.0 ** -int(rng.integers(6, 40)))
            f = f if rng.uniform() < 0.5 else 1.0 - f
            ctx.tag("frequency near an end")
    count = int(rng.choice([1, 1, 1, 2, 3]))
    gain = float(rng.choice([1.0, 1.0, -2.5, 1e-3, 40.0]))
    comp = bool(rng.uniform() < 0.4)
    f_arg = 1.0 - f if comp else f
    o = FirFilter(style=case(rng, style), frequency=f_arg, order=order, count=count, complement=comp, gain=gain)
    b = numpy.array(o.b)
    ctx.event(4)
    ctx.note(style=style, frequency=f_arg, order=order, count=count, complement=comp, gain=gain, b=b)
    ctx.tag(style, *(["complement"] if comp else []), *(["gain"] if gain != 1.0 else []), *([f"count {count}"] if count > 1 else []),
            *(["odd order"] if order % 2 else []), *(["odd complement"] if order % 2 and comp else []))
    ctx.ok(b.shape == (order + 1,), f"{len(b)} coefficients for order {order}")
    ctx.ok(b.dtype.kind == "f", f"coefficient type {b.dtype}")
    sign = -1.0 if comp and order % 2 else 1.0
    ctx.close("symmetry", b, sign * b[::-1], 1e-12 * abs(gain))
    alt = (-1.0) ** numpy.arange(order + 1)
    dc = (b * alt).sum() if comp else b.sum()
    ctx.close("magnitude at Nyquist" if comp else "response at zero frequency", abs(dc) if comp else dc, abs(gain) if comp else gain, 1e-10 * abs(gain))
    if comp:
        ctx.ok(dc * gain > 0, "sign of the response at Nyquist")
    state = numpy.array(o.s)
    ctx.ok(len(state) == order + 1 and not state.any(), "initial state is zero")
    low = numpy.array(FirFilter(style=style, frequency=f if not comp else 1.0 - f_arg, order=order, count=count).b)
    mirrored = low * alt if comp else low
    ctx.close("mirror and gain relation", b / gain, mirrored, 1e-9)
    # Response magnitude never exceeds its pass band by more than the ripple of its window.
    h = numpy.abs(numpy.fft.fft(low, 1024))
    ctx.ok(h.max() <= 1.0 + 0.05 or order < 8, "pass band ripple", peak=h.max())
    if realizable:
        ctx.tag("-3 dB")
        ctx.close("-3 dB magnitude", (magnitude(b, f_arg) / abs(gain)) ** count, 2.0**-0.5, 5e-5, frequency=f_arg)
        r = reference(style, f, order, count)
        if r is not None:
            ctx.tag("reference")
            ctx.close("independent design", mirrored * (alt if comp else 1.0), r, 1e-3)
    ctx.sig(style, f_arg, order, count, comp, gain)


def rejects(ctx):
    rng = ctx.rng
    good = dict(style="Kaiser", frequency=0.3, order=8, count=1)
    FirFilter(**good)
    which = ctx.idx % 4
    if which == 0:
        bad = [dict(good, style=v) for v in ("", "Kaizer", "Chebyshev", "Hanning", "kaiser ")]
        ctx.tag("rejected style")
    elif which == 1:
        bad = [dict(good, frequency=float(v)) for v in (0.0, 1.0, -0.3, 1.3, 2.0, -1e-9, 1.0 + 1e-9, rng.uniform(1, 9))]
        ctx.tag("rejected frequency")
    elif which == 2:
        bad = [dict(good, order=int(v)) for v in (0, -1, -rng.integers(1, 99))]
        ctx.tag("rejected order")
    else:
        bad = [dict(good, count=int(v)) for v in (0, -1, -rng.integers(1, 99))]
        ctx.tag("rejected count")
    for kw in bad:
        ctx.raises(ValueError, f"design {kw}", FirFilter, **kw)
        ctx.raises(ValueError, f"complement {kw}", FirFilter, **dict(kw, complement=True))
    ctx.note(rejected=bad)
    ctx.sig(bad)


KINDS = dict(design=Kind(design, 900, 16000), rejects=Kind(rejects, 8, 40))
