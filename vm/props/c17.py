import math

import numpy

from diamondback import PolynomialRateFilter
from vm import gen
from vm.engine import Kind

RULE = ("Each case filters a real or integer signal at a random rate (fractions, integers, reciprocals, irrational, zero) and order, after a random "
        "history of other calls and reassignments, and compares the number of samples and every value with an independent evaluation of the piecewise "
        "interpolant. Signatures are (rate, order, signal).")
ASSUMPTIONS = ["signals are real and of one dimension, orders are 1 to 3", "the time of a sample is judged within the rounding of accumulating 1 / rate; where the "
               "order 2 interpolant is discontinuous, at sample instants, the value on either side is accepted"]
REACH = ("vast", "order 1", "order 2", "order 3", "rate below 1", "rate above 1", "rate 1", "rate 0", "integer rate", "length 2", "long", "linear signal", "cubic signal",
         "exact instants", "reassigned", "no memory", "additive", "rejected rate", "rejected order", "rejected length", "rejected dimension")


def rates(rng):
    return float(rng.choice([rng.uniform(0.05, 1.0), rng.uniform(1.0, 8.0), rng.integers(1, 9), 1.0 / rng.integers(1, 9), rng.integers(1, 12) / rng.integers(1, 12),
                             1.0, numpy.pi / 3.0, 10.0 ** rng.uniform(-2, 1.3)]))


def extend(x):
    return numpy.concatenate(([2 * x[0] - x[1]], x, [2 * x[-1] - x[-2], 3 * x[-1] - 2 * x[-2]]))


def pieces(x, order):
    """Polynomials over [i, i+1] in t - i, fitted to samples i-1 ... i+2 (least squares when of lower degree)."""
    if order == 1:
        z = numpy.concatenate((x, [2 * x[-1] - x[-2]]))
        return [(z[i], z[i + 1] - z[i]) for i in range(len(x))]
    z = extend(x)
    v = numpy.vander(numpy.array([-1.0, 0.0, 1.0, 2.0]), order + 1, increasing=True)
    m = numpy.linalg.inv(v.T @ v) @ v.T
    return [tuple(m @ z[i : i + 4]) for i in range(len(x))]


def value(c, u):
    return sum(a * u**k for k, a in enumerate(c))


def judge(ctx, y, x, rate, order, tol, **detail):
    n = len(x)
    m = int(numpy.round(n * rate))
    ctx.ok(numpy.shape(y) == (m,), f"{numpy.shape(y)} samples emitted, expected {m}", rate=rate, length=n, order=order)
    p = pieces(numpy.asarray(x, float), order)
    want = numpy.zeros(m)
    for j in range(m):
        t = j / rate
        i = min(int(t), n - 1)
        slack = 1e-14 * (j + 1) * max(1.0, t, 1.0 / rate)
        want[j] = value(p[i], t - i)
        if order == 2:
            for k in (i - 1, i + 1):
                if 0 <= k < n and (abs(t - (i if k < i else i + 1)) <= slack):
                    w = value(p[k], t - k)
                    if abs(w - y[j]) < abs(want[j] - y[j]):
                        want[j] = w
    ctx.close("interpolated value", y, want, tol, rate=rate, order=order, length=n, **detail)


def build(ctx):
    rng = ctx.rng
    rate, order = gen.brief(rng, rates(rng)), int(rng.integers(1, 4))
    if rng.uniform() < 0.3:
        o = PolynomialRateFilter(rates(rng), int(rng.integers(1, 4)))
        o.filter(rng.normal(size=int(rng.integers(2, 30))))
        o.rate, o.order = gen.number(rng, rate), gen.number(rng, order)
        ctx.ok(o.rate == rate and o.order == order, "rate and order after assignment")
        ctx.tag("reassigned")
    else:
        o = PolynomialRateFilter(rate=gen.number(rng, rate), order=order) if order > 1 or rng.uniform() < 0.5 else PolynomialRateFilter(rate)
    ctx.tag(f"order {order}", "rate 1" if rate == 1 else "rate below 1" if rate < 1 else "rate above 1", *(["integer rate"] if rate == int(rate) else []))
    return o, rate, order


def interpolant(ctx):
    rng = ctx.rng
    o, rate, order = build(ctx)
    n = gen.length(rng, 120, 2) if rng.uniform() < 0.95 else gen.vast(ctx, int(rng.integers(300, 900)), 0.05 if rate < 3 else 0.0)
    x, d = gen.signal(rng, n, ("real", "real", "int"))
    tol = 1e-10 * (numpy.abs(x).max() + 1e-300) * 4
    judge(ctx, o.filter(gen.container(rng, x)), x, rate, order, tol, signal=d)
    ctx.event(n)
    if rng.uniform() < 0.4:
        u, e = gen.signal(rng, gen.length(rng, 40, 2), ("real", "int"))
        judge(ctx, o.filter(gen.container(rng, u)), u, rate, order, 1e-10 * (numpy.abs(u).max() + 1e-300) * 4, signal=e)
        ctx.event(len(u))
        ctx.tag("no memory")
    ctx.tag(*(["length 2"] if n == 2 else []), *(["long"] if n >= 300 else []))
    ctx.note(rate=rate, order=order, length=n, signal=d)
    ctx.sig(rate, order, n, x[:3])


def exact(ctx):
    """Polynomial signals and sample instants are reproduced."""
    rng = ctx.rng
    o, rate, order = build(ctx)
    n = gen.length(rng, 80, 2)
    t = numpy.arange(n)
    m = int(numpy.round(n * rate))
    s = numpy.arange(m) / rate
    a, b = rng.normal(size=2)
    y = o.filter(a + b * t)
    ctx.event(n)
    ctx.close("linear signal is reproduced", y, a + b * s, 1e-10 * (abs(a) + abs(b) * (n + 1)), rate=rate, order=order)
    ctx.tag("linear signal")
    if order == 3 and n >= 5:
        p = numpy.polynomial.Polynomial(rng.normal(size=4) / numpy.array([1.0, n, n**2, n**3]))
        k = (s >= 1.0) & (s < n - 2.0)
        ctx.close("cubic signal is reproduced away from the ends", o.filter(p(t))[k], p(s)[k], 1e-9, rate=rate)
        ctx.tag("cubic signal")
    if order != 2:
        q = int(rng.integers(1, 9))
        o.rate = float(q)
        x = rng.normal(size=n)
        ctx.close("samples are kept at sample instants", o.filter(x)[::q], x, 1e-10 * numpy.abs(x).max() * 4, rate=q, order=order)
        ctx.tag("exact instants")
    ctx.note(rate=rate, order=order, length=n)
    ctx.sig(rate, order, n, a)


def additive(ctx):
    rng = ctx.rng
    o, rate, order = build(ctx)
    n = gen.length(rng, 60, 2)
    u, v = rng.normal(size=n), rng.normal(size=n)
    a, b = rng.normal(size=2)
    ctx.event(3 * n)
    ctx.close("linearity", o.filter(a * u + b * v), a * o.filter(u) + b * o.filter(v), 1e-9 * (abs(a) + abs(b)), rate=rate, order=order)
    z = PolynomialRateFilter(0.0 if rng.uniform() < 0.5 else 0, order)
    ctx.ok(numpy.shape(z.filter(u)) == (0,), "nothing is emitted at rate zero")
    ctx.tag("additive", "rate 0")
    ctx.note(rate=rate, order=order, length=n)
    ctx.sig(rate, order, n, a)


def rejects(ctx):
    rng = ctx.rng
    r, k = -float(10.0 ** rng.uniform(-12, 2)), -int(rng.integers(0, 5))
    ctx.raises(ValueError, f"rate {r}", PolynomialRateFilter, r)
    ctx.raises(ValueError, f"order {k}", PolynomialRateFilter, 1.0, k)
    o = PolynomialRateFilter(1.5, 3)
    ctx.raises(ValueError, f"rate {r}", lambda: setattr(o, "rate", r))
    ctx.raises(ValueError, f"order {k}", lambda: setattr(o, "order", k))
    ctx.ok(o.rate == 1.5 and o.order == 3, "rate and order after rejection")
    ctx.raises(ValueError, "empty", o.filter, [])
    ctx.raises(ValueError, "one sample", o.filter, [rng.normal()])
    ctx.raises(ValueError, "two dimensions", o.filter, rng.normal(size=(3, 3)))
    ctx.tag("rejected rate", "rejected order", "rejected length", "rejected dimension")
    ctx.note(rate=r, order=k)
    ctx.sig(r, k)


KINDS = dict(interpolant=Kind(interpolant, 12600, 378000), exact=Kind(exact, 5400, 162000), additive=Kind(additive, 2700, 81000), rejects=Kind(rejects, 180, 200))
