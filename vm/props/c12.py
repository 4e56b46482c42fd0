import numpy

from diamondback import IntegralFilter
from vm import gen
from vm.engine import Kind

RULE = ("Each case runs an integral filter of random order over a random history of calls and compares every output with the extended-precision running "
        "sum of the closed Newton-Cotes rule of that order (weights derived here by integrating Lagrange polynomials); polynomial cases compare each "
        "increment with the exact integral of the polynomial over the stencil. Signatures are (order, signal, split).")
ASSUMPTIONS = ["rounding up to 1e-14 of the accumulated magnitude per sample is accepted"]
REACH = ("vast", "order 0", "order 1", "order 2", "order 3", "order 4", "real", "int", "complex", "constant", "polynomial", "split", "real and complex calls", "long", "rejected", "additive")


def weights(n):
    if n == 0:
        return numpy.ones(1)
    w = []
    for i in range(n + 1):
        r = [j for j in range(n + 1) if j != i]
        p = numpy.polynomial.Polynomial.fromroots(r)
        q = (p / p(i)).integ()
        w.append((q(n) - q(0)) / n)
    return numpy.array(w)


def model(order, x):
    w = weights(order).astype(numpy.longdouble)
    x = numpy.asarray(x)
    wide = numpy.clongdouble if numpy.iscomplexobj(x) else numpy.longdouble
    h = numpy.concatenate((numpy.zeros(order), x)).astype(wide)
    u = sum(w[i] * h[order - i : len(h) - i] for i in range(order + 1))
    y = numpy.cumsum(u)
    return y.astype(complex if numpy.iscomplexobj(x) else float), numpy.cumsum(numpy.abs(y)).astype(float) * 1e-15 * 4 + 1e-14 * float(numpy.abs(x).max())


def run(ctx, o, x):
    cuts, style = gen.split(ctx.rng, len(x))
    pieces = [x[i:j] for i, j in zip(cuts, cuts[1:])]
    if numpy.iscomplexobj(x) and ctx.rng.uniform() < 0.4:
        # Some calls present real values only.
        for k in numpy.flatnonzero(ctx.rng.uniform(size=len(pieces)) < 0.5):
            pieces[k][:] = pieces[k].real
            pieces[k] = pieces[k].real
        ctx.tag("real and complex calls")
    y = numpy.concatenate([o.filter(gen.container(ctx.rng, p)) for p in pieces])
    ctx.event(len(x))
    if len(cuts) > 2:
        ctx.tag("split")
    return y, style


def history(ctx):
    rng = ctx.rng
    order = ctx.idx % 5
    o = IntegralFilter(order=order)
    n = int(rng.integers(800, 3000)) if rng.uniform() < 0.05 else gen.vast(ctx, gen.length(rng, 300), 0.0015)
    x, d = gen.signal(rng, n)
    y, style = run(ctx, o, x)
    want, tol = model(order, x)
    ctx.close(f"order {order}", y, want, tol, signal=d, split=style)
    ctx.tag(f"order {order}", d.split(":")[0], *(["long"] if n > 700 else []))
    ctx.note(order=order, samples=n, signal=d, split=style, end=y[-1])
    ctx.sig(order, n, d, x[:3], style)


def polynomial(ctx):
    rng = ctx.rng
    order = ctx.idx % 5
    degree = int(rng.integers(0, order + 1 + (order % 2 == 0 and order > 0)))
    p = numpy.polynomial.Polynomial(rng.normal(size=degree + 1))
    n = order + gen.length(rng, 60, 2)
    t = numpy.arange(n) - float(rng.integers(0, 30))
    o = IntegralFilter(order)
    if rng.uniform() < 0.5:
        o.filter(rng.normal(size=int(rng.integers(1, 20))))
    x = p(t)
    y, style = run(ctx, o, x)
    q = p.integ()
    want = (q(t) - q(t - order)) / order if order else x
    ctx.close(f"increment of order {order} is exact for degree {degree}", numpy.diff(y)[order:], want[1 + order :],
              1e-13 * (numpy.abs(y).max() + numpy.abs(x).max() + 1.0) * 10, split=style)
    if degree == 0:
        ctx.tag("constant")
    ctx.tag("polynomial", f"order {order}")
    ctx.note(order=order, polynomial=p.coef, samples=n)
    ctx.sig(order, p.coef, n)


def additive(ctx):
    """Response to a u + b v is that of u times a plus that of v times b."""
    rng = ctx.rng
    order = ctx.idx % 5
    n = gen.length(rng, 150)
    u, v = rng.normal(size=n), rng.normal(size=n)
    a, b = rng.normal(size=2)
    f, g, h = IntegralFilter(order), IntegralFilter(order), IntegralFilter(order)
    ctx.close("linearity", run(ctx, f, a * u + b * v)[0], a * run(ctx, g, u)[0] + b * run(ctx, h, v)[0], 1e-12 * n * (abs(a) + abs(b)))
    ctx.tag("additive")
    ctx.note(order=order, samples=n)
    ctx.sig(order, n, a, b)


def rejects(ctx):
    v = int(ctx.rng.choice([-1, 5, 6, 17, -4]))
    ctx.raises(ValueError, f"order {v}", IntegralFilter, v)
    ctx.raises(ValueError, "empty", IntegralFilter(2).filter, [])
    ctx.tag("rejected")
    ctx.note(order=v)
    ctx.sig(v)


KINDS = dict(history=Kind(history, 25200, 756000), polynomial=Kind(polynomial, 14400, 432000), additive=Kind(additive, 3600, 108000), rejects=Kind(rejects, 40, 40))
