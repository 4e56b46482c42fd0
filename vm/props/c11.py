import numpy

from diamondback import DerivativeFilter
from vm import gen
from vm.engine import Kind

RULE = ("Each case applies a derivative filter of each supported derivative and order to samples of a random polynomial of degree at most k+1 (real, "
        "integer or complex coefficients, random origin), cut into random calls after a random history, and compares every output after N samples "
        "with the exact derivative at n - N/2. Signatures are (derivative, order, polynomial, split).")
ASSUMPTIONS = ["rounding up to 1e-11 of the largest term is accepted"]
REACH = tuple(f"derivative {k} order {n}" for k, ns in ((1, (1, 2, 4)), (2, (2, 4, 6, 8)), (3, (4, 6, 8))) for n in ns) + ("vast", 
    "history", "split", "long", "integer", "complex", "degree maximal", "rejected", "settles")
PAIRS = [(k, n) for k, ns in ((1, (1, 2, 4)), (2, (2, 4, 6, 8)), (3, (4, 6, 8))) for n in ns]


def polynomial(ctx):
    rng = ctx.rng
    k, order = PAIRS[ctx.idx % len(PAIRS)]
    o = DerivativeFilter(derivative=k, order=order)
    b = numpy.array(o.b)
    ctx.ok(len(b) == order + 1, f"{len(b)} coefficients for order {order}")
    degree = int(rng.integers(0, k + 2))
    kind = str(rng.choice(["real", "real", "integer", "complex"]))
    c = rng.integers(-5, 6, degree + 1).astype(float) if kind == "integer" else rng.normal(size=degree + 1)
    if kind == "complex":
        c = c + 1j * rng.normal(size=degree + 1)
    if kind != "integer":
        c = c * gen.magnitude(rng)
    p = numpy.polynomial.Polynomial(c)
    n = order + gen.vast(ctx, gen.length(rng, 60, tail=1500), 0.0004)
    t = numpy.arange(n) + int(rng.integers(-30, 30))
    x = p(t.astype(float))
    if kind == "integer":
        x = x.real.round().astype(int)
        ctx.tag("integer")
    if rng.uniform() < 0.5:
        o.filter(rng.normal(size=int(rng.integers(1, 30))))
        ctx.tag("history")
    cuts, style = gen.split(rng, n)
    y = numpy.concatenate([o.filter(gen.container(rng, x[i:j])) for i, j in zip(cuts, cuts[1:])])
    ctx.event(n)
    q = p.deriv(k) if degree >= k else numpy.polynomial.Polynomial([0.0])
    want = q(t - order / 2.0)
    tol = 1e-11 * (numpy.abs(b).sum() + 1.0) * numpy.abs(x).max() + 1e-300
    ctx.close(f"derivative {k} order {order}", y[order:], want[order:], tol, degree=degree, split=style)
    ctx.tag(f"derivative {k} order {order}", kind, *(["split"] if len(cuts) > 2 else []), *(["long"] if n > 512 else []), *(["degree maximal"] if degree == k + 1 else []))
    ctx.note(derivative=k, order=order, polynomial=c, samples=n, split=style)
    ctx.sig(k, order, c, cuts)


def settles(ctx):
    """A constant has no derivative, from the first sample after reset."""
    rng = ctx.rng
    k, order = PAIRS[ctx.idx % len(PAIRS)]
    o = DerivativeFilter(k, order)
    o.filter(rng.normal(size=int(rng.integers(1, 20))))
    v = rng.normal() * 10.0 ** rng.uniform(-6, 6)
    v = v if rng.uniform() < 0.7 else complex(v, rng.normal())
    o.reset(v)
    n = gen.length(rng, 40)
    ctx.event(n)
    ctx.close("derivative of a constant after reset", o.filter(numpy.full(n, v)), numpy.zeros(n), 1e-12 * abs(v) * numpy.abs(o.b).sum())
    ctx.tag("settles")
    ctx.note(derivative=k, order=order, value=v)
    ctx.sig(k, order, v)


def rejects(ctx):
    rng = ctx.rng
    k, n = int(rng.integers(-1, 6)), int(rng.integers(-1, 12))
    if rng.uniform() < 0.25:
        # Neither value, nor anything near one of a supported pair, is a pair.
        k, n = PAIRS[rng.integers(0, len(PAIRS))]
        k, n = [(k + 0.5, n), (k, n + 0.5), (k - 0.25, n), (k, n - 0.25), (k + 1e-6, n), (-k, n), (k, -n), (n, k)][rng.integers(0, 8)]
    if (k, n) in PAIRS:
        DerivativeFilter(k, n)
        ctx.ok(True, "accepted")
    else:
        ctx.raises(ValueError, f"derivative {k} order {n}", DerivativeFilter, k, n)
        ctx.tag("rejected")
    ctx.note(derivative=k, order=n)
    ctx.sig(k, n)


KINDS = dict(polynomial=Kind(polynomial, 96000, 2880000), settles=Kind(settles, 12000, 360000), rejects=Kind(rejects, 600, 600))
