import numpy

from diamondback import DerivativeFilter, FirFilter, IirFilter, PolyphaseRateFilter, RankFilter
from vm import gen, oracle
from vm.engine import Kind

RULE = ("Each case builds one filter (FIR, IIR, derivative, rank, polyphase rate; designed or explicit, real or complex), drives a random prior "
        "history, resets to a random real, integer or complex scalar (numpy or Python), and filters a constant signal of that value, whole or "
        "cut; every output sample is compared with the steady value. Signatures are (filter, configuration, value, history); a case is "
        "non-trivial when the value and the steady output are not both zero.")
ASSUMPTIONS = ["IIR configurations other than first order with |1 - sum a| below 1e-3 have no usable steady state in double precision and are not reset"]
REACH = ("FirFilter", "IirFilter", "DerivativeFilter", "RankFilter", "PolyphaseRateFilter", "complex value", "int value", "prior history",
         "repeated reset", "gain not one", "b0 = 1", "order zero", "zero dc gain", "recursive, zero dc gain", "zero value", "large value", "slow", "value seen")


def build(ctx):
    """A filter, its steady output per unit input, a tolerance factor, and whether complex values apply."""
    rng = ctx.rng
    k = rng.integers(0, 9)
    if k < 2:
        b, _ = gen.coefficients(rng, int(rng.integers(1, 40)))
        if rng.uniform() < 0.2 and len(b) > 1:
            b = b.astype(complex if numpy.iscomplexobj(b) else float)
            b[0] -= b.sum()
            ctx.tag("zero dc gain")
        return FirFilter(b=b), b.sum(), 1e-11 * numpy.abs(b).sum(), True, ("fir", b)
    if k == 2:
        g = float(rng.choice([1.0, -3.0, 0.1]))
        f = FirFilter(style=str(rng.choice(FirFilter.STYLE)), frequency=rng.uniform(0.2, 0.6), order=int(rng.integers(2, 24)), gain=g)
        return f, g, 1e-9 * abs(g), True, ("designed fir", g, len(f.b))
    if k == 3:
        style = str(rng.choice(IirFilter.STYLE))
        g = float(rng.choice([1.0, -3.0, 0.1]))
        if g != 1.0:
            ctx.tag("gain not one")
        f = IirFilter(style=style, frequency=rng.uniform(0.05, 0.1) if style == "Bessel" else rng.uniform(0.1, 0.7), order=int(rng.integers(1, 5)), gain=g)
        m = oracle.Iir(f.a, f.b)
        return f, g, 1e-12 * (1.0 + abs(g)) * m.gain**2 + 1e-9 * abs(g), True, ("designed iir", style, g, f.b)
    if k < 6 and rng.uniform() < 0.2:
        # A slow filter of finite gain, its pole as close to one as doubles allow without loss.
        e, g = 2.0 ** -int(rng.integers(8, 40)), float(rng.choice([1.0, 2.0, -3.0, 0.125]))
        b = numpy.array([[g * e], [0.0, g * e], [0.5 * g * e, 0.5 * g * e], [g * e, 0.0, 0.0]][rng.integers(0, 4)])
        ctx.tag("slow")
        return IirFilter(a=[0.0, 1.0 - e], b=b), g, 1e-10 * abs(g), True, ("slow", e, b)
    if k < 6:
        while True:
            kind = str(rng.choice(["real", "complex"]))
            a = gen.recursive(rng, int(rng.integers(0, 6)), kind, 0.93)
            b = gen.coefficients(rng, int(rng.integers(1, 7)), (kind,))[0]
            if rng.uniform() < 0.2:
                b[0] = 1.0
            if rng.uniform() < 0.15:
                b = numpy.convolve(rng.integers(-64, 65, int(rng.integers(1, 6))) / 16.0, [1.0, -1.0])
                ctx.tag("recursive, zero dc gain")
            m = oracle.Iir(a, b)
            if m.gain < 1e3 and abs(1.0 - a.sum()) > 1e-3:
                break
        if b[0] == 1.0:
            ctx.tag("b0 = 1")
        if max(len(a), len(b)) == 1:
            ctx.tag("order zero")
        m.steady(1.0)
        return IirFilter(a=a, b=b), b.sum() / (1.0 - a.sum()), m.tol(1e-12), True, ("iir", a, b)
    if k == 6:
        d = int(rng.choice(list(DerivativeFilter.B)))
        o = int(rng.choice(list(DerivativeFilter.B[d])))
        return DerivativeFilter(d, o), 0.0, 1e-12, True, ("derivative", d, o)
    if k == 7:
        n = int(rng.integers(0, 12))
        i = int(rng.integers(0, n + 1))
        return RankFilter(i, n), 1.0, 0.0, True, ("rank", i, n)
    r = float(rng.choice([rng.uniform(0.05, 5.0), 1.0, 0.5, 2.0]))
    return PolyphaseRateFilter(r), 1.0, 1e-12, False, ("polyphase", r)


def steady(ctx):
    rng = ctx.rng
    f, h, t, cplx, what = build(ctx)
    ctx.tag(type(f).__name__)
    kinds = ("real", "int", "complex") if cplx else ("real", "int")
    prior = int(rng.integers(0, 3))
    last = None
    for _ in range(prior):
        x = gen.signal(rng, gen.length(rng, 60), kinds)[0]
        f.filter(x)
        last = x[-1 - int(rng.integers(0, min(len(x), 3)))]
        ctx.tag("prior history")
    v = 0.0
    for r in range(int(rng.integers(1, 3))):
        if r:
            ctx.tag("repeated reset")
        k = kinds[rng.integers(0, len(kinds))]
        v = gen.signal(rng, 1, (k,))[0][0]
        if rng.uniform() < 0.2:
            v = numpy.float64(rng.choice([1.0, -1.0, 1e12, 1e-12, 0.0]))
        if last is not None and rng.uniform() < 0.2:
            v = last  # a value the filter has just seen
            ctx.tag("value seen")
        f.reset(v if rng.uniform() < 0.5 else v.item())
    ctx.tag(*(["complex value"] if numpy.iscomplexobj(v) else []), *(["int value"] if isinstance(v, numpy.integer) else []),
            *(["zero value"] if v == 0 else []), *(["large value"] if abs(v) >= 1e6 else []))
    n = int(rng.integers(1, 60))
    edges, _ = gen.split(rng, n)
    y = numpy.concatenate([f.filter(gen.container(rng, numpy.full(b - a, v))) for a, b in zip(edges, edges[1:])])
    ctx.event(n)
    want = h * v
    ctx.note(filter=what, value=v, steady=want, samples=n, prior=prior, calls=len(edges) - 1)
    ctx.ok(len(y) > 0 or what[0] == "polyphase", "no output")
    ctx.close(f"{what[0]} output after reset", y, numpy.full(len(y), want), t * abs(v) + 1e-300, value=v)
    ctx.sig(what, v, prior)
    ctx.trivial = v == 0


def rejects(ctx):
    rng = ctx.rng
    f, h, t, _, what = build(ctx)
    f.reset(2.0)
    for v in (numpy.array([1.0]), [1.0], (1.0, 2.0), None, {}):
        ctx.raises(ValueError, f"reset {v!r}", f.reset, v)
    y = f.filter(numpy.full(9, 2.0))
    ctx.close("output after rejected reset", y, numpy.full(len(y), 2.0 * h), 2.0 * t + 1e-300)
    ctx.note(filter=what, rejected=["array", "list", "tuple", "None", "dict"])
    ctx.sig(what)


KINDS = dict(steady=Kind(steady, 2400, 72000), rejects=Kind(rejects, 40, 400))
