import numpy

from diamondback import ComplexFrequencyFilter
from vm import gen
from vm.engine import Kind
from vm.props.c09 import analytic

RULE = ("Each case runs a random history of filter calls (tones, noise, zero samples; real or complex; any scale), assignments of frequency and rate "
        "and resets, and compares y, e and b of every sample with an independent evaluation of the adaptation law on the normalized signal. Tracking "
        "cases apply a stationary tone and compare the error with (1-rate)^n; scaling cases run the same history at two scales. Signatures are the history.")
ASSUMPTIONS = ["samples of magnitude between 0 and 2e-8 are not generated (the code takes magnitudes below 1e-8 as vanishing)",
               "y is compared modulo 2 with the angle of the returned coefficient; the angle of a coefficient below 1e-12 is not judged"]
REACH = ("vast", "filter", "real", "complex", "wide", "zero samples", "faint", "assign b", "assign s", "assign real b", "assign frequency", "assign rate", "reset", "reset zero", "rate 0", "rate 1", "tracking", "scaling",
         "rejected frequency", "rejected rate", "rejected empty", "rejected reset", "long")


def primary(rng, n, tags):
    t = numpy.arange(n)
    k = rng.integers(0, 7) // 2
    if k == 0:
        tags.add("real")
        return numpy.cos(numpy.pi * (rng.uniform(0.05, 0.95) * t + rng.uniform(-1, 1))) * rng.uniform(0.5, 2.0) + 0.05 * rng.normal(size=n) + 0.2
    tags.add("complex")
    d = numpy.exp(1j * numpy.pi * (rng.uniform(-1, 1) * t + rng.uniform(-1, 1))) * rng.uniform(0.5, 2.0)
    if k == 2:
        d = d * rng.uniform(0.01, 10.0, n) + 0.3 * (rng.normal(size=n) + 1j * rng.normal(size=n))
        if rng.uniform() < 0.5:
            d[rng.uniform(size=n) < 0.2] = 0.0
    if k == 3:
        tags.add("wide")
        d = d * 10.0 ** rng.uniform(0.0, 12.0, n)
    return d


def wrap(v):
    return v - 2.0 * numpy.round(v / 2.0)


def history(ctx):
    rng = ctx.rng
    f = gen.brief(rng, float(rng.choice([rng.uniform(-1, 1), rng.uniform(-1, 1), 0.0, 1.0, -1.0])))
    r = gen.brief(rng, float(rng.choice([rng.uniform(0, 1), 10.0 ** rng.uniform(-4, 0), 0.0, 1.0])))
    o = ComplexFrequencyFilter(frequency=gen.number(rng, f), rate=gen.number(rng, r))
    b, s, used = numpy.exp(1j * numpy.pi * f), 1.0 + 0j, 0
    log = [f, r]
    for _ in range(int(rng.integers(1, 10))):
        k = rng.uniform()
        if k < 0.1:
            f = gen.brief(rng, float(rng.choice([rng.uniform(-1, 1), 1.0, -1.0, -f, f])))
            o.frequency = gen.number(rng, f)
            b = numpy.exp(1j * numpy.pi * f)
            ctx.ok(o.frequency == f, "frequency after assignment")
            ctx.tag("assign frequency")
            log.append(("f", f))
            continue
        if k < 0.2:
            r = gen.brief(rng, float(rng.choice([rng.uniform(0, 1), 0.0, 1.0])))
            o.rate = gen.number(rng, r)
            ctx.ok(o.rate == r, "rate after assignment")
            ctx.tag("assign rate")
            log.append(("r", r))
            continue
        if k < 0.24:
            b = complex(*rng.normal(size=2)) * rng.choice([0.3, 1.0, 2.0])
            b = b if rng.uniform() < 0.6 else float(b.real) or 0.5
            o.b = [[b], (b,), numpy.array([b])][rng.integers(0, 3)]
            ctx.tag("assign real b" if isinstance(b, float) else "assign b")
            b = complex(b)
            ctx.tag("assign b")
            log.append(("b", b))
            continue
        if k < 0.27:
            s = numpy.exp(1j * numpy.pi * rng.uniform(-1, 1)) if rng.uniform() < 0.5 else float(rng.choice([1.0, -1.0]))
            o.s = [[s], (s,), numpy.array([s])][rng.integers(0, 3)]
            s = complex(s)
            ctx.tag("assign s")
            log.append(("s", s))
            continue
        if k < 0.34:
            v = rng.choice([0.0, 1.0]) * complex(*rng.normal(size=2)) * 10.0 ** rng.uniform(-7, 3)
            v = v if rng.uniform() < 0.7 else float(v.real)
            if abs(v) < 2e-8:
                v = 0.0
            o.reset(v)
            s = complex(v / abs(v)) if v else 1.0 + 0j
            ctx.tag("reset" if v else "reset zero")
            log.append(("reset", v))
            continue
        n = gen.vast(ctx, gen.length(rng, 120, tail=1500), 0.0004)
        if n > 256:
            ctx.tag("long")
        tags = set()
        d = primary(rng, n, tags) * 10.0 ** (rng.uniform(-7.5, 8) if rng.uniform() < 0.3 else 0.0)
        z = analytic(d)
        m = numpy.abs(z)
        if "wide" in tags:
            d = d + (m < 1e-5) * 0.5
            z = analytic(d)
            m = numpy.abs(z)
        elif "real" in tags:
            if (m < max(1e-6, 1e-3 * m.max())).any():
                continue
        elif ((m > 0.0) & (m < 2e-8)).any():
            continue
        if (m[m > 0] < 1e-6).any():
            ctx.tag("faint")
        y, e, c = o.filter(gen.container(rng, d))
        ctx.event(n)
        used += n
        x = numpy.where(m > 0, z / numpy.where(m > 0, m, 1.0), 0.0)
        wb, we = numpy.zeros(n, complex), numpy.zeros(n, complex)
        for i in range(n):
            wb[i] = b
            we[i] = x[i] - b * s
            b = b + r * we[i] * s.conjugate()
            s = complex(x[i])
        tol = 8e-12 * numpy.sqrt(used)
        ctx.close("b", c, wb, tol, frequency=f, rate=r)
        ctx.close("e", e, we, tol, frequency=f, rate=r)
        ctx.ok(numpy.shape(y) == (n,) and not numpy.iscomplexobj(y), f"y has shape {numpy.shape(y)} for {n} samples")
        ctx.ok((numpy.abs(y) <= 1.0).all(), "y in [-1, 1]")
        g = numpy.abs(wb) > 1e-6
        ctx.close("y", wrap(y - numpy.angle(wb) / numpy.pi)[g], numpy.zeros(int(g.sum())), (tol / numpy.abs(wb))[g], frequency=f, rate=r)
        ctx.tag("filter", *tags, *(["zero samples"] if (m == 0).any() else []), *(["rate 0"] if r == 0 else []), *(["rate 1"] if r == 1 else []))
        log.append((n, d[:2]))
    ctx.note(frequency=f, rate=r, calls=len(log) - 2, samples=used, b=b)
    ctx.sig(log)
    ctx.trivial = not used


def tracking(ctx):
    rng = ctx.rng
    g, f, r = rng.uniform(-0.99, 0.99), float(rng.uniform(-1, 1)), float(rng.choice([rng.uniform(0.01, 1.0), 1.0, 0.1]))
    n = gen.length(rng, 200, 10)
    a = complex(*rng.normal(size=2))
    d = a * numpy.exp(1j * numpy.pi * g * numpy.arange(n))
    o = ComplexFrequencyFilter(f, r)
    o.reset(complex(a * numpy.exp(-1j * numpy.pi * g)))
    cuts, _ = gen.split(rng, n)
    parts = [o.filter(d[i:j]) for i, j in zip(cuts, cuts[1:])]
    y, e, b = (numpy.concatenate([v[i] for v in parts]) for i in range(3))
    ctx.event(n)
    w = abs(numpy.exp(1j * numpy.pi * g) - numpy.exp(1j * numpy.pi * f))
    ctx.close("error decays as (1 - rate)^n", numpy.abs(e), w * (1.0 - r) ** numpy.arange(n), 1e-10 * n, frequency=f, rate=r, tone=g)
    if w * (1.0 - r) ** (n - 1) < 1e-3:
        ctx.ok(abs(wrap(y[-1] - g)) < 1e-3, "estimate converges to the tone", estimate=y[-1], tone=g, rate=r)
    ctx.tag("tracking")
    ctx.note(tone=g, frequency=f, rate=r, samples=n, estimate=y[-1])
    ctx.sig(g, f, r, n)


def scaling(ctx):
    rng = ctx.rng
    f, r = float(rng.uniform(-1, 1)), float(rng.uniform(0, 1))
    u, v = ComplexFrequencyFilter(f, r), ComplexFrequencyFilter(f, r)
    q = float(2.0 ** rng.integers(-8, 30))
    if rng.uniform() < 0.5:
        w = complex(*rng.normal(size=2))
        u.reset(w)
        v.reset(q * w)
    n = gen.length(rng, 100)
    tags = set()
    d = primary(rng, n, tags)
    while (numpy.abs(analytic(d))[numpy.abs(d) > 0] < 1e-2).any():
        d = primary(rng, n, tags)
    for g, h, k in zip(u.filter(d), v.filter(q * d), ("y", "e", "b")):
        if k == "y":
            ctx.close(f"{k} does not depend on scale", wrap(g - h), numpy.zeros(n), 1e-6, scale=q)
        else:
            ctx.close(f"{k} does not depend on scale", g, h, 1e-10, scale=q)
    ctx.event(n)
    ctx.tag("scaling")
    ctx.note(scale=q, frequency=f, rate=r, samples=n)
    ctx.sig(q, f, r, n)


def rejects(ctx):
    rng = ctx.rng
    v = float(rng.choice([-1.0, 1.0]) * (1.0 + rng.choice([1e-12, 1e-3, 5.0, numpy.inf])))
    w = float(rng.choice([-1e-12, -1.0, 1.0 + 1e-12, 7.0, numpy.inf]))
    o = ComplexFrequencyFilter(0.1, 0.2)
    ctx.raises(ValueError, f"frequency {v}", ComplexFrequencyFilter, v, 0.1)
    ctx.raises(ValueError, f"frequency {v}", lambda: setattr(o, "frequency", v))
    ctx.raises(ValueError, f"rate {w}", ComplexFrequencyFilter, 0.1, w)
    ctx.raises(ValueError, f"rate {w}", lambda: setattr(o, "rate", w))
    ctx.raises(ValueError, "empty", o.filter, [])
    ctx.raises(ValueError, "reset of an array", o.reset, numpy.ones(2))
    ctx.ok(o.frequency == 0.1 and o.rate == 0.2, "frequency and rate after rejections")
    y, e, b = o.filter([1.0 + 0j])
    ctx.close("coefficient after rejections", b, [numpy.exp(0.1j * numpy.pi)], 1e-12)
    ctx.tag("rejected frequency", "rejected rate", "rejected empty", "rejected reset")
    ctx.note(frequency=v, rate=w)
    ctx.sig(v, w)


KINDS = dict(history=Kind(history, 25200, 756000), tracking=Kind(tracking, 7200, 216000), scaling=Kind(scaling, 7200, 216000), rejects=Kind(rejects, 240, 400))
