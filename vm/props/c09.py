import numpy

from diamondback import ComplexBandpassFilter
from vm import gen
from vm.engine import Kind

RULE = ("Each case runs a random history of filter calls (tones, noise, bursts; real or complex) with assignments of frequency and rate in between, "
        "and compares y, e and b of every sample with an independent evaluation of the adaptation law whose coefficient and phase carry over. "
        "Tracking cases apply a stationary tone at the specified frequency and compare the error with (1-rate)^n. Signatures are the history.")
ASSUMPTIONS = ["rounding up to 1e-11 of the signal magnitude times the square root of the samples consumed is accepted"]
REACH = ("vast", "filter", "real", "complex", "assign frequency", "assign rate", "assign b", "assign real b", "rate 0", "rate 1", "tracking", "rejected frequency", "rejected rate", "rejected empty", "extreme frequency", "long")


def analytic(d):
    """Analytic signal by suppression of negative frequencies."""
    d = numpy.asarray(d)
    if numpy.iscomplexobj(d):
        return d
    n = len(d)
    z = numpy.fft.fft(d)
    z[1 : (n + 1) // 2] *= 2.0
    z[n // 2 + 1 :] = 0.0
    return numpy.fft.ifft(z)


def primary(rng, n):
    k = rng.integers(0, 4)
    t = numpy.arange(n)
    if k == 0:
        return numpy.exp(1j * numpy.pi * (rng.uniform(-1, 1) * t + rng.uniform(-1, 1))) * rng.uniform(0.1, 5.0)
    if k == 1:
        return gen.signal(rng, n, ("real",))[0]
    if k == 2:
        return gen.signal(rng, n, ("complex",))[0]
    return gen.signal(rng, n, ("int",))[0]


def history(ctx):
    rng = ctx.rng
    f = gen.brief(rng, float(rng.choice([rng.uniform(-1, 1), rng.uniform(-1, 1), 0.0, 1.0, -1.0])))
    r = gen.brief(rng, float(rng.choice([rng.uniform(0, 1), 10.0 ** rng.uniform(-4, 0), 0.0, 1.0])))
    o = ComplexBandpassFilter(frequency=gen.number(rng, f), rate=gen.number(rng, r))
    b, p, used, level, longest = None, numpy.longdouble(0), 0, 0.0, 0
    log = [f, r]
    for _ in range(int(rng.integers(1, 9))):
        k = rng.uniform()
        if k < 0.12:
            f = gen.brief(rng, float(rng.choice([rng.uniform(-1, 1), 1.0, -1.0])))
            o.frequency = gen.number(rng, f)
            ctx.ok(o.frequency == f, "frequency after assignment")
            ctx.tag("assign frequency")
            log.append(("f", f))
            continue
        if k < 0.24:
            r = gen.brief(rng, float(rng.choice([rng.uniform(0, 1), 0.0, 1.0])))
            o.rate = gen.number(rng, r)
            ctx.ok(o.rate == r, "rate after assignment")
            ctx.tag("assign rate")
            log.append(("r", r))
            continue
        if k < 0.3:
            b = complex(*rng.normal(size=2)) * rng.choice([0.3, 1.0, 30.0])
            b = b if rng.uniform() < 0.6 else float(b.real) or 0.5
            o.b = [[b], (b,), numpy.array([b])][rng.integers(0, 3)]
            ctx.tag("assign real b" if isinstance(b, float) else "assign b")
            b = complex(b)
            level = max(level, abs(b))
            ctx.tag("assign b")
            log.append(("b", b))
            continue
        n = gen.vast(ctx, gen.length(rng, 120, tail=1500), 0.0004)
        if n > 256:
            ctx.tag("long")
        d = primary(rng, n)
        y, e, c = o.filter(gen.container(rng, d))
        ctx.event(n)
        z = analytic(d)
        level = max(level, float(numpy.abs(z).max()))
        used += n
        longest = max(longest, n)
        # Phase accumulates over a call, at a magnitude that grows with the call.
        tol = (1e-11 * numpy.sqrt(used) + 1e-15 * longest * longest) * (level + 1e-4)
        for v in (y, e, c):
            ctx.ok(numpy.shape(v) == (n,), f"result of {numpy.shape(v)} for {n} samples")
        if b is None:
            ctx.ok(abs(c[0]) <= 1e-9, "initial coefficient vanishes", b=c[0])
            b = complex(c[0])
        q = p + numpy.longdouble(f) * numpy.arange(n + 1)
        x = numpy.exp(1j * numpy.pi * (q[:-1] - 2 * numpy.round(q[:-1] / 2)).astype(float))
        p = q[-1] - 2 * numpy.round(q[-1] / 2)
        wy, we, wb = numpy.zeros(n, complex), numpy.zeros(n, complex), numpy.zeros(n, complex)
        for i in range(n):
            wb[i] = b
            wy[i] = b * x[i]
            we[i] = z[i] - wy[i]
            b += r * we[i] * x[i].conjugate()
        ctx.close("b", c, wb, tol, frequency=f, rate=r)
        ctx.close("y", y, wy, tol, frequency=f, rate=r)
        ctx.close("e", e, we, tol, frequency=f, rate=r)
        ctx.tag("filter", "complex" if numpy.iscomplexobj(d) else "real", *(["rate 0"] if r == 0 else []), *(["rate 1"] if r == 1 else []),
                *(["extreme frequency"] if abs(f) == 1 else []))
        log.append((n, d[:2]))
    ctx.note(frequency=f, rate=r, calls=len(log) - 2, samples=used, b=b)
    ctx.sig(log)
    ctx.trivial = not used


def tracking(ctx):
    rng = ctx.rng
    f, r = float(rng.uniform(-1, 1)), float(rng.choice([rng.uniform(0.01, 1.0), 1.0, 0.1]))
    a = complex(*rng.normal(size=2))
    n = gen.length(rng, 200, 10)
    d = a * numpy.exp(1j * numpy.pi * f * numpy.arange(n))
    o = ComplexBandpassFilter(f, r)
    cuts, _ = gen.split(rng, n)
    parts = [o.filter(d[i:j]) for i, j in zip(cuts, cuts[1:])]
    y, e, b = (numpy.concatenate([v[i] for v in parts]) for i in range(3))
    ctx.event(n)
    ctx.close("error decays as (1 - rate)^n", numpy.abs(e), abs(a) * (1.0 - r) ** numpy.arange(n), 1e-10 * abs(a) * n + 1e-12, frequency=f, rate=r)
    ctx.close("coefficient converges to the component", b[-1], a * (1.0 - (1.0 - r) ** (n - 1)), 1e-10 * abs(a) * n + 1e-12)
    ctx.tag("tracking")
    ctx.note(frequency=f, rate=r, component=a, samples=n, final_error=abs(e[-1]))
    ctx.sig(f, r, a, n)


def rejects(ctx):
    rng = ctx.rng
    v = float(rng.choice([-1.0, 1.0]) * (1.0 + rng.choice([1e-12, 1e-3, 5.0, numpy.inf])))
    w = float(rng.choice([-1e-12, -1.0, 1.0 + 1e-12, 7.0, numpy.inf]))
    o = ComplexBandpassFilter(0.1, 0.2)
    ctx.raises(ValueError, f"frequency {v}", ComplexBandpassFilter, v, 0.1)
    ctx.raises(ValueError, f"frequency {v}", lambda: setattr(o, "frequency", v))
    ctx.raises(ValueError, f"rate {w}", ComplexBandpassFilter, 0.1, w)
    ctx.raises(ValueError, f"rate {w}", lambda: setattr(o, "rate", w))
    ctx.raises(ValueError, "empty", o.filter, [])
    ctx.ok(o.frequency == 0.1 and o.rate == 0.2, "frequency and rate after rejections")
    ctx.tag("rejected frequency", "rejected rate", "rejected empty")
    ctx.note(frequency=v, rate=w)
    ctx.sig(v, w)


KINDS = dict(history=Kind(history, 28800, 864000), tracking=Kind(tracking, 9600, 288000), rejects=Kind(rejects, 240, 400))
