import numpy

from diamondback import ComplexExponentialFilter
from vm import gen
from vm.engine import Kind

RULE = ("Each case runs a random history of filter calls (constant, extreme, alternating, integer, swept and random frequency signals in several "
        "containers) and phase assignments, and compares every output with exp(j pi p[n]) for a phase accumulated in extended precision, and the "
        "phase property with that phase modulo 2 after each call. Signatures are the history; a case is non-trivial once a sample was compared.")
ASSUMPTIONS = ["phase errors up to the rounding of a double-precision accumulation of the samples consumed are accepted"]
REACH = ("vast", "filter", "assign phase", "extreme", "integers", "near", "wrapped", "many calls", "long call", "narrow type", "rejected frequency", "rejected complex", "rejected phase", "rejected empty")


def frequencies(rng, n):
    k = rng.integers(0, 8)
    if k == 7:
        x = rng.uniform(-0.9, 0.9) * (1.0 + numpy.clip(rng.normal(size=n), -3, 3) * 10.0 ** rng.uniform(-12, -3))
        return numpy.sort(x) if rng.uniform() < 0.5 else x, "near"
    if k == 0:
        return numpy.full(n, rng.uniform(-1, 1)), "constant"
    if k == 1:
        return numpy.full(n, rng.choice([-1.0, 1.0])), "extreme"
    if k == 2:
        return rng.choice([-1.0, 1.0, 0.5, -0.5, 0.0], n), "extreme"
    if k == 3:
        return rng.integers(-1, 2, n), "integers"
    if k == 4:
        return numpy.linspace(*rng.uniform(-1, 1, 2), n), "sweep"
    if k == 5:
        return numpy.full(n, rng.uniform(-1, 1) * 10.0 ** rng.uniform(-12, -3)), "slow"
    return rng.uniform(-1, 1, n), "random"


class Model:
    def __init__(self, phase):
        self.p, self.tol = numpy.longdouble(phase), 1e-14

    def filter(self, x):
        x = numpy.asarray(x, numpy.longdouble)
        p = self.p + numpy.concatenate(([numpy.longdouble(0)], numpy.cumsum(x)))
        t = self.tol + 3e-16 * numpy.concatenate(([0.0], numpy.cumsum(1.0 + numpy.abs(p[1:].astype(float)))))
        w = p - 2 * numpy.round(p / 2)
        a = numpy.pi * w[:-1].astype(float)
        self.p, self.tol, wrapped = w[-1], float(t[-1]), bool(numpy.abs(p[-1]) > 1)
        return numpy.cos(a) + 1j * numpy.sin(a), 4.0 * t[:-1] + 1e-14, wrapped


def apart(a, b):
    d = abs(float(a) - float(b)) % 2.0
    return min(d, 2.0 - d)


def history(ctx):
    rng = ctx.rng
    phase = gen.brief(rng, float(rng.choice([0.0, 1.0, -1.0, rng.uniform(-1, 1)])))
    o = ComplexExponentialFilter(phase=gen.number(rng, phase)) if rng.uniform() < 0.8 or phase else ComplexExponentialFilter()
    ctx.ok(o.phase == phase, "phase after construction", got=o.phase, want=phase)
    m = Model(phase)
    many = rng.uniform() < 0.1
    calls = int(rng.integers(60, 200)) if many else int(rng.integers(1, 8))
    log = [phase]
    for _ in range(calls):
        if rng.uniform() < 0.15:
            v = gen.brief(rng, float(rng.choice([0.0, 1.0, -1.0, rng.uniform(-1, 1)])))
            o.phase = gen.number(rng, v)
            m.p, m.tol = numpy.longdouble(v), 1e-14
            ctx.ok(apart(o.phase, v) <= 1e-15, "phase after assignment", got=o.phase, want=v)
            ctx.tag("assign phase")
            log.append(("phase", v))
            continue
        n = int(rng.integers(1, 6)) if many else gen.vast(ctx, gen.length(rng, 600 if rng.uniform() < 0.1 else 120), 0.0004)
        x, d = frequencies(rng, n)
        if rng.uniform() < 0.12:
            x = x.astype(rng.choice(["f4", "f4", "f2", "i1"]) if x.dtype.kind == "f" else rng.choice(["i1", "i2", "f4"]))
            x = numpy.clip(x, -1, 1)
            ctx.tag("narrow type")
        want, tol, wrapped = m.filter(x)
        y = o.filter(gen.container(rng, x))
        ctx.event(n)
        ctx.ok(numpy.iscomplexobj(y), "output is complex")
        ctx.close("unit magnitude", numpy.abs(y), numpy.ones(n), 1e-13)
        ctx.close("output", y, want, tol, signal=d)
        ctx.ok(-1.0 <= o.phase <= 1.0, "phase in [-1, 1]", phase=o.phase)
        ctx.ok(apart(o.phase, m.p) <= 2.0 * m.tol, "phase property equals accumulated phase", got=o.phase, want=float(m.p), tol=m.tol)
        ctx.tag("filter", d, *(["wrapped"] if wrapped else []), *(["long call"] if n > 200 else []))
        log.append((d, n, x[:2]))
    if many:
        ctx.tag("many calls")
    ctx.note(phase=phase, calls=len(log), end=o.phase)
    ctx.sig(log)


def rejects(ctx):
    rng = ctx.rng
    p = rng.uniform(-1, 1)
    o = ComplexExponentialFilter(p)
    x = rng.uniform(-1, 1, int(rng.integers(1, 9)))
    big = numpy.array(x)
    big[rng.integers(0, len(x))] = rng.choice([-1.0, 1.0]) * (1.0 + rng.choice([1e-12, 1e-3, 5.0, numpy.inf]))
    ctx.raises(ValueError, "frequency beyond one", o.filter, gen.container(rng, big))
    t = rng.choice(["i1", "i2", "i4", "i8"])
    whole = numpy.zeros(len(x), t)
    whole[rng.integers(0, len(x))] = rng.choice([numpy.iinfo(t).min, numpy.iinfo(t).max, 2, -2])
    ctx.raises(ValueError, "integer frequency beyond one", o.filter, whole)
    z = x + 0j
    z[rng.integers(0, len(x))] += 1j * rng.choice([1e-9, 0.1, -1.0])
    ctx.raises(ValueError, "complex frequency", o.filter, z)
    ctx.raises(ValueError, "empty", o.filter, [])
    v = float(rng.choice([-1.0, 1.0]) * (1.0 + rng.choice([1e-12, 1e-3, 5.0, numpy.inf])))
    ctx.raises(ValueError, f"phase {v}", ComplexExponentialFilter, v)
    ctx.raises(ValueError, f"phase {v}", lambda: setattr(o, "phase", v))
    ctx.ok(o.phase == p, "phase after rejections", got=o.phase, want=p)
    ctx.tag("rejected frequency", "rejected complex", "rejected empty", "rejected phase")
    ctx.note(rejected=v)
    ctx.sig(v, big)


KINDS = dict(history=Kind(history, 33600, 1008000), rejects=Kind(rejects, 360, 1000))
