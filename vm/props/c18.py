import numpy

from diamondback import PolyphaseRateFilter
from vm import gen
from vm.engine import Kind

RULE = ("Each case runs a polyphase rate filter at a random rate in (0, 256] over a random split of a signal, optionally after a history at another "
        "rate or a reset, tracks the phase accumulator independently and compares the number of samples emitted after every call and every value with "
        "the inner product of the true last 15 samples and the bank phase. Gain cases apply constants and low-frequency tones. Signatures are (rate, signal, split).")
ASSUMPTIONS = ["signals are real", "the bank is read from the class; its phases are judged by unity gain at zero frequency and by the tone cases",
               "an assignment of a different rate restarts at phase zero",
               "either neighbour is accepted where the accumulated phase lies within rounding of the middle of two phases or of a sample instant"]
REACH = ("vast", "rate below 1", "rate above 1", "rate 1", "rate 256", "integer rate", "irrational", "split", "long", "constant", "tone", "additive", "rate changed", "reset",
         "same rate assigned", "rejected rate", "rejected empty", "rejected reset", "very low rate", "slow and long")


def rates(rng):
    return float(rng.choice([rng.uniform(0.02, 1.0), rng.uniform(1.0, 6.0), rng.integers(1, 9), 1.0 / rng.integers(1, 9), rng.integers(1, 12) / rng.integers(1, 12),
                             1.0, numpy.pi / rng.integers(1, 9), 10.0 ** rng.uniform(-2.5, 2.4), 256.0, rng.uniform(200, 256)],
                            p=[0.2, 0.2, 0.1, 0.1, 0.12, 0.05, 0.1, 0.07, 0.03, 0.03]))


def history(ctx):
    rng = ctx.rng
    rate = gen.brief(rng, rates(rng))
    slow = rng.uniform() < 0.02
    if slow:
        rate = float(10.0 ** rng.uniform(-4.5, -2.5))
        ctx.tag("slow and long")
    window = numpy.zeros(15)
    if rng.uniform() < 0.3:
        o = PolyphaseRateFilter(rates(rng))
        if numpy.isclose(o.rate, rate):
            o.rate = 2.0 * rate if rate <= 100 else 1.0
        x = rng.normal(size=int(rng.integers(1, 40)))
        o.filter(x)
        window = numpy.concatenate((x[::-1], window))[:15]
        o.rate = gen.number(rng, rate)
        ctx.ok(o.rate == rate, "rate after assignment")
        ctx.tag("rate changed")
    else:
        o = PolyphaseRateFilter(rate=gen.number(rng, rate))
    if rng.uniform() < 0.3:
        v = float(rng.normal())
        o.reset(v)
        window[:] = v
        ctx.tag("reset")
    bank = numpy.array(o.b)
    ctx.ok(bank.shape == (256, 15), f"bank of shape {bank.shape}")
    ctx.close("every phase has unity gain at zero frequency", bank.sum(axis=1), numpy.ones(256), 1e-12)
    top = max(20, min(300, int(4000 / rate)))
    n = gen.length(rng, top)
    if slow:
        n = int(rng.uniform(1.0, 6.0) / rate)
    n = gen.vast(ctx, n, 0.008) if rate <= 1 else n
    x, d = gen.signal(rng, n, ("real", "real", "int"))
    h = numpy.concatenate((window[::-1], numpy.asarray(x, float)))
    cuts, style = gen.split(rng, n)
    out, used = 0, 0
    level = float(numpy.abs(h).max())
    for i, j in zip(cuts, cuts[1:]):
        if rng.uniform() < 0.1:
            o.rate = rate
            ctx.tag("same rate assigned")
        y = numpy.asarray(o.filter(gen.container(rng, x[i:j])))
        ctx.event(j - i)
        ctx.ok(y.ndim == 1 and y.dtype.kind == "f", f"result of shape {y.shape} type {y.dtype}")
        used = j
        ctx.ok(abs(out + len(y) - rate * used) <= 1.0 + 1e-9 * used, "samples emitted against rate times consumed", emitted=out + len(y), consumed=used, rate=rate, split=style)
        for m in range(len(y)):
            t = (out + m) / rate
            slack = 1e-13 * (out + m + 1) * max(1.0, t)
            ok = False
            near = []
            for s in sorted({int(numpy.floor(t - slack)), int(numpy.floor(t + slack))}):
                if not i <= s < j:
                    continue
                p = min(max((t - s) * 256.0, 0.0), 256.0)
                for k in range(max(0, int(p - 0.5 - 256 * slack)), min(255, int(p + 1.0)) + 1):
                    if abs(k - p) <= 0.5 + 256.0 * slack + 1e-9 or (k == 255 and p > 255):
                        w = float(bank[k] @ h[s + 1 : s + 16][::-1])
                        near.append((s, k, w))
                        ok = ok or abs(w - y[m]) <= 1e-12 * level
            ctx.checks += 1
            if not ok:
                ctx.fail("emitted sample is the inner product with its bank phase", got=y[m], candidates=near, index=out + m, time=t, rate=rate, call=(i, j))
        out += len(y)
    ctx.ok(abs(out - rate * n) <= 1.0 + 1e-9 * n, "total emitted", emitted=out, consumed=n, rate=rate)
    ctx.tag("rate 1" if rate == 1 else "rate below 1" if rate < 1 else "rate above 1", *(["rate 256"] if rate == 256 else []),
            *(["integer rate"] if rate == int(rate) else ["irrational"]), *(["very low rate"] if rate < 0.02 else []),
            *(["split"] if len(cuts) > 2 else []), *(["long"] if n > 150 else []))
    ctx.note(rate=rate, samples=n, emitted=out, signal=d, split=style)
    ctx.sig(rate, n, d, style, x[:2])


def gain(ctx):
    rng = ctx.rng
    rate = float(rng.choice([rng.uniform(0.25, 1.0), rng.uniform(1.0, 6.0), rng.integers(1, 9), 0.5]))
    o = PolyphaseRateFilter(gen.number(rng, rate))
    n = int(rng.integers(40, 200))
    cuts, style = gen.split(rng, n)
    if rng.uniform() < 0.4:
        v = rng.normal() * 10.0 ** rng.uniform(-6, 6)
        ready = rng.uniform() < 0.5
        if ready:
            o.reset(v)
        y = numpy.concatenate([o.filter(numpy.full(j - i, v)) for i, j in zip(cuts, cuts[1:])])
        y = y if ready else y[int(numpy.ceil(15 * rate)) + 1 :]
        ctx.close("constant keeps its value", y, numpy.full(len(y), v), 1e-12 * abs(v), rate=rate)
        ctx.tag("constant")
        ctx.note(rate=rate, value=v)
        ctx.sig(rate, v)
    else:
        f, a, q = rng.uniform(0.02, 0.3) , rng.uniform(0.1, 10.0), rng.uniform(-1, 1)
        x = a * numpy.cos(numpy.pi * (f * numpy.arange(n) + q))
        y = numpy.concatenate([o.filter(x[i:j]) for i, j in zip(cuts, cuts[1:])])
        k = int(numpy.ceil(15 * rate)) + 1
        t = numpy.arange(len(y)) / rate - (15 * 256 - 1) / 512.0
        ctx.close("tone keeps amplitude and phase at the scaled frequency", y[k:], a * numpy.cos(numpy.pi * (f * t + q))[k:], 0.02 * a, rate=rate, frequency=f)
        ctx.tag("tone")
        ctx.note(rate=rate, frequency=f, amplitude=a)
        ctx.sig(rate, f, a)
    ctx.event(n)


def additive(ctx):
    rng = ctx.rng
    rate = gen.brief(rng, rates(rng))
    n = gen.length(rng, max(20, min(150, int(2000 / rate))))
    u, v = rng.normal(size=n), rng.normal(size=n)
    a, b = rng.normal(size=2)
    f, g, h = (PolyphaseRateFilter(rate) for _ in range(3))
    ctx.event(3 * n)
    ctx.close("linearity", f.filter(a * u + b * v), a * g.filter(u) + b * h.filter(v), 1e-12 * (abs(a) + abs(b)) * 10, rate=rate)
    ctx.tag("additive")
    ctx.note(rate=rate, samples=n)
    ctx.sig(rate, n, a)


def rejects(ctx):
    rng = ctx.rng
    v = float(rng.choice([-1e-12, -1.0, 256.0 + 1e-9, 257.0, numpy.inf]))
    ctx.raises(ValueError, f"rate {v}", PolyphaseRateFilter, v)
    o = PolyphaseRateFilter(1.5)
    ctx.raises(ValueError, f"rate {v}", lambda: setattr(o, "rate", v))
    ctx.ok(o.rate == 1.5, "rate after rejection")
    ctx.raises(ValueError, "empty", o.filter, [])
    ctx.raises(ValueError, "reset of an array", o.reset, numpy.ones(2))
    ctx.tag("rejected rate", "rejected empty", "rejected reset")
    ctx.note(rate=v)
    ctx.sig(v, rng.uniform())


KINDS = dict(history=Kind(history, 4000, 120000), gain=Kind(gain, 1600, 48000), additive=Kind(additive, 800, 24000), rejects=Kind(rejects, 60, 200))
