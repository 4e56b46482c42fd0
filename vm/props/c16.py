import numpy

from diamondback import GoertzelFilter, WindowFilter
from vm import gen, oracle
from vm.engine import Kind

RULE = ("Each case runs a Goertzel filter of random window and frequency over a random history of calls (real, integer or complex signals; splits from "
        "single samples to many blocks), with assignments of frequency between blocks, and compares the number of values and each magnitude with the "
        "discrete-time Fourier transform of the true block. Signatures are (window, frequencies, signal, split).")
ASSUMPTIONS = ["a block that mixes real and complex calls, or has its frequency assigned within, has no single magnitude and is only counted",
               "rounding up to 1e-15 N^3 of the block magnitude, the growth of a second-order resonator, is accepted"]
REACH = ("vast", "real", "complex", "int", "length 1", "window", "real and complex calls", "partial block", "many blocks", "frequency assigned", "recursion assigned", "frequency assigned within a block", "zero frequency", "Nyquist", "negative frequency",
         "integer window", "zeros in window", "rejected window", "rejected frequency", "rejected empty")


def history(ctx):
    rng = ctx.rng
    n = int(rng.choice([1, 2, 3, rng.integers(1, 20), rng.integers(20, 100)]))
    k = rng.integers(0, 4)
    if k == 0:
        w = numpy.array(WindowFilter(str(rng.choice(WindowFilter.STYLE)), n + 1).b)[1:-1]
        ctx.tag("window")
        w = w if len(w) == n else numpy.ones(n)
    elif k == 1:
        w = rng.integers(1, 5, n)
        ctx.tag("integer window")
    else:
        w = rng.normal(size=n)
        w[rng.integers(0, n)] += 1.0
        if n > 1 and rng.uniform() < 0.4:
            # Samples the window ignores, at the ends or inside.
            z = rng.uniform(size=n) < 0.4 if rng.uniform() < 0.5 else numpy.arange(n) % (n - 1) == 0
            z[int(rng.integers(0, n))] = False
            w[z] = 0.0
            if w.any() and z.any():
                ctx.tag("zeros in window")
        if not w.any():
            w[0] = 1.0
    f = gen.brief(rng, float(rng.choice([rng.uniform(-1, 1), rng.uniform(-1, 1), 0.0, 1.0, -1.0, 0.5])))
    o = GoertzelFilter(b=gen.container(rng, w), frequency=gen.number(rng, f))
    total = int(rng.integers(1, 400)) if rng.uniform() < 0.7 else n * int(rng.integers(1, 8))
    total = gen.vast(ctx, total, 0.002)
    x, d = gen.signal(rng, total)
    kind = d.split(":")[0]
    cuts, style = gen.split(rng, total)
    factors = numpy.full(total, 1.0 if numpy.iscomplexobj(x) else 2.0)
    if kind == "complex" and rng.uniform() < 0.4:
        # Some calls present real parts only; a block is judged when its calls are all of one kind.
        for i, j in zip(cuts, cuts[1:]):
            if rng.uniform() < 0.5:
                x[i:j], factors[i:j] = x[i:j].real, 2.0
        ctx.tag("real and complex calls")
    moves = rng.uniform() < 0.4
    if moves:
        cuts = sorted(set(cuts) | {b for b in range(0, total, n) if rng.uniform() < 0.5})
    within = moves and rng.uniform() < 0.3
    mixed = set()  # blocks with a frequency assigned within
    log, blocks, at = [f], 0, 0
    for i, j in zip(cuts, cuts[1:]):
        if moves and (i % n == 0 or within) and rng.uniform() < 0.6:
            if i % n:
                mixed.add(i // n)
                ctx.tag("frequency assigned within a block")
            f = gen.brief(rng, float(rng.choice([rng.uniform(-1, 1), 0.0, 1.0, -1.0, -f, f])))
            if rng.uniform() < 0.1:
                # The recursion of another frequency, by assignment, is replaced.
                o.a = [[0, int(rng.integers(-2, 3)), -1], numpy.array([0.0, 1.5, -1.0])][rng.integers(0, 2)]
                ctx.tag("recursion assigned")
            o.frequency = gen.number(rng, f)
            ctx.ok(o.frequency == f, "frequency after assignment")
            ctx.tag("frequency assigned")
            log.append(f)
        y = o.filter(gen.container(rng, x[i:j] if factors[i] == 1.0 else x[i:j].real))
        ctx.event(j - i)
        m = j // n - i // n
        ctx.ok(numpy.shape(y) == (m,), f"{numpy.shape(y)} values emitted for {m} blocks completed", samples=(i, j), length=n)
        for v in range(m):
            u = w * x[(i // n + v) * n : (i // n + v + 1) * n]
            factor = factors[(i // n + v) * n : (i // n + v + 1) * n]
            if (factor != factor[0]).any() or i // n + v in mixed:
                continue
            factor = factor[0]
            level = numpy.abs(u).sum() * factor / n
            ctx.close("magnitude", abs(y[v]), abs(oracle.dtft(u, f)[0]) * factor / n, (1e-13 + 1e-15 * n**3) * level + 1e-300, frequency=f, length=n, block=i // n + v,
                      signal=d, split=style)
        blocks += m
    ctx.tag(kind, *(["length 1"] if n == 1 else []), *(["partial block"] if style == "ones" or total % n else []), *(["many blocks"] if blocks > 3 else []),
            *(["zero frequency"] if 0.0 in log else []), *(["Nyquist"] if 1.0 in log or -1.0 in log else []), *(["negative frequency"] if min(log) < 0 else []))
    ctx.note(length=n, frequencies=log, samples=total, blocks=blocks, signal=d, split=style)
    ctx.sig(n, w, log, total, d, style)
    ctx.trivial = not blocks


def rejects(ctx):
    rng = ctx.rng
    v = float(rng.choice([-1.0, 1.0]) * (1.0 + rng.choice([1e-12, 1e-3, 5.0, numpy.inf])))
    ctx.raises(ValueError, f"frequency {v}", GoertzelFilter, numpy.ones(5), v)
    o = GoertzelFilter(numpy.ones(5), 0.25)
    ctx.raises(ValueError, f"frequency {v}", lambda: setattr(o, "frequency", v))
    ctx.ok(o.frequency == 0.25, "frequency after rejection")
    ctx.raises(ValueError, "vanishing window", GoertzelFilter, numpy.zeros(int(rng.integers(1, 9))), 0.1)
    ctx.raises(ValueError, "empty window", GoertzelFilter, [], 0.1)
    ctx.raises(ValueError, "empty signal", o.filter, [])
    x = rng.normal(size=5)
    ctx.close("magnitude after rejections", abs(o.filter(x)), [abs(oracle.dtft(x, 0.25)[0]) * 0.4], 1e-12 * numpy.abs(x).sum())
    ctx.tag("rejected window", "rejected frequency", "rejected empty")
    ctx.note(frequency=v)
    ctx.sig(v, x)


KINDS = dict(history=Kind(history, 19200, 576000), rejects=Kind(rejects, 240, 300))
