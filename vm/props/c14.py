import numpy

from diamondback import RankFilter
from vm import gen
from vm.engine import Kind

RULE = ("Each case runs a rank filter of random index and order over a random history of filter calls (real, integer or complex signals with ties, "
        "zeros and wide dynamic range), reassignments of index and resets, and checks for every sample that the output is a member of the true "
        "window and has the order statistic of its magnitudes. Signatures are the history.")
ASSUMPTIONS = ["among members of equal magnitude any is accepted"]
REACH = ("vast", "smallest", "largest", "median", "order 0", "order long", "order very long", "real", "int", "complex", "ties", "index reassigned", "reset", "reset complex", "split", "extreme",
         "rejected index", "rejected empty", "rejected reset")


def history(ctx):
    rng = ctx.rng
    n = int(rng.choice([0, 1, 2, rng.integers(0, 12), rng.integers(12, 40)]))
    if rng.uniform() < 0.04:
        n = int(rng.integers(40, 400))
        ctx.tag("order very long")
    i = int(rng.choice([0, n, n // 2, rng.integers(0, n + 1)]))
    o = RankFilter(index=i, order=n)
    w = numpy.zeros(n + 1, complex)
    log = [n, i]
    calls = 0
    for _ in range(int(rng.integers(1, 9))):
        k = rng.uniform()
        if k < 0.2:
            i = int(rng.integers(0, n + 1))
            o.index = i
            ctx.ok(o.index == i, "index after assignment")
            ctx.tag("index reassigned")
            log.append(("index", i))
            continue
        if k < 0.3:
            v = gen.signal(rng, 1)[0][0].item()
            o.reset(v)
            w[:] = v
            ctx.tag("reset complex" if isinstance(v, complex) else "reset")
            log.append(("reset", v))
            continue
        m = gen.length(rng, 80) if n < 40 else int(rng.integers(1, 2 * n))
        m = gen.vast(ctx, m, 0.0003) if n < 40 else m
        x, d = gen.signal(rng, m)
        if rng.uniform() < 0.08 and x.dtype.kind != "i":
            x = x / (numpy.abs(x).max() or 1.0) * 10.0 ** (rng.choice([-1, 1]) * rng.uniform(100, 290))
            d += " extreme"
            ctx.tag("extreme")
        y = o.filter(gen.container(rng, x))
        ctx.event(m)
        calls += 1
        ctx.ok(numpy.shape(y) == (m,), f"{numpy.shape(y)} results for {m} samples")
        h = numpy.concatenate((w[::-1], x))
        v = numpy.lib.stride_tricks.sliding_window_view(h, n + 1)[1:]
        mag = numpy.abs(v)
        want = numpy.sort(mag, axis=1)[:, i]
        ctx.close("magnitude has the rank", numpy.abs(y), want, want * 1e-15 if numpy.iscomplexobj(v) and v.imag.any() else 0.0, index=i, order=n, signal=d)
        member = (v == numpy.asarray(y)[:, None]).any(axis=1)
        ctx.ok(member.all(), "output is a member of its window", at=int(numpy.argmin(member)), got=y[int(numpy.argmin(member))], index=i, order=n)
        w = h[::-1][: n + 1].copy()
        ctx.tag(d.split(":")[0], "smallest" if i == 0 else "largest" if i == n else "median" if i == n // 2 else "inner",
                *(["order 0"] if n == 0 else ["order long"] if n >= 12 else []),
                *(["ties"] if n and (numpy.diff(numpy.sort(mag, axis=1)) == 0).any() else []))
        log.append((m, d, x[:2]))
    if calls > 1:
        ctx.tag("split")
    ctx.note(index=i, order=n, operations=log[2:6])
    ctx.sig(log)
    ctx.trivial = not calls


def rejects(ctx):
    rng = ctx.rng
    n = int(rng.integers(0, 9))
    v = int(rng.choice([-1, n + 1, -n - 5, n + 100]))
    ctx.raises(ValueError, f"index {v} order {n}", RankFilter, v, n)
    o = RankFilter(n // 2, n)
    ctx.raises(ValueError, f"index {v} order {n}", lambda: setattr(o, "index", v))
    ctx.ok(o.index == n // 2, "index after rejection")
    ctx.raises(ValueError, "empty", o.filter, [])
    ctx.raises(ValueError, "reset of an array", o.reset, numpy.ones(2))
    ctx.tag("rejected index", "rejected empty", "rejected reset")
    ctx.note(index=v, order=n)
    ctx.sig(v, n)


KINDS = dict(history=Kind(history, 43200, 1296000), rejects=Kind(rejects, 240, 300))
