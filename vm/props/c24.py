import numpy

from diamondback import DiversityModel
from vm import gen
from vm.engine import Kind
from vm.props.c05 import case

RULE = ("Each case feeds a diversity model of random style, order and width a random history of fits and clears (clustered, duplicate, outlying, integer "
        "and list observations), one observation at a time, and judges every step: members are presented observations, the exchange is the best "
        "and is made exactly when it improves, the reported value is the minimum distance. Batch cases compare a batch with its observations one by one. "
        "Signatures are the history.")
ASSUMPTIONS = ["orders are 1 to 8; exchanges whose gain is within 1e-9 relative of a tie may go either way"]
STYLES = ("Chebyshev", "Euclidean", "Geometric", "Manhattan")
REACH = STYLES + ("large batch", "wide", "offset", "filling", "exchanged", "kept", "duplicates", "cleared", "width changed", "order 1", "order 8", "width 1", "batch", "int", "list", "zero diversity",
                  "rejected style", "rejected order", "rejected width", "rejected empty")


def distance(style, x, y):
    d = numpy.abs(numpy.asarray(x, float) - numpy.asarray(y, float))
    if style == "Chebyshev":
        return d.max()
    if style == "Euclidean":
        return numpy.sqrt((d * d).sum())
    if style == "Manhattan":
        return d.sum()
    return float(numpy.exp(numpy.log(d).mean())) if (d > 0).all() else 0.0


def least(style, s):
    return min(distance(style, s[i], s[j]) for i in range(len(s)) for j in range(i))


def observations(rng, n, width):
    k = rng.integers(0, 5)
    if k == 0:
        return rng.normal(size=(n, width)), "normal"
    if k == 1:
        return rng.integers(-3, 4, (n, width)), "int"
    if k == 2:
        return rng.normal(size=(n, width)) * 0.01 + rng.integers(-2, 3, (n, 1)), "clusters"
    if k == 3:
        x = rng.normal(size=(n, width)) * 10.0 ** rng.uniform(-3, 3, (n, 1))
        return x, "outliers"
    return numpy.repeat(rng.normal(size=((n + 1) // 2, width)), 2, axis=0)[:n], "duplicates"


def same(s, t):
    """Multisets of rows are equal."""
    key = lambda v: tuple(float(u) for u in v)
    return sorted(map(key, s)) == sorted(map(key, t))


def history(ctx):
    rng = ctx.rng
    style = STYLES[ctx.idx % 4]
    order = int(rng.choice([1, 2, 3, rng.integers(1, 9), 8]))
    o = DiversityModel(style=case(rng, style), order=order)
    members, width, value = [], None, 0.0
    log, steps = [order], 0
    for _ in range(int(rng.integers(1, 5))):
        if width is not None and rng.uniform() < 0.2:
            o.clear()
            ctx.tag("cleared")
            members, width, value = [], None, 0.0
            ctx.ok(numpy.shape(o.s)[0] == order + 1, "order after clear", shape=numpy.shape(o.s))
            log.append("clear")
        if width is None:
            w = int(rng.integers(1, 5))
            if log[-1] == "clear":
                ctx.tag("width changed")
            if rng.uniform() < 0.06:
                w = int(rng.integers(12, 80))
                ctx.tag("wide")
            scale = 10.0 ** rng.uniform(-12, 12) if w > 8 or rng.uniform() < 0.1 else 1.0
            offset = rng.normal(size=w) * 10.0 ** rng.uniform(3, 7) if rng.uniform() < 0.1 and scale == 1.0 else 0.0
            if numpy.ndim(offset):
                ctx.tag("offset")
            width = w
        x, d = observations(rng, int(rng.integers(1, 3 * (order + 1) + 6)), width)
        if scale != 1.0:
            x = x * scale
        elif numpy.ndim(offset):
            x = x + offset
        log.append((d, len(x), x[0]))
        for row in x:
            y = o.fit([row.tolist()] if rng.uniform() < 0.3 else row[numpy.newaxis, :])
            ctx.event()
            steps += 1
            s = numpy.array(o.s)
            ctx.ok(numpy.shape(y) == (1,), f"result of shape {numpy.shape(y)} for one observation")
            ctx.ok(s.shape == (order + 1, width), f"state of shape {s.shape}, expected {(order + 1, width)}")
            row = [float(v) for v in row]
            if len(members) < order + 1:
                members.append(row)
                ctx.tag("filling")
                k = len(members)
                ctx.ok(same(s[:k], members), "first observations are all kept", members=members, state=s)
                continue
            now = least(style, members)
            best, options = -1.0, []
            for i in range(order + 1):
                t = members[:i] + [row] + members[i + 1 :]
                v = least(style, t)
                options.append((v, t))
                best = max(best, v)
            slack = 1e-9 * (best + now) + 1e-300
            kept = same(s, members)
            if kept:
                ctx.ok(best <= now + slack, "an improving observation is exchanged", diversity=now, improved=best, style=style)
                ctx.tag("kept")
            else:
                match = [v for v, t in options if same(s, t)]
                ctx.ok(match, "state differs from the previous one by the observation alone", state=s, members=members, observation=row)
                ctx.ok(max(match) >= best - slack, "the exchange is the best one", diversity=max(match), best=best, style=style)
                ctx.ok(best > now - slack, "an exchange is made only when it improves", diversity=best, before=now, style=style)
                members = [v.tolist() for v in s]
                ctx.tag("exchanged")
            new = least(style, members)
            ctx.close("reported diversity is the minimum distance", y[0], new, 1e-9 * new + 1e-300, style=style)
            ctx.ok(y[0] >= value - 1e-9 * abs(value), "diversity never decreases", before=value, after=y[0])
            value = float(y[0])
            if not value:
                ctx.tag("zero diversity")
        ctx.tag(d if d != "int" else "int", "list")
    ctx.tag(style, *([f"order {order}"] if order in (1, 8) else []), *(["width 1"] if width == 1 else []))
    ctx.note(style=style, order=order, width=width, observations=steps, diversity=value)
    ctx.sig(style, log)


def batch(ctx):
    rng = ctx.rng
    style, order, width = STYLES[ctx.idx % 4], int(rng.integers(1, 6)), int(rng.integers(1, 4))
    u, v = DiversityModel(style, order), DiversityModel(style, order)
    n = int(rng.integers(1, 30)) if rng.uniform() < 0.92 else int(rng.integers(60, 600))
    if n > 128:
        ctx.tag("large batch")
    x, d = observations(rng, n, width)
    cuts, how = gen.split(rng, n)
    y = numpy.concatenate([u.fit(x[i:j] if rng.uniform() < 0.7 else x[i:j].tolist()) for i, j in zip(cuts, cuts[1:])])
    z = numpy.concatenate([v.fit(x[i : i + 1]) for i in range(n)])
    ctx.event(2 * n)
    ctx.close("a batch gives the values of its observations one by one", y, z, 1e-12 * (numpy.abs(z).max() + 1e-300), style=style, split=how)
    ctx.close("a batch leaves the state of its observations one by one", u.s, v.s, 1e-12 * numpy.abs(v.s).max())
    ctx.tag("batch")
    ctx.note(style=style, order=order, width=width, observations=n, split=how)
    ctx.sig(style, order, width, n, d, cuts)


def rejects(ctx):
    rng = ctx.rng
    style = STYLES[ctx.idx % 4]
    ctx.raises(ValueError, "style", DiversityModel, str(rng.choice(["", "Euclid", "Cosine", "Manhattann"])), 2)
    ctx.raises(ValueError, "order", DiversityModel, style, -int(rng.integers(1, 5)))
    o = DiversityModel(style, 2)
    w = int(rng.integers(1, 4))
    ctx.raises(ValueError, "empty", o.fit, [])
    ctx.raises(ValueError, "one dimension", o.fit, rng.normal(size=4))
    ctx.raises(ValueError, "no columns", o.fit, numpy.zeros((3, 0)))
    ctx.raises(ValueError, "no rows", o.fit, numpy.zeros((0, 3)))
    o.fit(rng.normal(size=(2, w)))
    s = numpy.array(o.s)
    ctx.raises(ValueError, "width", o.fit, rng.normal(size=(2, w + int(rng.integers(1, 3)))))
    ctx.ok((numpy.array(o.s) == s).all(), "state after rejection")
    ctx.tag("rejected style", "rejected order", "rejected width", "rejected empty")
    ctx.note(style=style, width=w)
    ctx.sig(style, w)


KINDS = dict(history=Kind(history, 1920, 57600), batch=Kind(batch, 960, 28800), rejects=Kind(rejects, 32, 60))
