import numpy

from diamondback import PidFilter
from vm import gen
from vm.engine import Kind

RULE = ("Each case runs a random history of filter calls (signals that drive the integral into and out of either limit, in several containers) with "
        "reassignments of limit and coefficients in between, and compares every output with an independent P, clamped I, D recurrence. Signatures are the history.")
ASSUMPTIONS = ["error signals and coefficients are real; rounding up to 1e-12 of the terms is accepted"]
REACH = ("vast", "filter", "saturated high", "saturated low", "recovers", "limit reassigned", "limit lowered", "b reassigned", "limit 0", "limit infinite", "int", "real",
         "rejected limit", "rejected b", "rejected empty")


def history(ctx):
    rng = ctx.rng
    b, kind = gen.coefficients(rng, 3, ("real", "int"))
    o = PidFilter(b=gen.container(rng, b))
    limit, integral, last, level = numpy.inf, 0.0, 0.0, 0.0
    log = [b]
    if rng.uniform() < 0.8:
        limit = gen.brief(rng, float(rng.choice([0.0, rng.exponential(), 10.0 * rng.exponential(), 1.0, rng.integers(1, 20)])))
        o.limit = gen.number(rng, limit)
        ctx.ok(o.limit == limit, "limit after assignment")
        log.append(limit)
    sat = None
    for _ in range(int(rng.integers(1, 10))):
        k = rng.uniform()
        if k < 0.15:
            v = gen.brief(rng, float(rng.choice([0.0, rng.exponential(), 10.0 * rng.exponential(), numpy.inf, rng.integers(1, 20)])))
            o.limit = gen.number(rng, v)
            ctx.tag("limit reassigned", *(["limit lowered"] if v < abs(integral) else []))
            limit = v
            log.append(("limit", v))
            continue
        if k < 0.3:
            b, kind = gen.coefficients(rng, 3, ("real", "int"))
            o.b = gen.container(rng, b)
            ctx.tag("b reassigned")
            log.append(("b", b))
            continue
        n = gen.vast(ctx, gen.length(rng, 100), 0.0003)
        if rng.uniform() < 0.4:
            x, d = rng.choice([-1.0, 1.0]) * numpy.abs(rng.normal(size=n)), "drive"
        elif rng.uniform() < 0.3:
            x, d = rng.integers(-9, 10, n), "int"
        else:
            x, d = gen.real(rng, n, scale=1.0)
        want, tol = numpy.zeros(n), numpy.zeros(n)
        for i in range(n):
            v = float(x[i])
            integral = min(max(integral + v, -limit), limit)
            level = max(level, abs(v), abs(integral))
            want[i] = b[0] * v + b[1] * integral + b[2] * (v - last)
            tol[i] = 1e-12 * (abs(b[0] * v) + abs(b[1]) * (abs(integral) + level) + abs(b[2]) * (abs(v) + abs(last))) + 1e-300
            last = v
            s = None if abs(integral) < limit else "saturated high" if integral > 0 else "saturated low"
            if sat and not s:
                ctx.tag("recovers")
            sat = s if limit else None
            if sat:
                ctx.tag(sat)
        y = o.filter(gen.container(rng, x))
        ctx.event(n)
        ctx.close("output", y, want, tol, limit=limit, b=b, signal=d)
        ctx.tag("filter", kind, *(["limit 0"] if limit == 0 else []), *(["limit infinite"] if limit == numpy.inf else []))
        log.append((d, n, x[:2]))
    ctx.note(b=b, limit=limit, operations=len(log), integral=integral)
    ctx.sig(log)


def rejects(ctx):
    rng = ctx.rng
    o = PidFilter([0.5, 0.25, 0.1])
    o.limit = 2.0
    v = -float(10.0 ** rng.uniform(-12, 3))
    ctx.raises(ValueError, f"limit {v}", lambda: setattr(o, "limit", v))
    ctx.raises(ValueError, "limit -inf", lambda: setattr(o, "limit", -numpy.inf))
    n = int(rng.choice([1, 2, 4, 5]))
    ctx.raises(ValueError, f"{n} coefficients", PidFilter, rng.normal(size=n))
    ctx.raises(ValueError, "empty", o.filter, [])
    ctx.ok(o.limit == 2.0, "limit after rejections", limit=o.limit)
    x = rng.normal(size=4)
    i = numpy.zeros(4)
    for k in range(4):
        i[k] = min(max((i[k - 1] if k else 0.0) + x[k], -2.0), 2.0)
    ctx.close("output after rejections", o.filter(x), 0.5 * x + 0.25 * i + 0.1 * numpy.diff(x, prepend=0.0), 1e-12)
    ctx.tag("rejected limit", "rejected b", "rejected empty")
    ctx.note(limit=v, length=n)
    ctx.sig(v, n)


KINDS = dict(history=Kind(history, 43200, 1296000), rejects=Kind(rejects, 300, 500))
