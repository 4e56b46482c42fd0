"""Generators of workloads: lengths, signals, containers, splits, coefficients."""

import math

import numpy

SIGNALS = ("normal", "uniform", "constant", "impulse", "step", "ramp", "tone", "alternating", "sparse", "dynamic",
           "integers", "zeros", "negative", "ties", "chirp", "walk", "burst", "decay", "near", "steps", "mirror")


def vast(ctx, n, p):
    """At times a length far beyond the usual, which internal blocks or buffers would divide."""
    if ctx.rng.uniform() < p:
        ctx.tag("vast")
        return int(ctx.rng.choice([ctx.rng.integers(1500, 4200), ctx.rng.integers(4000, 12000)]))
    return n


def length(rng, top=300, low=1, tail=0):
    """A length in [low, top], with small ones, powers of two and their neighbours favoured, and at times one up to tail."""
    if tail > top and rng.uniform() < 0.04:
        return int(rng.integers(top, tail + 1))
    k = rng.integers(0, 10)
    if k < 2:
        n = rng.integers(1, 5)
    elif k < 4:
        n = rng.integers(5, 33)
    elif k < 6:
        n = (1 << int(rng.integers(0, 12))) + rng.integers(-1, 2)
    else:
        n = rng.integers(1, top + 1)
    return int(min(max(n, low), top))


def magnitude(rng):
    """A scale of a signal: mostly one, at times small or large, and rarely extreme."""
    k = rng.uniform()
    return 1.0 if k < 0.7 else 10.0 ** rng.uniform(-8, 8) if k < 0.94 else 10.0 ** rng.uniform(-60, 60)


def real(rng, n, kind=None, scale=None):
    """A real signal and the name of its kind."""
    kind = kind or SIGNALS[rng.integers(0, len(SIGNALS))]
    t = numpy.arange(n)
    if kind == "normal":
        x = rng.normal(size=n)
    elif kind == "uniform":
        x = rng.uniform(-1.0, 1.0, n)
    elif kind == "constant":
        x = numpy.full(n, rng.normal())
    elif kind == "impulse":
        x = numpy.zeros(n)
        x[rng.integers(0, n)] = rng.normal()
    elif kind == "step":
        x = numpy.where(t < rng.integers(0, n + 1), rng.normal(), rng.normal())
    elif kind == "ramp":
        x = rng.normal() + rng.normal() * t
    elif kind == "tone":
        x = numpy.cos(math.pi * rng.uniform(0, 1) * t + rng.uniform(-3, 3)) * rng.uniform(0.1, 2.0)
    elif kind == "alternating":
        x = (-1.0) ** t * rng.uniform(0.5, 2.0)
    elif kind == "sparse":
        x = rng.normal(size=n) * (rng.uniform(size=n) < 0.2)
    elif kind == "dynamic":
        x = rng.normal(size=n) * 10.0 ** rng.uniform(-9, 9, n)
    elif kind == "integers":
        x = rng.integers(-9, 10, n).astype(float)
    elif kind == "zeros":
        x = numpy.zeros(n)
    elif kind == "negative":
        x = -rng.exponential(size=n)
    elif kind == "ties":
        x = rng.choice([-2.0, -1.0, 0.0, 1.0, 2.0], n)
    elif kind == "chirp":
        x = numpy.cos(math.pi * 0.5 * t * t / max(n, 1))
    elif kind == "walk":
        x = numpy.cumsum(rng.normal(size=n))
    elif kind == "near":
        x = rng.normal() * (1.0 + rng.normal(size=n) * 10.0 ** rng.uniform(-13, -3))
    elif kind == "steps":
        x = rng.normal(size=n)[numpy.sort(rng.integers(0, n, n))]
    elif kind == "mirror":
        x = rng.normal(size=n)
        x = x + rng.choice([-1.0, 1.0]) * x[::-1]
    elif kind == "decay":
        x = rng.normal(size=n) * numpy.exp(-numpy.minimum(t * rng.uniform(0.05, 3.0), 600.0))
    else:
        x = rng.normal(size=n) * 1e-3
        k = rng.integers(0, n)
        x[k : k + 5] += 1e3
    if scale is None:
        scale = magnitude(rng)
    return numpy.array(x * scale, float), kind


def cplx(rng, n, scale=None):
    """A complex signal and the name of its kind."""
    k = rng.integers(0, 7)
    if scale is None:
        scale = magnitude(rng)
    if k == 6:
        (a, u), b = real(rng, n, scale=1.0), rng.normal(size=n) * (rng.uniform(size=n) < 0.3)
        x, kind = (a + 1j * b, f"{u}+sparse j") if rng.uniform() < 0.7 else (b + 1j * a, f"sparse+j{u}")
    elif k == 0:
        x, kind = numpy.exp(1j * math.pi * (rng.uniform(-1, 1) * numpy.arange(n) + rng.uniform(-1, 1))), "tone"
    elif k == 1:
        x, kind = 1j * real(rng, n, scale=1.0)[0], "imaginary"
    elif k == 2:
        x, kind = real(rng, n, scale=1.0)[0] + 0j, "zero imaginary"
    else:
        (a, u), (b, v) = real(rng, n, scale=1.0), real(rng, n, scale=1.0)
        x, kind = a + 1j * b, f"{u}+j{v}"
    return x * scale, kind


def signal(rng, n, kinds=("real", "complex", "int")):
    """A signal as a float, complex or integer array, and a description."""
    k = kinds[rng.integers(0, len(kinds))]
    if k == "real":
        x, d = real(rng, n)
    elif k == "complex":
        x, d = cplx(rng, n)
    else:
        x, d = rng.integers(-100, 101, n), "int"
    return x, f"{k}:{d}"


def split(rng, n, style=None):
    """Boundaries 0 < ... < n cutting a length into non-empty pieces, and the style of the cut."""
    style = style or ("ones", "random", "halves", "firstone", "lastone", "equal")[rng.integers(0, 6)]
    if n == 1:
        return [0, 1], style
    if style == "ones":
        c = list(range(1, n)) if n <= 400 else list(range(1, 200)) + list(range(n - 200, n))
    elif style == "random":
        c = sorted(set(rng.integers(1, n, rng.integers(1, 12)).tolist()))
    elif style == "halves":
        c = [n // 2]
    elif style == "firstone":
        c = [1]
    elif style == "lastone":
        c = [n - 1]
    else:
        c = list(range(int(rng.integers(1, min(n, 40) + 1)), n, int(rng.integers(1, min(n, 40) + 1))))
    return [0] + [v for v in c if 0 < v < n] + [n], style


def container(rng, x):
    """The same values in a random container that any call accepts."""
    k = rng.integers(0, 6)
    if k == 0:
        return x.tolist()
    if k == 1:
        return tuple(x.tolist())
    if k == 2:
        y = numpy.zeros((len(x), 2), x.dtype)
        y[:, 0] = x
        return y[:, 0]
    if k == 3:
        return numpy.array(x[::-1])[::-1]
    if k == 4:
        y = numpy.array(x)
        y.flags.writeable = False
        return y
    return numpy.array(x)


def given(rng, v):
    """The same numbers as coefficients or state are given, and as they are then: at times a list, or in single precision."""
    k = rng.uniform()
    if k < 0.35:
        return v.tolist(), v
    if k < 0.5:
        with numpy.errstate(all="ignore"):
            w = v.astype(numpy.complex64 if numpy.iscomplexobj(v) else numpy.float32)
        u = w.astype(complex if numpy.iscomplexobj(v) else float)
        if numpy.isfinite(u).all() and (u.any() or not v.any()):
            return w, u
    return v, v


NARROW = (numpy.uint8, numpy.int16, numpy.int32, numpy.uint64)  # types whose own arithmetic is not that of the numbers


def number(rng, v):
    """The same number as another scalar type, where it has one."""
    k = rng.uniform()
    if k < 0.5 or not math.isfinite(v):
        return float(v)
    if k > 0.9 and float(numpy.float32(v)) == v:
        return numpy.float32(v)
    if v == int(v) and abs(v) < 2**53:
        return int(v) if k < 0.75 else NARROW[rng.integers(0, 4)](v) if 0 <= v < 256 and k < 0.8 else numpy.int64(v)
    return numpy.float64(v)


def brief(rng, v):
    """A number, at times rounded to one that single precision represents."""
    return float(numpy.float32(v)) if rng.uniform() < 0.2 else v


def shape(rng, b):
    """The coefficients brought to a shape that invites a shortcut, exactly or nearly."""
    b = numpy.array(b)
    n = len(b)
    k = rng.integers(0, 9)
    if k == 0:
        b = b + b[::-1]
    elif k == 1:
        b = b - b[::-1]
    elif k == 2:
        b[:] = b[0]
    elif k == 3:
        b[: rng.integers(0, n)] = 0
    elif k == 4:
        b[rng.integers(1, n + 1) :] = 0
    elif k == 5:
        j = rng.integers(0, n)
        b[:j], b[j + 1 :] = 0, 0
    elif k == 6:
        b[1::2] = 0
    elif k == 7:
        b = b[0] * (-1) ** numpy.arange(n)
    else:
        b = b / b[0] if b[0] else b
    if rng.uniform() < 0.5 and b.dtype.kind in "fc":
        e = numpy.abs(b).max() * 10.0 ** rng.uniform(-12, -3)
        b = b + e * rng.normal(size=n) * (rng.uniform(size=n) < rng.choice([1.0, 0.3]))
    return b


def coefficients(rng, n, kinds=("real", "complex", "int")):
    """A coefficient array and a description."""
    b, k = plain(rng, n, kinds)
    return (shape(rng, b) if rng.uniform() < 0.25 else b), k


def plain(rng, n, kinds):
    k = kinds[rng.integers(0, len(kinds))]
    if k == "real":
        b = rng.normal(size=n) * 10.0 ** rng.uniform(-3, 3)
        if rng.uniform() < 0.2:
            b[rng.uniform(size=n) < 0.5] = 0.0
    elif k == "complex":
        b = rng.normal(size=n) + 1j * rng.normal(size=n)
    else:
        b = rng.integers(-5, 6, n)
    return b, k


def poles(rng, n, radius=0.95, real_=True):
    """n poles inside the radius, conjugate-closed when real_."""
    p = []
    while len(p) < n:
        r = radius * math.sqrt(rng.uniform())
        if real_ and len(p) + 2 <= n and rng.uniform() < 0.7:
            z = r * numpy.exp(1j * rng.uniform(0, math.pi))
            p += [z, z.conjugate()]
        elif real_:
            p.append(r * rng.choice([-1.0, 1.0]))
        else:
            p.append(r * numpy.exp(1j * rng.uniform(-math.pi, math.pi)))
    return numpy.array(p, complex)


def recursive(rng, n, kind="real", radius=0.95):
    """A stable recursive coefficient array of n+1 values with a[0] = 0 in the library's sign convention."""
    if n == 0:
        return numpy.zeros(1)
    a = -numpy.poly(poles(rng, n, radius, kind == "real"))
    a[0] = 0.0
    return a.real if kind == "real" else a
