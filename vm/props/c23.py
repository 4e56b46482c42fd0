import numpy

from diamondback import ZTransform
from vm import gen
from vm.engine import Kind

RULE = ("Each case draws stable distinct s-domain poles and finite zeros (real and conjugate pairs) and a frequency, forms the polynomials (scaled, with "
        "leading zeros, as lists or integers), and compares the discrete polynomials with those formed from the mapped roots, or from the mapped poles "
        "and residues. Signatures are (poles, zeros, frequency, method).")
ASSUMPTIONS = ["systems are proper, with nonzero gain at zero frequency and poles separated by 0.15 of their magnitude; zeros at infinity are mapped to z = 0 by the "
               "bilinear method", "tolerance 1e-9 of the coefficient magnitude, scaled by the conditioning of the roots for impulse invariance"]
REACH = ("bilinear", "impulse invariant", "real poles", "complex poles", "zeros", "no zeros", "order 1", "order 5", "scaled", "leading zeros", "int", "list",
         "low frequency", "high frequency", "rejected polynomial", "rejected frequency", "as many zeros as poles", "units", "close poles", "stiff", "large system", "unstable")


def roots(rng, n, wide=2.0):
    """n roots in the left half plane, conjugate closed and separated."""
    for _ in range(1000):
        r = []
        while len(r) < n:
            if len(r) + 2 <= n and rng.uniform() < 0.5:
                z = complex(-rng.uniform(0.1, wide), rng.uniform(0.2, wide))
                r += [z, z.conjugate()]
            else:
                r.append(complex(-rng.uniform(0.1, wide)))
        q = numpy.array(r)
        d = numpy.abs(q[:, None] - q[None, :]) + 10.0 * numpy.eye(n)
        if n < 2 or d.min() > 0.15:
            return q
    return numpy.array([-0.3 * (k + 1) for k in range(n)], complex)


def transform(ctx):
    rng = ctx.rng
    bilinear = bool(rng.integers(0, 2))
    n = int(rng.integers(1, 6))
    m = int(rng.integers(0, n + 1 if bilinear else n))
    f = float(rng.choice([rng.uniform(0.05, 0.9), 10.0 ** rng.uniform(-1.5, 0.5)]))
    near = n > 1 and rng.uniform() < 0.15
    p, z = roots(rng, n), roots(rng, m) if m else numpy.zeros(0, complex)
    if near:
        # A pair of poles close to the real axis, or to one another, beside the others.
        q, d = -rng.uniform(0.3, 1.5), 10.0 ** rng.uniform(-2.3, -1)
        p[:2] = (q + 1j * q * d, q - 1j * q * d) if n < 3 and rng.uniform() < 0.7 else (q, q * (1.0 + d))
        p = p[:2]
        n, m = 2, min(m, 2 if bilinear else 1)
        z = roots(rng, m) if m else numpy.zeros(0, complex)
        ctx.tag("close poles")
    if bilinear and rng.uniform() < 0.15:
        # A stiff system: a pole, and at times a zero, far beyond the frequency.
        k = int(numpy.argmin(numpy.abs(p.imag)))
        if p[k].imag == 0.0:
            p[k] = -(10.0 ** rng.uniform(1, 3))
            ctx.tag("stiff")
            k = int(numpy.argmin(numpy.abs(z.imag))) if m else 0
            if m and z[k].imag == 0.0 and rng.uniform() < 0.5:
                z[k] = -(10.0 ** rng.uniform(1, 3))
    if m and rng.uniform() < 0.3:
        z = -z.conjugate()
    unstable = not near and rng.uniform() < 0.08
    if unstable:
        # Poles of the right half plane are mapped alike, away from the pole of the mapping.
        q = numpy.where(numpy.abs(p.imag) > 0 if rng.uniform() < 0.5 else True, -p.conjugate(), p)
        w = numpy.abs(q[:, None] - q[None, :]) + 10.0 * numpy.eye(n)
        if (numpy.abs(1.0 - q * numpy.pi * f / 2.0) > 0.1).all() and (n < 2 or w.min() > 0.15) and (q.real > 0).any():
            p = q
            ctx.tag("unstable")
        else:
            unstable = False
    unit = 1.0
    if rng.uniform() < 0.3:
        unit = 10.0 ** rng.uniform(-6, 6)
        p, z, f = p * unit, z * unit, f / unit
        ctx.tag("units")
    f = gen.brief(rng, f)
    u, v = numpy.poly(p).real, numpy.poly(z).real if m else numpy.ones(1)
    t = 1.0 / (numpy.pi * f)
    extra = 0.0
    if rng.uniform() < 0.06 and not unstable:
        # A larger system of poles that span magnitudes.
        bilinear = True
        n = int(rng.integers(6, 11))
        p = numpy.array([], complex)
        while len(p) < n:
            w = 0.3 * 1.4 ** (len(p) + rng.uniform(0, 0.3)) * rng.choice([1.0, 1.6])
            q = [-w] if len(p) + 2 > n or rng.uniform() < 0.5 else [complex(-w, w * 0.7), complex(-w, -w * 0.7)]
            p = numpy.concatenate((p, q))
        p, z = p * unit, z[z.imag == 0][:1]
        m = len(z)
        u, v = numpy.poly(p).real, numpy.poly(z).real if m else numpy.ones(1)
        ctx.tag("large system")
        k = numpy.polyval(numpy.abs(u), numpy.abs(p)) / numpy.abs(numpy.polyval(numpy.polyder(u), p) * p)
        pz = (1.0 + p / (2 * t)) / (1.0 - p / (2 * t))
        # What rounding of the polynomial does to its mapped roots.
        extra = sum(1e-14 * k[i] * abs(p[i]) / t / abs(1.0 - p[i] / (2 * t)) ** 2 * numpy.abs(numpy.poly(numpy.delete(pz, i))).max() for i in range(n))
    gu, gv = rng.choice([1.0, rng.normal(), -3.0, 10.0 ** rng.uniform(-30, 30)]), rng.choice([1.0, rng.normal(), 10.0 ** rng.uniform(-30, 30)])
    uu, vv = u * gu, v * gv
    if gu != 1.0 or gv != 1.0:
        ctx.tag("scaled")
    if rng.uniform() < 0.3:
        uu = numpy.concatenate((numpy.zeros(int(rng.integers(0, 3))), uu))
        vv = numpy.concatenate((numpy.zeros(int(rng.integers(1, 3))), vv))
        ctx.tag("leading zeros")
    if rng.uniform() < 0.2:
        uu, vv = uu.tolist(), vv.tolist()
        ctx.tag("list")
    a, b = ZTransform.transform(uu, vv, gen.number(rng, f), bilinear) if not bilinear or rng.uniform() < 0.5 else ZTransform.transform(u=uu, v=vv, frequency=gen.number(rng, f))
    ctx.event(n + m)
    if bilinear:
        pz, zz = (1.0 + p / (2 * t)) / (1.0 - p / (2 * t)), (1.0 + z / (2 * t)) / (1.0 - z / (2 * t))
        den = numpy.poly(pz).real
        num = numpy.poly(numpy.concatenate((zz, numpy.zeros(n - m)))).real
        cond = 1.0
    else:
        pz = numpy.exp(p / t)
        r = numpy.array([numpy.prod(c - z) / numpy.prod([c - q for j, q in enumerate(p) if j != i]) for i, c in enumerate(p)])
        den = numpy.poly(pz).real
        num = sum(r[i] * numpy.poly(numpy.delete(pz, i)) for i in range(n)).real if n > 1 else numpy.array([r[0].real])
        num = numpy.concatenate((num, numpy.zeros(n + 1 - len(num))))
        cond = 1.0 + float(numpy.abs(r).max() / abs(num.sum() / den.sum()) if num.sum() else numpy.inf)
    ctx.ok(abs(num.sum()) > 0 and numpy.isfinite(cond), "harness: gain at zero frequency")
    want = -den / den[0]
    want[0] = 0.0
    tol = 1e-9 + extra if bilinear else 1e-8 * cond
    if tol > 1e-3 or abs(num.sum()) < 1e-3 * numpy.abs(num).sum():
        ctx.trivial = True
        ctx.sig("ill conditioned", p)
        ctx.ok(True, "ill conditioned")
        return
    g = den.sum() / num.sum()
    ctx.ok(a[0] == 0.0, "a[0] = 0", a=a)
    ctx.ok(not numpy.iscomplexobj(a) and not numpy.iscomplexobj(b), "results are real")
    ctx.close("recursive coefficients", a, want, tol * (1.0 + numpy.abs(want).max()), poles=p, frequency=f, bilinear=bilinear)
    # The gain at zero frequency is a quotient of sums, which cancel as poles approach z = 1.
    ruin = (1e-14 + extra) * numpy.abs(den).sum() / abs(den.sum())
    if not bilinear:
        # Residues that cancel, of roots known as well as their polynomial determines them.
        kappa = max(numpy.polyval(numpy.abs(u), abs(c)) / abs(numpy.polyval(numpy.polyder(u), c) * c) for c in p)
        ruin += 1e-14 * kappa * sum(abs(r[i]) * numpy.abs(numpy.poly(numpy.delete(pz, i))).sum() for i in range(n)) / abs(num.sum())
    ctx.close("forward coefficients", b, num * g, (tol + ruin) * (1e-12 + numpy.abs(num * g).max()) * numpy.abs(num).sum() / abs(num.sum()), poles=p, zeros=z, frequency=f, bilinear=bilinear)
    ctx.close("gain at zero frequency", b.sum() / (1.0 - a.sum()), 1.0, 1e-6 + ruin)
    # How far roots of the polynomial in z are determined by its coefficients.
    loose = 1e-14 * max(numpy.polyval(numpy.abs(den), abs(c)) / abs(numpy.prod([c - q for j, q in enumerate(pz) if j != i])) for i, c in enumerate(pz)) if extra else 0.0
    if not unstable:
        ctx.ok(numpy.abs(numpy.roots(numpy.concatenate(([1.0], -a[1:])))).max() < 1.0 + loose, "stability is preserved", poles=p, frequency=f)
    ctx.tag("bilinear" if bilinear else "impulse invariant", "complex poles" if (p.imag != 0).any() else "real poles", "zeros" if m else "no zeros", f"order {n}",
            "low frequency" if f * unit < 0.1 else "high frequency" if f * unit > 0.8 else "frequency", *(["as many zeros as poles"] if m == n else []))
    ctx.note(poles=p, zeros=z, frequency=f, bilinear=bilinear, a=a, b=b)
    ctx.sig(p, z, f, bilinear)


def integers(ctx):
    rng = ctx.rng
    u = numpy.poly(-rng.permutation(numpy.arange(1, 7))[: int(rng.integers(1, 4))]).round().astype(int)
    v = numpy.array([int(rng.integers(1, 9))])
    f, k = float(rng.uniform(0.1, 0.9)), bool(rng.integers(0, 2))
    before = u.copy(), v.copy()
    a, b = ZTransform.transform(u, v, f, k)
    c, d = ZTransform.transform(u.astype(float), v.astype(float), f, k)
    ctx.event(2)
    ctx.close("integer recursive coefficients", a, c, 1e-9 * numpy.abs(c).max() + 1e-12)
    ctx.close("integer forward coefficients", b, d, 1e-9 * numpy.abs(d).max() + 1e-12)
    ctx.ok((u == before[0]).all() and (v == before[1]).all(), "arguments unchanged")
    ctx.tag("int")
    ctx.note(u=u, v=v, frequency=f, bilinear=k)
    ctx.sig(u, v, f, k)


def rejects(ctx):
    rng = ctx.rng
    k = bool(rng.integers(0, 2))
    u, v = [1.0, 3.0, 2.0], [2.0]
    n = int(rng.integers(1, 5))
    for bad in ([], [0.0] * n, numpy.zeros(n)):
        ctx.raises(ValueError, "recursive polynomial", ZTransform.transform, bad, v, 0.5, k)
        ctx.raises(ValueError, "forward polynomial", ZTransform.transform, u, bad, 0.5, k)
    for f in (0.0, -float(rng.exponential()), -1e-12):
        ctx.raises(ValueError, f"frequency {f}", ZTransform.transform, u, v, f, k)
    ctx.tag("rejected polynomial", "rejected frequency")
    ctx.note(bilinear=k, length=n)
    ctx.sig(k, n)


KINDS = dict(transform=Kind(transform, 43200, 1296000), integers=Kind(integers, 4800, 144000), rejects=Kind(rejects, 60, 60))
