import numpy

from diamondback import IirFilter
from vm import gen, oracle
from vm.engine import Kind

RULE = ("Each case builds an IIR filter from random poles of radius up to 0.97 (or an integrator, or a design), real, complex or integer "
        "coefficients of equal or unequal lengths, then drives a random history of filter, reset, saved-state and analysis calls; every filter "
        "call is compared with the difference equation continued from the recorded past input and output (scipy lfilter with lfiltic). "
        "Signatures are (a, b, history); a case is non-trivial when an output with feedback (some a[i] nonzero) was compared.")
ASSUMPTIONS = ["scipy.signal.lfilter in double precision is the reference; tolerance 1e-13 times the local magnitude of what rounding of earlier samples can have perturbed, noise gain at most 1e3"]
REACH = ("vast", "real", "complex", "int", "integrator", "designed", "a shorter", "a longer", "equal lengths", "order zero", "complex signal, real coefficients",
         "reset", "restore", "query", "single sample call", "long call", "b0 = 1", "no recursion", "long s", "many coefficients", "assigned", "assign a", "assign b", "assign both", "single precision", "decayed by sixteen orders")


def build(ctx):
    rng = ctx.rng
    for _ in range(50):
        k = rng.integers(0, 12)
        if k == 0:
            a, b, kind = numpy.array([0.0, 1.0]), rng.normal(size=int(rng.integers(1, 5))), "integrator"
        elif k == 1:
            style = IirFilter.STYLE[rng.integers(0, 3)]
            f = IirFilter(style=style, frequency=rng.uniform(0.05, 0.1) if style == "Bessel" else rng.uniform(0.1, 0.7),
                          order=int(rng.integers(1, 5)), count=1, gain=rng.choice([1.0, -2.5]))
            return numpy.array(f.a), numpy.array(f.b), "designed", f
        elif k == 2:
            a = numpy.array([[0, 0], [0, 1], [0, -1], [0, 0, 1], [0, 1, -1]][rng.integers(0, 5)], dtype=object)
            a, b, kind = numpy.array(a.tolist()), rng.integers(-4, 5, int(rng.integers(1, 5))), "int"
            if not b.any():
                continue
        elif k == 3:
            # Many coefficients, few of them recursive.
            kind = str(rng.choice(["real", "complex"]))
            a = numpy.zeros(int(rng.integers(8, 90)), complex if kind == "complex" else float)
            at = rng.choice(numpy.arange(1, len(a)), int(rng.integers(1, 4)))
            a[at] = gen.coefficients(rng, len(at), ("complex",) if kind == "complex" else ("int",))[0]
            a *= rng.uniform(0.2, 0.97) / max(numpy.abs(a).sum(), 1e-9)
            b = gen.coefficients(rng, int(rng.integers(1, 90)), (kind,))[0]
            ctx.tag("many coefficients")
        else:
            kind = "complex" if k < 5 else "real"
            a = gen.recursive(rng, int(rng.integers(0, 7)), kind, rng.uniform(0.3, 0.97))
            b = gen.coefficients(rng, int(rng.integers(1, 8)), (kind,) if rng.uniform() < 0.8 else ("real",))[0]
            if rng.uniform() < 0.1:
                b[0] = 1.0
        m = oracle.Iir(a, b)
        if m.gain <= 1e3:
            break
    if b[0] == 1.0:
        ctx.tag("b0 = 1")
    ctx.tag("equal lengths" if len(a) == len(b) else "a shorter" if len(a) < len(b) else "a longer")
    if max(len(a), len(b)) == 1:
        ctx.tag("order zero")
    kw = {}
    if rng.uniform() < 0.15:
        kw["s"] = [0.0] * int(rng.integers(1, max(len(a), len(b)) + 5))
        if len(kw["s"]) > max(len(a), len(b)):
            ctx.tag("long s")
    given = []
    if kind == "designed":
        given = [a, b]
    else:
        w, a = gen.given(rng, a)
        v, b = gen.given(rng, b)
        given = [w, v]
        if (getattr(w, "dtype", None) in ("f4", "c8")) or (getattr(v, "dtype", None) in ("f4", "c8")):
            ctx.tag("single precision")
    f = IirFilter(a=given[0], b=given[1], **kw)
    if rng.uniform() < 0.2:
        # The same coefficients by assignment, in place of others.
        n = len(f.b)
        f = IirFilter(a=numpy.concatenate(([0.0], rng.uniform(-0.3, 0.3, n - 1))), b=rng.normal(size=n))
        if rng.uniform() < 0.5:
            f.filter(rng.normal(size=3))
            f.reset(0.0)
        for k in rng.permutation(2):
            v = numpy.concatenate((given[k], numpy.zeros(n - len(given[k]), getattr(given[k], "dtype", (a, b)[k].dtype))))
            setattr(f, "ab"[k], [v, v.tolist(), tuple(v.tolist())][rng.integers(0, 3)])
        ctx.tag("assigned")
    return a, b, kind, f


def history(ctx):
    rng = ctx.rng
    a, b, kind, f = build(ctx)
    m = oracle.Iir(a, b)
    ctx.tag(kind)
    if not a.any():
        ctx.tag("no recursion")
    ctx.note(a=a, b=b, type=kind, noise_gain=m.gain)
    ops = []
    sum_a = a.sum()
    cplx = numpy.iscomplexobj(a) or numpy.iscomplexobj(b)
    steps = int(rng.integers(1, 8))
    for step in range(steps):
        op = "filter" if step == steps - 1 else rng.choice(["filter", "filter", "filter", "reset", "restore", "query", "assign"])
        if op == "filter":
            x, d = gen.signal(rng, gen.vast(ctx, gen.length(rng, 600 if rng.uniform() < 0.1 else 60, tail=1500), 0.0015))
            if rng.uniform() < 0.1:
                x, d = numpy.array(x), d + " then zeros"
                x[int(rng.integers(1, 6)) :] = 0
            if numpy.iscomplexobj(x) and not cplx:
                ctx.tag("complex signal, real coefficients")
            ctx.tag(*(["single sample call"] if len(x) == 1 else []), *(["long call"] if len(x) > 200 else []))
            y = f.filter(gen.container(rng, x))
            want = m.filter(x)
            ctx.event(len(x))
            t = 1e-13 * m.local + 1e-300
            ctx.close("filter output", y, want if (numpy.abs(want.imag) > t).any() else want.real, t, operations=ops, signal=d)
            if numpy.abs(want[-1]) < 1e-16 * numpy.abs(want).max() and want[-1]:
                ctx.tag("decayed by sixteen orders")
            ops.append(f"filter {d} {len(x)}")
        elif op == "reset" and abs(1.0 - sum_a) > 1e-3:
            v = gen.signal(rng, 1)[0][0]
            f.reset(v if rng.uniform() < 0.5 else v.item())
            m.steady(v)
            ctx.tag("reset")
            ops.append(f"reset {v:.4g}")
        elif op == "assign":
            # Other coefficients from rest, in the middle of a history.
            n = len(f.b)
            which = ("a", "b", "both")[rng.integers(0, 3)]
            u, v = numpy.array(f.a), numpy.array(f.b)
            if which != "b":
                u = numpy.concatenate(([0.0], gen.coefficients(rng, n - 1, ("complex" if cplx and rng.uniform() < 0.5 else "real",))[0])) if n > 1 else numpy.zeros(1)
                if u.any():
                    u = u * rng.uniform(0.1, 0.97) / numpy.abs(u).sum()
            if which != "a":
                v = gen.coefficients(rng, n, ("real", "int"))[0]
            if oracle.Iir(u, v).gain > 1e3:
                continue
            if abs(1.0 - sum_a) > 1e-3 and rng.uniform() < 0.5:
                f.reset(0.0)
            else:
                f.s = numpy.zeros(len(f.s))
            if which != "b":
                f.a = u.tolist() if rng.uniform() < 0.5 else u
            if which != "a":
                f.b = v.tolist() if rng.uniform() < 0.5 else v
            a, b, sum_a = u, v, u.sum()
            m = oracle.Iir(a, b)
            ctx.tag(f"assign {which}")
            ops.append(f"assign {which}")
        elif op == "restore":
            s, p = numpy.array(f.s), (m.x, m.y)
            f.filter(rng.normal(size=3))
            f.s = s
            m.x, m.y = p
            ctx.tag("restore")
            ops.append("filter and restore s")
        else:
            k = rng.integers(0, 4)
            if k == 0:
                f.response(int(rng.integers(1, 40)), int(rng.integers(1, 4)))
            elif k == 1:
                f.delay(int(rng.integers(1, 40)), int(rng.integers(1, 4)))
            elif k == 2:
                f.roots(int(rng.integers(1, 4)))
            else:
                _ = (f.a, f.b, f.s)
            ctx.tag("query")
            ops.append("query")
    ctx.note(history=ops)
    ctx.sig(a, b, ops)
    ctx.trivial = not a.any()


def rejects(ctx):
    rng = ctx.rng
    v = rng.choice([1.0, -1.0, 1e-6, 1j])
    ctx.raises(ValueError, "nonzero a[0]", IirFilter, a=[v, 0.5], b=[1.0, 0.0])
    ctx.raises(ValueError, "nonzero a[0]", IirFilter, a=numpy.array([v, 0.5, 0.1]), b=[1.0])
    f = IirFilter(a=[0.0, 0.5], b=[1.0, 0.2])
    ctx.raises(ValueError, "nonzero a[0] assigned", lambda: setattr(f, "a", [[v, 0.5], numpy.array([v, 0.0]), (v, 0.25)][rng.integers(0, 3)]))
    ctx.ok(f.a.tolist() == [0.0, 0.5], "coefficients after a rejected assignment", a=f.a)
    ctx.raises(ValueError, "empty signal", f.filter, [])
    ctx.note(rejected=["a[0] nonzero", v, "empty signal"])
    ctx.sig(v)


KINDS = dict(history=Kind(history, 6000, 180000), rejects=Kind(rejects, 24, 100))
