import diamondback as db
import numpy

from vm import components, gen
from vm.engine import Kind

RULE = ("Each case drives a subject and a twin of one random component through one history; before and between the steps the subject alone is given calls "
        "that its documentation rules out (empty and multidimensional signals, parameters just and far outside their range and infinite or unknown ones, "
        "wrong widths and lengths, non-scalar resets, non-positive lengths of queries, fits that fail for the last class only), and rejected constructions "
        "of the same class. Each must raise ValueError (TypeError for non-integer labels) and leave every property as it was, and every later result of the subject must equal the twin's; "
        "class tables keep their digest. Signatures are (component, configuration, rejected calls, operations).")
ASSUMPTIONS = ["arguments of types that are not numeric are not covered"]
V = (ValueError,)
INF = float("inf")


def above(rng, hi):
    return [float(numpy.nextafter(hi, INF)), hi + 1e-9, hi + float(rng.exponential()), hi * 10 + 1.0, INF][rng.integers(0, 5)]


def below(rng, lo):
    return [float(numpy.nextafter(lo, -INF)), lo - 1e-9, lo - float(rng.exponential()), lo * 10 - 1.0, -INF][rng.integers(0, 5)]


def outside(rng, lo, hi):
    return above(rng, hi) if rng.uniform() < 0.5 else below(rng, lo)


def signals(rng, spec, p):
    """Signals every stream filter rejects."""
    n = int(rng.integers(1, 6))
    x = numpy.asarray(spec.signal(rng, 12, p)).ravel()
    k = int(rng.integers(0, 7))
    if k == 0:
        return "empty array", numpy.zeros(0)
    if k == 1:
        return "empty list", []
    if k == 2:
        return "column", numpy.array(x[:n])[:, None]
    if k == 3:
        return "row", numpy.array(x[:n])[None, :]
    if k == 4:
        return "matrix", numpy.resize(x, (n, 3))
    if k == 5:
        return "nested list", numpy.resize(x, (n, 2)).tolist()
    return "empty complex", numpy.zeros(0, complex)


def call(spec, f):
    return lambda o: spec.run(o, f)


def signal_of(rng, spec, p):
    d, x = signals(rng, spec, p)
    if isinstance(x, numpy.ndarray) and x.size and rng.uniform() < 0.3:
        d, x = d + " complex", x + 1j
    return f"call with {d}", lambda o: spec.run(o, x)


def reset(rng, *_):
    v = [[1.0], numpy.zeros(1), numpy.zeros(0), (1.0, 2.0), [], numpy.ones(3, complex)][rng.integers(0, 6)]
    return f"reset {v}", lambda o: o.reset(v)


def put(name, lo, hi, integer=False):
    def f(rng, spec, p):
        v = (lo - int(rng.integers(1, 9)) if rng.uniform() < 0.5 or hi is None else hi + int(rng.integers(1, 9))) if integer else (
            below(rng, lo) if hi is None else outside(rng, lo, hi))
        return f"assign {name} {v}", lambda o: setattr(o, name, v)
    return f


def query(rng, spec, p):
    name = str(rng.choice(["response", "delay"]))
    bad = int(rng.integers(-5, 1))
    a = (bad, 1) if rng.uniform() < 0.5 else (16, bad)
    return f"{name}{a}", lambda o: getattr(o, name)(*a)


def made(rng, options):
    d, fn = options[rng.integers(0, len(options))]
    return f"construct {d}", lambda o: fn()


def make_fir(rng, *_):
    f, n = outside(rng, 0.0, 1.0) if rng.uniform() < 0.6 else float(rng.integers(0, 2)), int(rng.integers(-3, 1))
    return made(rng, [(f"frequency {f}", lambda: db.FirFilter("Kaiser", f, 4)), (f"order {n}", lambda: db.FirFilter("Hann", 0.3, n)),
                      (f"count {n}", lambda: db.FirFilter("Hann", 0.3, 4, n)), ("style", lambda: db.FirFilter("Butterworth", 0.3, 4)), ("empty b", lambda: db.FirFilter(b=[]))])


def make_iir(rng, *_):
    f, n, v = outside(rng, 0.0, 1.0) if rng.uniform() < 0.6 else float(rng.integers(0, 2)), int(rng.integers(-3, 1)), float(rng.normal())
    return made(rng, [(f"frequency {f}", lambda: db.IirFilter("Butterworth", f, 4)), (f"order {n}", lambda: db.IirFilter("Bessel", 0.3, n)),
                      (f"count {n}", lambda: db.IirFilter("Chebyshev", 0.3, 4, n)), ("style", lambda: db.IirFilter("Kaiser", 0.3, 4)),
                      (f"a[0] {v}", lambda: db.IirFilter(a=[v, 0.2], b=[1.0])), (f"a[0] {v}j", lambda: db.IirFilter(a=numpy.array([v * 1j, 0.2]), b=[1.0, 2.0]))])


def make_derivative(rng, *_):
    k, n = int(rng.choice([-1, 0, 4, 9])), int(rng.choice([-1, 0, 5, 7, 11]))
    return made(rng, [(f"derivative {k}", lambda: db.DerivativeFilter(k, 4)), (f"order {n}", lambda: db.DerivativeFilter(3, n))])


def make_integral(rng, *_):
    n = int(rng.choice([-1, 5, 6, 100]))
    return made(rng, [(f"order {n}", lambda: db.IntegralFilter(n))])


def make_pid(rng, *_):
    n = int(rng.choice([0, 1, 2, 4, 10]))
    return made(rng, [(f"b of {n}", lambda: db.PidFilter(numpy.ones(n)))])


def make_rank(rng, *_):
    n, k = int(rng.integers(0, 5)), int(rng.integers(1, 4))
    return made(rng, [(f"index {n + k} of {n}", lambda: db.RankFilter(n + k, n)), (f"index {-k}", lambda: db.RankFilter(-k, n))])


def make_goertzel(rng, *_):
    f = outside(rng, -1.0, 1.0)
    return made(rng, [(f"frequency {f}", lambda: db.GoertzelFilter(numpy.ones(4), f)), ("zero b", lambda: db.GoertzelFilter(numpy.zeros(4), 0.1)), ("empty b", lambda: db.GoertzelFilter([], 0.1))])


def make_exponential(rng, *_):
    f = outside(rng, -1.0, 1.0)
    return made(rng, [(f"phase {f}", lambda: db.ComplexExponentialFilter(f))])


def fast(rng, spec, p):
    """Frequencies beyond one, at any place of the signal, and complex ones."""
    n = int(rng.integers(1, 9))
    x = rng.uniform(-1, 1, n)
    x[rng.integers(0, n)] = outside(rng, -1.0, 1.0)
    if rng.uniform() < 0.3:
        x = numpy.clip(x, -0.5, 0.5) + 0.0j
        x[rng.integers(0, n)] += 0.1j
    return f"call with frequencies {x[:4]}", lambda o: o.filter(x)


def make_adaptive(cls):
    def f(rng, *_):
        v, r = outside(rng, -1.0, 1.0), outside(rng, 0.0, 1.0)
        return made(rng, [(f"frequency {v}", lambda: cls(v, 0.1)), (f"rate {r}", lambda: cls(0.1, r))])
    return f


def make_polynomial(rng, *_):
    r, n = below(rng, 0.0), int(rng.integers(-3, 1))
    return made(rng, [(f"rate {r}", lambda: db.PolynomialRateFilter(r)), (f"order {n}", lambda: db.PolynomialRateFilter(1.0, n))])


def make_polyphase(rng, *_):
    r = outside(rng, 0.0, 256.0)
    return made(rng, [(f"rate {r}", lambda: db.PolyphaseRateFilter(r))])


def one(rng, spec, p):
    return "call with one sample", lambda o: o.filter([1.0])


def make_window(rng, *_):
    n = int(rng.integers(-5, 0))
    return made(rng, [(f"order {n}", lambda: db.WindowFilter("Hann", n)), ("style", lambda: db.WindowFilter("Triangle", 4))])


def wrong_length(rng, spec, p):
    n = int(p["order"] + 1 + rng.choice([-1, 1, 2, 10]))
    return f"call with length {n}", lambda o: o.filter(numpy.ones(max(n, 0)))


def wavelet(rng, spec, p):
    m = 2 ** p["count"]
    n = m * int(rng.integers(1, 4)) + int(rng.integers(1, m)) if m > 1 else 1
    k = int(rng.integers(0, 5))
    if k == 0:
        return f"transform of {n}", lambda o: o[0].transform(numpy.ones(n + (n == 1)), o[1], o[2])
    if k == 1:
        c = int(rng.integers(-3, 1))
        return f"count {c}", lambda o: o[0].transform(numpy.ones(8), c, o[2])
    if k == 2:
        return "transform of cube", lambda o: o[0].transform(numpy.ones((2, 2, 2)), 1, o[2])
    if k == 3:
        return "transform of nothing", lambda o: o[0].transform(numpy.zeros(0), 1, o[2])
    return made(rng, [("style", lambda: db.WaveletTransform("Mexican", 1)), ("order", lambda: db.WaveletTransform("Haar", 99)), ("order 0", lambda: db.WaveletTransform("Daubechies", 0))])


def transform(rng, spec, p):
    """A rejected call of a transform without instances."""
    n = int(rng.integers(2, 9))
    x = rng.normal(size=n)
    options = dict(
        ComplexTransform=[("two rows", lambda: db.ComplexTransform.transform(numpy.ones((2, 4)), True)), ("four rows", lambda: db.ComplexTransform.transform(numpy.ones((4, 4)), False)),
                          ("nothing", lambda: db.ComplexTransform.transform(numpy.zeros(0), True)), ("cube", lambda: db.ComplexTransform.transform(numpy.ones((3, 2, 2)), True))],
        FourierTransform=[("long window", lambda: db.FourierTransform.transform(x, numpy.ones(n + 1), False)), ("zero window", lambda: db.FourierTransform.transform(x, numpy.zeros(n), False)),
                          ("nothing", lambda: db.FourierTransform.transform([], [1.0], False))],
        PsdTransform=[("long window", lambda: db.PsdTransform.transform(x, numpy.ones(n + 1), 1, False)), ("zero window", lambda: db.PsdTransform.transform(x, numpy.zeros(n), 1, False)),
                      ("nothing", lambda: db.PsdTransform.transform([], numpy.ones(2), 1, False)), ("no stride", lambda: db.PsdTransform.transform(x, numpy.ones(n), -int(rng.integers(0, 3)), True))],
        ZTransform=[("no u", lambda: db.ZTransform.transform([], [1.0], 0.1, True)), ("no v", lambda: db.ZTransform.transform([1.0, 2.0], [], 0.1, True)),
                    ("zero u", lambda: db.ZTransform.transform([0.0, 0.0], [1.0], 0.1, True)), ("zero v", lambda: db.ZTransform.transform([1.0, 2.0], [0.0], 0.1, False)),
                    ("frequency 0", lambda: db.ZTransform.transform([1.0, 2.0], [1.0], 0.0, True)), ("frequency -1", lambda: db.ZTransform.transform([1.0, 2.0], [1.0], -1.0, False))],
    )[spec.name]
    d, fn = options[rng.integers(0, len(options))]
    return f"transform {d}", lambda o: fn()


def diversity(rng, spec, p):
    w, k = p["width"], int(rng.integers(0, 6))
    if k == 0:
        return "fit of vector", lambda o: o.fit(numpy.ones(w))
    if k == 1:
        return "fit of nothing", lambda o: o.fit(numpy.zeros((0, w)))
    if k == 2:
        return "fit of no width", lambda o: o.fit(numpy.zeros((3, 0)))
    if k == 3:
        return "fit of cube", lambda o: o.fit(numpy.ones((2, w, 1)))
    if k == 4:
        n = int(rng.integers(-4, 0))
        return made(rng, [(f"order {n}", lambda: db.DiversityModel("Euclidean", n)), ("style", lambda: db.DiversityModel("Cosine", 3))])
    return "fit of other width", "other width"


def classifier(rng, spec, p):
    x, y = p["x"], p["y"]
    w, n = x.shape[1], x.shape[0]
    k = int(rng.integers(0, 11))
    cls = type(spec.build(components.copy(p))) if k == 8 else None
    r = below(rng, 0.0)
    return [
        ("predict width", lambda o: o.predict(numpy.ones((3, w + 1)))), ("predict vector", lambda o: o.predict(numpy.ones(w))), ("predict nothing", lambda o: o.predict(numpy.zeros((0, w)))),
        ("fit lengths", lambda o: o.fit(rng.normal(size=(n, w + 2)), y[:-1])), ("fit vector", lambda o: o.fit(rng.normal(size=n), y)), ("fit nothing", lambda o: o.fit(numpy.zeros((0, w)), y[:0])),
        ("fit cube", lambda o: o.fit(numpy.ones((n, w, 1)), y)), (f"regularize {r}", lambda o: setattr(o, "regularize", r)),
        (f"construct regularize {r}", lambda o: cls(regularize=r)), ("fit labels", "labels"), ("fit fails", "late"),
    ][k]


def mixture(rng, spec, p):
    if rng.uniform() < 0.15:
        n = int(rng.integers(-3, 1))
        return made(rng, [(f"order {n}", lambda: db.GaussianMixtureModel(order=n)), (f"index {n}", lambda: db.GaussianMixtureModel(index=n))])
    if rng.uniform() < 0.1:
        n = int(rng.integers(-3, 1))
        return f"assign index {n}", lambda o: setattr(o, "index", n)
    return classifier(rng, spec, p)


def index(rng, spec, p):
    v = p["order"] + int(rng.integers(1, 5)) if rng.uniform() < 0.5 else -int(rng.integers(1, 5))
    return f"assign index {v}", lambda o: setattr(o, "index", v)


BAD = dict(
    FirFilter=(signal_of, signal_of, reset, query, make_fir), IirFilter=(signal_of, signal_of, reset, query, make_iir), DerivativeFilter=(signal_of, reset, query, make_derivative),
    IntegralFilter=(signal_of, make_integral), PidFilter=(signal_of, signal_of, put("limit", 0.0, None), make_pid), RankFilter=(signal_of, signal_of, reset, index, make_rank),
    GoertzelFilter=(signal_of, signal_of, put("frequency", -1.0, 1.0), make_goertzel), ComplexExponentialFilter=(signal_of, fast, fast, put("phase", -1.0, 1.0), make_exponential),
    ComplexBandpassFilter=(signal_of, signal_of, put("frequency", -1.0, 1.0), put("rate", 0.0, 1.0), make_adaptive(db.ComplexBandpassFilter)),
    ComplexFrequencyFilter=(signal_of, signal_of, reset, put("frequency", -1.0, 1.0), put("rate", 0.0, 1.0), make_adaptive(db.ComplexFrequencyFilter)),
    PolynomialRateFilter=(signal_of, one, put("rate", 0.0, None), put("order", 0, None, True), make_polynomial),
    PolyphaseRateFilter=(signal_of, signal_of, reset, put("rate", 0.0, 256.0), put("rate", 0.0, 256.0), make_polyphase), WindowFilter=(signal_of, wrong_length, make_window),
    WaveletTransform=(wavelet,), ComplexTransform=(transform,), FourierTransform=(transform,), PsdTransform=(transform,), ZTransform=(transform,), DiversityModel=(diversity,),
    GaussianModel=(classifier,), GaussianMixtureModel=(mixture,),
)
REACH = [s.name for s in components.ALL] + [f"rejected {k}" for k in ("call", "assign", "construct", "reset", "fit", "predict", "transform", "response", "delay")] + [
    "before first call", "between calls", "fit failed late", "label type"]


def reject(ctx, spec, p, o, seen):
    rng = ctx.rng
    options = BAD[spec.name]
    d, fn = options[rng.integers(0, len(options))](rng, spec, p)
    exc = V
    if fn == "other width":
        if not seen:
            return None  # any width is accepted until the first fit
        w = p["width"] + int(rng.choice([-1, 1])) or p["width"] + 1
        fn = lambda o: o.fit(rng.normal(size=(4, w)))
    elif fn == "labels":
        w = p["x"].shape[1]
        x = rng.normal(size=(len(p["y"]), int(rng.choice([w, w + 1, w + 2, max(1, w - 1)]))))
        y = [p["y"].astype(float), numpy.array([str(v) for v in p["y"]]), p["y"] + 0j][rng.integers(0, 3)]
        fn, exc = (lambda o: o.fit(x, y)), (TypeError,)
        ctx.tag("label type")
    elif fn == "late":
        # Every class can be fit but the last: too few observations, or a covariance of not a number.
        x = rng.normal(size=p["x"].shape) * 5.0
        y = numpy.sort(rng.integers(0, 3, len(x)))
        if spec.name == "GaussianMixtureModel":
            x = numpy.concatenate((x, rng.normal(size=(1, x.shape[1]))))
            y = numpy.concatenate((y, [99]))  # one observation, which no mixture accepts
        else:
            x = numpy.concatenate((x, numpy.zeros((2, x.shape[1]))))
            y = numpy.concatenate((y, [99, 99]))
            r = o.regularize

            def fn(o):
                o.regularize = 0.0
                try:
                    o.fit(x, y)
                finally:
                    o.regularize = r

            exc = (ValueError, numpy.linalg.LinAlgError)
        fn = fn if callable(fn) else (lambda o: o.fit(x, y))
        ctx.tag("fit failed late")
    before = components.visible(o)
    ctx.raises(exc, f"{spec.name}: {d}", fn, o)
    changed = components.differs(before, components.visible(o))
    ctx.ok(not changed, f"{spec.name}: {d} leaves every property as it was", properties=changed)
    word = d.split()[0].split("(")[0]
    ctx.tag(f"rejected {word}")
    return d


def history(ctx):
    rng = ctx.rng
    spec = components.pick(rng)
    p = spec.params(rng)
    before = components.tables()
    subject, twin = spec.build(components.copy(p)), spec.build(components.copy(p))
    ops, seen = [], False
    for step in range(int(rng.integers(1, 5))):
        for _ in range(int(rng.integers(0 if step else 1, 4))):
            d = reject(ctx, spec, p, subject, seen)
            if d:
                ops.append("rejected " + d)
                ctx.tag("between calls" if seen else "before first call")
        if rng.uniform() < 0.25:
            d, fn = spec.tweak(rng, p)
            fn(subject), fn(twin)
            ops.append(d)
            seen = seen and d != "clear"
        x = spec.signal(rng, spec.length(rng, p), p)
        c = gen.container(rng, x) if x.ndim == 1 else numpy.array(x)
        got, want = spec.run(subject, c), spec.run(twin, numpy.array(x))
        ctx.event(2)
        seen = True
        ops.append(f"call {len(x)}")
        components.compare(ctx, spec, p, numpy.concatenate((x.ravel(), [1.0])), got, want, "subject against twin", operations=ops)
        for i, (g, w) in enumerate(zip(got, want)):
            ctx.ok(numpy.iscomplexobj(g) == numpy.iscomplexobj(w), f"{spec.name}: result {i} is complex where the twin's is", operations=ops)
        changed = components.differs(components.visible(subject), components.visible(twin), 1e-9)
        ctx.ok(not changed, f"{spec.name}: properties equal the twin's", properties=changed, operations=ops)
    after = components.tables()
    ctx.ok(after == before, f"{spec.name}: class tables keep their values", changed=[k for k in before if before[k] != after.get(k)])
    ctx.tag(spec.name)
    ctx.note(component=spec.name, configuration=p, operations=ops)
    ctx.sig(spec.name, p, ops)


KINDS = dict(history=Kind(history, 16000, 80000))
