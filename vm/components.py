"""Every public component behind one interface, for the properties that hold across all of them.

Spec.params draws a configuration, Spec.build constructs an instance from copies of it, Spec.signal draws a valid
incident signal, Spec.run makes one call and returns its outputs as a list of arrays, and Spec.tweak draws a state
change as (description, function of an instance) that can be applied to twins.
"""

import numpy

import diamondback as db
from vm import gen


class Spec:
    name = ""
    stream = True  # output does not depend on how the signal is cut
    kinds = ("real", "complex")  # types of signal
    loose = 1e-9

    def probe(self, o, p):
        """A finer measure of an instance than its results, if there is one."""
        return []

    def params(self, rng):
        return {}

    def build(self, p):
        raise NotImplementedError

    def signal(self, rng, n, p):
        return gen.signal(rng, n, self.kinds)[0]

    def length(self, rng, p):
        return gen.length(rng, 80, tail=800)

    def run(self, o, x):
        return [o.filter(x)]

    def tweak(self, rng, p):
        v = gen.signal(rng, 1, self.kinds)[0][0].item()
        return f"reset {v:.3g}", lambda o: o.reset(v)

    def join(self, parts):
        return [numpy.concatenate([p[i] for p in parts]) for i in range(len(parts[0]))]

    def observe(self, y):
        """What must agree between equivalent runs (identity by default)."""
        return y

    def scale(self, p, x):
        return 1.0


def copy(p):
    return {k: numpy.array(v) if isinstance(v, numpy.ndarray) else v for k, v in p.items()}


class Fir(Spec):
    name = "FirFilter"

    def params(self, rng):
        if rng.uniform() < 0.1:
            f = db.FirFilter(style="Kaiser", frequency=0.3, order=int(rng.integers(4, 20)))
            return dict(b=numpy.array(f.b))
        p = dict(b=gen.coefficients(rng, int(rng.integers(1, 12) if rng.uniform() < 0.94 else rng.integers(60, 140)))[0])
        if rng.uniform() < 0.3:
            p["s"] = rng.normal(size=len(p["b"]))
        return p

    def build(self, p):
        return db.FirFilter(**p)

    def scale(self, p, x):
        return float(numpy.abs(p["b"]).sum())

    def tweak(self, rng, p):
        k = rng.integers(0, 4)
        if k == 0:
            v = rng.normal(size=max(len(p["b"]), len(p.get("s", ()))))
            return "assign s", lambda o: setattr(o, "s", numpy.array(v))
        if k == 1:
            v = rng.normal(size=max(len(p["b"]), len(p.get("s", ()))))
            return "assign b", lambda o: setattr(o, "b", numpy.array(v))
        if k == 2:
            return "response", lambda o: o.response(16, 1)
        return super().tweak(rng, p)


class Iir(Spec):
    name = "IirFilter"
    loose = 1e-8

    def params(self, rng):
        kind = rng.choice(["real", "real", "complex"])
        a = gen.recursive(rng, int(rng.integers(0, 6)), kind, 0.9)
        return dict(a=a, b=gen.coefficients(rng, int(rng.integers(1, 7)), (kind,))[0])

    def build(self, p):
        return db.IirFilter(**p)

    def scale(self, p, x):
        return float(numpy.abs(p["b"]).sum()) * 100.0

    def tweak(self, rng, p):
        if rng.uniform() < 0.3:
            return "response", lambda o: o.response(16, 1)
        if rng.uniform() < 0.3:
            b = gen.coefficients(rng, len(p["b"]), ("real",))[0]
            return "assign b", lambda o: setattr(o, "b", numpy.pad(b, (0, max(0, len(o.b) - len(b)))))
        return super().tweak(rng, p)


class Derivative(Spec):
    name = "DerivativeFilter"

    def params(self, rng):
        k = int(rng.choice(list(db.DerivativeFilter.B)))
        return dict(derivative=k, order=int(rng.choice(list(db.DerivativeFilter.B[k]))))

    def build(self, p):
        return db.DerivativeFilter(**p)

    def scale(self, p, x):
        return 8.0


class Integral(Spec):
    name = "IntegralFilter"

    def params(self, rng):
        return dict(order=int(rng.integers(0, 5)))

    def build(self, p):
        return db.IntegralFilter(**p)

    def scale(self, p, x):
        return 10.0 + len(x)


class Pid(Spec):
    name = "PidFilter"
    kinds = ("real", "int")

    def params(self, rng):
        return dict(b=gen.coefficients(rng, 3, ("real", "int"))[0], limit=gen.number(rng, rng.choice([numpy.inf, 0.0, rng.exponential(), 10.0])))

    def build(self, p):
        o = db.PidFilter(b=p["b"])
        o.limit = p["limit"]
        return o

    def scale(self, p, x):
        return float(numpy.abs(p["b"]).sum()) * (2.0 + len(x))

    def tweak(self, rng, p):
        if rng.uniform() < 0.4:
            b = gen.coefficients(rng, 3, ("real", "int"))[0]
            return "assign b", lambda o: setattr(o, "b", numpy.array(b))
        if rng.uniform() < 0.3:
            b, k = float(rng.choice([0.0, rng.normal()])), int(rng.integers(0, 3))

            def change(o):
                u = numpy.array(o.b)
                u[k] = b
                o.b = u

            return f"gain {k} {b:.3g}", change
        v = float(rng.exponential() * 3.0)
        return f"limit {v:.3g}", lambda o: setattr(o, "limit", v)


class Rank(Spec):
    name = "RankFilter"

    def params(self, rng):
        n = int(rng.integers(0, 9) if rng.uniform() < 0.94 else rng.integers(16, 70))
        return dict(index=int(rng.integers(0, n + 1)), order=n)

    def build(self, p):
        return db.RankFilter(**p)

    def observe(self, y):
        return [numpy.abs(v) for v in y]

    def tweak(self, rng, p):
        if rng.uniform() < 0.5:
            v = int(rng.integers(0, p["order"] + 1))
            return f"index {v}", lambda o: setattr(o, "index", v)
        return super().tweak(rng, p)


class Goertzel(Spec):
    name = "GoertzelFilter"
    loose = 1e-8

    def params(self, rng):
        n = int(rng.integers(1, 40) if rng.uniform() < 0.94 else rng.integers(60, 140))
        b = rng.normal(size=n) if rng.uniform() < 0.5 else db.WindowFilter("Kaiser", n - 1).b
        return dict(b=numpy.array(b), frequency=float(rng.choice([rng.uniform(-1, 1), 0.0, 0.5, -0.25, 1.0, -1.0])), complex=bool(rng.integers(0, 2)))

    def build(self, p):
        return db.GoertzelFilter(b=p["b"], frequency=p["frequency"])

    def signal(self, rng, n, p):
        return gen.signal(rng, n, ("complex",) if p["complex"] else ("real", "int"))[0]

    def observe(self, y):
        return [numpy.abs(v) for v in y]

    def scale(self, p, x):
        return 2.0 * float(numpy.abs(p["b"]).sum()) + 1.0

    def tweak(self, rng, p):
        if rng.uniform() < 0.3:
            k = rng.uniform(0.5, 0.99)
            return f"a times {k:.3g}", lambda o: setattr(o, "a", numpy.array(o.a) * k) if hasattr(o, "a") else None
        return "read", lambda o: (o.frequency, o.b)


class ComplexExponential(Spec):
    name = "ComplexExponentialFilter"

    def params(self, rng):
        return dict(phase=gen.number(rng, rng.choice([0.0, 1.0, -1.0, rng.uniform(-1, 1)])))

    def build(self, p):
        return db.ComplexExponentialFilter(**p)

    def signal(self, rng, n, p):
        k = rng.integers(0, 4)
        if k == 0:
            return numpy.full(n, rng.uniform(-1, 1))
        if k == 1:
            return rng.choice([-1.0, 1.0, 0.0, 0.5], n)
        return rng.uniform(-1, 1, n)

    def tweak(self, rng, p):
        v = float(rng.uniform(-1, 1))
        return f"phase {v:.3g}", lambda o: setattr(o, "phase", v)


def tone(rng, n):
    x = numpy.exp(1j * numpy.pi * (rng.uniform(-1, 1) * numpy.arange(n) + rng.uniform(-1, 1))) * rng.uniform(0.2, 4.0)
    return x + rng.choice([0.0, 0.1]) * (rng.normal(size=n) + 1j * rng.normal(size=n))


class ComplexBandpass(Spec):
    name = "ComplexBandpassFilter"

    def params(self, rng):
        f, r = rng.uniform(-1, 1) if rng.uniform() < 0.65 else rng.choice([1.0, -1.0, 0.0, 0.0, 0.0, 0.5]), rng.choice([rng.uniform(0, 1), 0.0, 1.0, 1.0, 0.1])
        return dict(frequency=gen.number(rng, f), rate=gen.number(rng, r))

    def build(self, p):
        return db.ComplexBandpassFilter(**p)

    def length(self, rng, p):
        return 1 if rng.uniform() < 0.12 else super().length(rng, p)

    def signal(self, rng, n, p):
        if rng.uniform() < (0.6 if n == 1 else 0.2):  # a prediction without error, exactly at frequency zero
            return numpy.exp(1j * numpy.pi * float(p["frequency"]) * numpy.arange(n)) * (1.0 if rng.uniform() < 0.8 else 2.0)
        return tone(rng, n)

    def run(self, o, x):
        return list(o.filter(x))

    def tweak(self, rng, p):
        v = float(rng.uniform(0, 1))
        if rng.uniform() < 0.5:
            return f"rate {v:.3g}", lambda o: setattr(o, "rate", v)
        return f"frequency {v:.3g}", lambda o: setattr(o, "frequency", v)

    def scale(self, p, x):
        return 10.0


class ComplexFrequency(ComplexBandpass):
    name = "ComplexFrequencyFilter"

    def build(self, p):
        return db.ComplexFrequencyFilter(**p)

    def observe(self, y):
        return [numpy.exp(1j * numpy.pi * numpy.asarray(y[0])) * (numpy.abs(y[2]) > 1e-6)] + list(y[1:])

    def tweak(self, rng, p):
        if rng.uniform() < 0.4:
            v = complex(*rng.normal(size=2))
            return f"reset {v:.3g}", lambda o: o.reset(v)
        return super().tweak(rng, p)


class PolynomialRate(Spec):
    name = "PolynomialRateFilter"
    stream = False
    kinds = ("real", "int")

    def params(self, rng):
        return dict(rate=gen.number(rng, rng.choice([rng.uniform(0.1, 4.0), 0.5, 1.0, 2.0, 3.0])), order=int(rng.integers(1, 4)))

    def build(self, p):
        return db.PolynomialRateFilter(**p)

    def length(self, rng, p):
        return gen.length(rng, 60, 2)

    def tweak(self, rng, p):
        v = float(rng.uniform(0.1, 4.0))
        return f"rate {v:.3g}", lambda o: setattr(o, "rate", v)

    def scale(self, p, x):
        return 100.0


class PolyphaseRate(Spec):
    name = "PolyphaseRateFilter"
    kinds = ("real", "int")

    def params(self, rng):
        return dict(rate=gen.number(rng, rng.choice([rng.uniform(0.05, 4.0), 0.5, 1.0, 2.0, 3.0, 0.3, 1.0 / numpy.pi])))

    def build(self, p):
        return db.PolyphaseRateFilter(**p)

    def tweak(self, rng, p):
        if rng.uniform() < 0.4:
            v = float(rng.uniform(0.1, 4.0))
            return f"rate {v:.3g}", lambda o: setattr(o, "rate", v)
        if rng.uniform() < 0.3:
            v = rng.normal(size=15)
            return "assign s", lambda o: setattr(o, "s", numpy.array(v))
        return super().tweak(rng, p)


class Window(Spec):
    name = "WindowFilter"
    stream = False

    def params(self, rng):
        return dict(style=str(rng.choice(db.WindowFilter.STYLE)), order=int(rng.choice([0, 2, 3, 7, 8, 31, 63, 99, 127])), normal=bool(rng.integers(0, 2)))

    def build(self, p):
        return db.WindowFilter(**p)

    def length(self, rng, p):
        return p["order"] + 1

    def tweak(self, rng, p):
        return "read b", lambda o: o.b

    def scale(self, p, x):
        return 5.0


class Static(Spec):
    """A transform without instances."""

    stream = False

    def build(self, p):
        return p

    def tweak(self, rng, p):
        return "none", lambda o: None


class Complex(Static):
    name = "ComplexTransform"

    def params(self, rng):
        return dict(neutral=bool(rng.integers(0, 2)), shape=int(rng.integers(0, 3)))

    def signal(self, rng, n, p):
        if p["shape"] == 2:
            return numpy.stack([gen.real(rng, n, scale=1.0)[0] for _ in range(3)])
        x = gen.cplx(rng, n)[0]
        return x if p["shape"] == 0 else x[numpy.newaxis, :]

    def run(self, o, x):
        return [db.ComplexTransform.transform(x, o["neutral"])]

    def scale(self, p, x):
        return 4.0


class Fourier(Static):
    name = "FourierTransform"

    def params(self, rng):
        n = gen.length(rng, 40, tail=600)
        b = rng.uniform(0.2, 2.0, n)
        if n > 3 and rng.uniform() < 0.3:
            b[0 if rng.uniform() < 0.7 else n - 1 :: n - 1] = 0.0  # both ends, or the last
        if rng.uniform() < 0.15:
            b = b * numpy.exp(1j * rng.uniform(-3, 3, n))
        return dict(b=b, inverse=bool(rng.integers(0, 2)))

    def length(self, rng, p):
        return len(p["b"]) + int(rng.integers(0, 5))

    def run(self, o, x):
        return list(db.FourierTransform.transform(x, o["b"], o["inverse"]))

    def scale(self, p, x):
        return 10.0 * len(x)


class Psd(Static):
    name = "PsdTransform"

    def params(self, rng):
        n = gen.length(rng, 30, 2) if rng.uniform() < 0.9 else int(rng.integers(40, 400))
        return dict(b=rng.uniform(0.2, 2.0, n), index=int(rng.integers(1, 20)), spectrogram=bool(rng.integers(0, 2)))

    def length(self, rng, p):
        return len(p["b"]) + int(rng.integers(0, 80))

    def run(self, o, x):
        return list(db.PsdTransform.transform(x, o["b"], o["index"], o["spectrogram"]))

    def scale(self, p, x):
        return 10.0 * float(numpy.abs(x).max())


class Wavelet(Spec):
    name = "WaveletTransform"
    stream = False

    def params(self, rng):
        style = str(rng.choice(list(db.WaveletTransform.B)))
        return dict(style=style, order=int(rng.choice(list(db.WaveletTransform.B[style]))), count=int(rng.integers(1, 4)),
                    inverse=bool(rng.integers(0, 2)), two=bool(rng.integers(0, 2)))

    def build(self, p):
        o = db.WaveletTransform(p["style"], p["order"])
        return (o, p["count"], p["inverse"])

    def signal(self, rng, n, p):
        m = 2 ** p["count"]
        c = m * int(rng.integers(1, 5))
        if p["two"]:
            r = int(rng.choice([1, m]))
            return numpy.stack([gen.signal(rng, c, ("real",))[0] for _ in range(r)])
        return gen.signal(rng, c, self.kinds)[0]

    def run(self, o, x):
        return [o[0].transform(x, o[1], o[2])]

    def tweak(self, rng, p):
        return "read b", lambda o: o[0].b

    def scale(self, p, x):
        return 100.0


class Z(Static):
    name = "ZTransform"

    def params(self, rng):
        n = int(rng.integers(1, 5))
        # A numerator apart from the poles, of degree up to that of the denominator where a residue does not need less.
        bilinear = bool(rng.integers(0, 2))
        m = int(rng.integers(0, n + bilinear))
        v = numpy.poly(-rng.uniform(20.0, 30.0, m) * numpy.arange(1, m + 1)) if m else numpy.ones(1)
        return dict(frequency=gen.number(rng, rng.uniform(0.05, 0.9)), bilinear=bilinear, n=n, v=numpy.array(v) * rng.uniform(0.5, 2.0))

    def signal(self, rng, n, p):
        return numpy.poly(-rng.uniform(0.5, 2.0, p["n"]) * numpy.arange(1, p["n"] + 1))

    def run(self, o, x):
        return list(db.ZTransform.transform(x, o["v"], o["frequency"], o["bilinear"]))

    def scale(self, p, x):
        return 1e3


class Diversity(Spec):
    name = "DiversityModel"

    def params(self, rng):
        return dict(style=str(rng.choice(list(db.DiversityModel.STYLE))), order=int(rng.integers(1, 5) if rng.uniform() < 0.92 else rng.integers(5, 20)), width=int(rng.integers(1, 4)))

    def build(self, p):
        return db.DiversityModel(p["style"], p["order"])

    def signal(self, rng, n, p):
        x = rng.normal(size=(n, p["width"]))
        if rng.uniform() < 0.3:
            x[rng.integers(0, n, 2)] = 0.0
        if rng.uniform() < 0.3:
            x[rng.integers(0, n)] = x[rng.integers(0, n)]
        return numpy.round(x * 2.0) if rng.uniform() < 0.2 else x

    def length(self, rng, p):
        return int(rng.integers(1, 14))

    def run(self, o, x):
        return [o.fit(x)]

    def tweak(self, rng, p):
        if rng.uniform() < 0.3:
            return "clear", lambda o: o.clear()
        return "read s", lambda o: o.s


class Model:
    """A classifier with what it is asked: fit on construction, predict on run."""


class Gaussian(Spec):
    name = "GaussianModel"
    kinds = ("real",)

    def params(self, rng):
        n, w, c = int(rng.integers(6, 30) if rng.uniform() < 0.94 else rng.integers(60, 300)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
        if rng.uniform() < 0.1:
            n, w = n + 20, int(rng.integers(4, 9))
        if rng.uniform() < 0.08 and self.name == "GaussianModel":
            n = int(rng.integers(1, 4))
        y = rng.integers(0, c, n) * 3 - 2
        return dict(x=rng.normal(size=(n, w)) + y[:, None], y=y, regularize=float(rng.uniform(0.01, 1.0)))

    def build(self, p):
        o = db.GaussianModel(p["regularize"])
        o.fit(p["x"], p["y"])
        return o

    def signal(self, rng, n, p):
        return rng.normal(size=(n, p["x"].shape[1])) * rng.choice([1.0, 10.0])

    def length(self, rng, p):
        return int(rng.integers(1, 10))

    def run(self, o, x):
        return [o.predict(x)]

    def probe(self, o, p):
        """Where the first label changes along lines between observations of training."""
        x = p["x"][numpy.linspace(0, len(p["x"]) - 1, 7).astype(int)]
        u, v = x[:-1], 3.0 * x[1:] - 2.0 * x[:-1] + 0.1
        lo, hi = numpy.zeros(len(u)), numpy.ones(len(u))
        a, b = o.predict(u)[:, 0], o.predict(v)[:, 0]
        for _ in range(42):
            m = 0.5 * (lo + hi)
            k = o.predict(u + m[:, None] * (v - u))[:, 0] == a
            lo, hi = numpy.where(k, m, lo), numpy.where(k, hi, m)
        return [numpy.where(a == b, -1.0, lo)]

    def tweak(self, rng, p):
        n, w = p["x"].shape
        if rng.uniform() < 0.4:
            r = float(10.0 ** rng.uniform(-9, 1))
            return f"regularize {r:.3g}", lambda o: setattr(o, "regularize", r)
        # Many observations of each class, so that any regularization will do.
        x, y = rng.normal(size=(30, w)) * 2.0, numpy.arange(30) % int(rng.integers(1, 4)) - 1
        return "fit", lambda o: o.fit(numpy.array(x), numpy.array(y))


class GaussianMixture(Gaussian):
    name = "GaussianMixtureModel"

    def build(self, p):
        o = db.GaussianMixtureModel(order=1, index=20, regularize=p["regularize"])
        o.fit(p["x"], p["y"])
        return o

    def params(self, rng):
        p = super().params(rng)
        n = p["x"].shape[0]
        p["y"] = numpy.sort(numpy.tile(numpy.unique(p["y"]), n))[:: len(numpy.unique(p["y"]))][:n] if n > 6 else p["y"] * 0
        y, c = numpy.unique(p["y"], return_counts=True)
        if (c < 2).any():
            p["y"] = p["y"] * 0
        return p

    def tweak(self, rng, p):
        if rng.uniform() < 0.3:
            return "read", lambda o: (o.order, o.index)
        return super().tweak(rng, p)



ALL = [c() for c in (Fir, Iir, Derivative, Integral, Pid, Rank, Goertzel, ComplexExponential, ComplexBandpass, ComplexFrequency,
                     PolynomialRate, PolyphaseRate, Window, Complex, Fourier, Psd, Wavelet, Z, Diversity, Gaussian, GaussianMixture)]
BY_NAME = {c.name: c for c in ALL}


def pick(rng, which=None):
    names = which or [c.name for c in ALL]
    return BY_NAME[names[rng.integers(0, len(names))]]


def tolerance(spec, p, x, y):
    """Absolute tolerance between two equivalent computations of y from x."""
    m = max([float(numpy.abs(v).max()) for v in y if v.size] + [0.0])
    if not numpy.isfinite(m):
        m = 0.0
    return spec.loose * (m + spec.scale(p, x) * float(numpy.abs(x).max() if numpy.asarray(x).size else 0.0)) + 1e-300


def compare(ctx, spec, p, x, got, want, what, factor=1.0, **detail):
    g, w = spec.observe(got), spec.observe(want)
    ctx.ok(len(g) == len(w), f"{what}: number of results", **detail)
    for i, (u, v) in enumerate(zip(g, w)):
        u, v = numpy.asarray(u), numpy.asarray(v)
        ctx.ok(u.shape == v.shape, f"{spec.name} {what}: result {i} shape {u.shape} expected {v.shape}", **detail)
        t = tolerance(spec, p, x, [v]) * factor
        same = (u == v) | (numpy.isnan(u) & numpy.isnan(v)) if u.dtype.kind in "fc" and v.dtype.kind in "fc" else u == v
        ctx.close(f"{spec.name} {what}: result {i}", numpy.where(same, 0.0, u), numpy.where(same, 0.0, v), t, **detail)


def visible(o):
    """What the properties of an instance say, as values that stay."""
    o = o[0] if isinstance(o, tuple) else o
    out = {}
    for k in dir(type(o)):
        if not k.startswith("_") and isinstance(getattr(type(o), k), property):
            v = getattr(o, k)
            out[k] = numpy.array(v) if isinstance(v, (numpy.ndarray, list, tuple)) else v
    return out


def differs(u, v, rel=0.0):
    """The names of properties that differ between two such values, to a tolerance relative to the largest value."""
    out = sorted(set(u) ^ set(v))
    for k in set(u) & set(v):
        a, b = numpy.asarray(u[k]), numpy.asarray(v[k])
        if a.shape != b.shape or numpy.iscomplexobj(a) != numpy.iscomplexobj(b):
            out.append(k)
        elif a.dtype.kind in "biufc" and b.dtype.kind in "biufc":
            with numpy.errstate(all="ignore"):
                same = (a == b) | (numpy.isnan(a) & numpy.isnan(b)) | (numpy.abs(a - b) <= rel * max(numpy.abs(b).max(initial=0.0), numpy.abs(a).max(initial=0.0)))
            if not same.all():
                out.append(k)
        elif not (a == b).all():
            out.append(k)
    return out


def tables(bank=True):
    """A digest of every public class-level table of every component, without the lazily built filter bank if not bank."""
    import hashlib

    if bank:
        db.PolyphaseRateFilter(1.0)

    def put(h, v):
        if isinstance(v, dict):
            for k in v:
                h.update(repr(k).encode())
                put(h, v[k])
        elif isinstance(v, numpy.ndarray):
            h.update(str((v.dtype, v.shape)).encode() + numpy.ascontiguousarray(v).tobytes())
        elif isinstance(v, (list, tuple)):
            for u in v:
                put(h, u)
        elif not callable(v):
            h.update(repr(v).encode())

    out = {}
    for name in dir(db):
        c = getattr(db, name)
        if isinstance(c, type) and c.__module__.startswith("diamondback"):
            for k, v in vars(c).items():
                if isinstance(v, (dict, numpy.ndarray, list, tuple, str)) and not k.startswith("_") and (bank or name != "PolyphaseRateFilter"):
                    h = hashlib.sha256()
                    put(h, v)
                    out[f"{name}.{k}"] = h.hexdigest()
    return out


# Attributes of each component to which a caller may assign an array.
ARRAYS = dict(FirFilter=("b", "s"), IirFilter=("a", "b", "s"), DerivativeFilter=("b", "s"), IntegralFilter=("b",), PidFilter=("b", "s"), RankFilter=("s",),
              ComplexBandpassFilter=("b",), ComplexFrequencyFilter=("b",), PolyphaseRateFilter=("s",), DiversityModel=("s",))


def assignment(rng, spec, o):
    """A component's array attribute and a value of its shape and type to assign, or None."""
    names = ARRAYS.get(spec.name)
    if not names:
        return None
    k = names[rng.integers(0, len(names))]
    v = numpy.asarray(getattr(o, k))
    if not v.size:
        return None
    w = rng.normal(size=v.shape)
    if numpy.iscomplexobj(v):
        w = w + 1j * rng.normal(size=v.shape)
    if k == "a":
        w = w * 0.3 / v.size
        w[0] = 0.0
    return k, w
