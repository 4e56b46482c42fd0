import numpy
import sklearn.mixture

from diamondback import GaussianMixtureModel, GaussianModel
from vm.engine import Kind
from vm.props.c25 import Model, boundary, convert, data, layout, vary

RULE = ("A recorder on sklearn.mixture.GaussianMixture.fit observes the components each class was given; each case then judges every predicted row as a "
        "permutation of the labels in descending order of independently computed mixture scores (in logarithms), near, between and far from the "
        "classes. Further cases compare one-component models with a Gaussian model, and check recognition of well-separated classes. Signatures are the training set.")
ASSUMPTIONS = ["labels whose log scores agree within 1e-7 relative may come in either order",
               "mixture scores are judged on fits whose components were observed; the fitting itself is scikit-learn's"]
REACH = ("large batch", "integer observations", "single precision observations", "other layout", "components observed", "one component", "several components", "very many classes", "many dimensions", "near a boundary", "one class", "many classes", "distant", "underflow", "equal to Gaussian", "separated", "refit", "variation refitted",
         "batch independence", "parameters assigned after fit", "negative labels", "vanishing weight", "rejected before fit", "rejected width", "rejected length", "rejected labels", "rejected empty", "rejected parameters")


class Recorder:
    """Observes every fit of a mixture."""

    def __enter__(self):
        self.events, self.fit = [], sklearn.mixture.GaussianMixture.fit
        events, fit = self.events, self.fit

        def record(this, x, y=None):
            out = fit(this, x, y)
            events.append((numpy.array(x), this))
            return out

        sklearn.mixture.GaussianMixture.fit = record
        return self

    def __exit__(self, *_):
        sklearn.mixture.GaussianMixture.fit = self.fit


def key(x):
    return sorted(map(tuple, numpy.asarray(x, float).tolist()))


class Mixture:
    """Components of each label, from the recorded fits."""

    def __init__(self, x, y, events):
        self.labels = sorted(set(y.tolist()))
        self.parts = []
        for v in self.labels:
            rows = key(x[y == v])
            m = [g for u, g in events if key(u) == rows]
            if len(m) != 1:
                self.parts = None
                return
            self.parts.append([(numpy.array(w), numpy.array(u), numpy.array(c)) for w, u, c in zip(m[0].weights_, m[0].means_, m[0].covariances_)])

    def scores(self, x):
        out, tol = [], []
        for part in self.parts:
            s, e = [], []
            for w, u, c in part:
                d = float((x - u) @ numpy.linalg.solve(c, x - u))
                if w > 0:
                    s.append(numpy.log(w) - 0.5 * d)
                    e.append(1e-13 * numpy.linalg.cond(c) * (abs(d) + 1.0))
            m = max(s)
            out.append(m + numpy.log(sum(numpy.exp(v - m) for v in s)))
            tol.append(max(e) + 1e-7 * (1.0 + abs(out[-1])) * 1e-2)
        return numpy.array(out), numpy.array(tol)


def judge(ctx, v, x, model, what):
    v, x = numpy.asarray(v), numpy.asarray(x, float)
    ctx.ok(v.shape == (len(x), len(model.labels)), f"{what}: shape {v.shape}, expected {(len(x), len(model.labels))}")
    for row, z in zip(v.tolist(), x):
        ctx.event()
        ctx.ok(sorted(row) == model.labels, f"{what}: every label exactly once", got=row, labels=model.labels)
        if not model.parts:
            continue
        s, t = model.scores(z)
        k = [model.labels.index(r) for r in row]
        if s.max() < -800:
            ctx.tag("underflow")
        for i, j in zip(k, k[1:]):
            ctx.ok(s[i] >= s[j] - t[i] - t[j], f"{what}: descending score", labels=row, scores=s[k], observation=z)


def fit(ctx, o, x, y):
    numpy.random.seed(int(ctx.rng.integers(0, 2**31)))
    with Recorder() as r:
        o.fit(x, y)
    return r.events


def history(ctx):
    rng = ctx.rng
    order = int(rng.integers(1, 5)) if rng.uniform() < 0.96 else int(rng.integers(5, 25))
    reg = float(rng.choice([0.1, rng.uniform(1e-3, 1.0), 10.0 ** rng.uniform(-3, 2)]))
    o = GaussianMixtureModel(order=order, index=int(rng.integers(1, 60)), regularize=reg)
    log = [order, reg]
    for k in range(int(rng.choice([1, 1, 2]))):
        w = int(rng.integers(6, 12)) if rng.uniform() < 0.06 else None
        c = int(rng.integers(8, 16)) if rng.uniform() < 0.04 else None
        x, y, tag = data(rng, w, least=max(order, 2), most=max(16, order + 10), classes=c)
        ctx.tag(*(["very many classes"] if c else []), *(["many dimensions"] if w else []))
        x = convert(ctx, x, True)
        m = Mixture(x, y, fit(ctx, o, layout(ctx, numpy.array(x)), numpy.array(y)))
        x = x.astype(float)
        if m.parts:
            ctx.tag("components observed")
            if any(float(w) < 1e-12 for part in m.parts for w, _, _ in part):
                ctx.tag("vanishing weight")
        if rng.uniform() < 0.15:
            o.regularize, o.index = float(10.0 ** rng.uniform(-2, 2)), int(rng.integers(1, 60))
            ctx.tag("parameters assigned after fit")
        n = int(rng.integers(2, 10)) if rng.uniform() < 0.985 else int(rng.integers(200, 800))
        if n > 256:
            ctx.tag("large batch")
        for far in (False, True):
            z = rng.normal(size=(n, x.shape[1])) * (10.0 ** rng.uniform(2, 5) if far else 3.0) + x.mean(axis=0)
            if not far:
                z[0] = x[rng.integers(0, len(x))]
            if not far and m.parts and rng.uniform() < 0.4:
                near = boundary(rng, lambda v: m.scores(v)[0], x, min(n, 4))
                if len(near):
                    z, n = near, len(near)
                    ctx.tag("near a boundary")
            z = convert(ctx, z)
            v = o.predict(layout(ctx, numpy.array(z)))
            judge(ctx, v, z, m, "predict")
            i = int(rng.integers(0, n))
            judge(ctx, o.predict(numpy.array(z[i : i + 1])), z[i : i + 1], m, "predict one observation")
            judge(ctx, o.predict(numpy.array(z[::-1])), z[::-1], m, "predict in reverse")
        ctx.tag(tag, "distant", "batch independence", "one component" if order == 1 else "several components" if order < 10 else "many components", "one class" if len(m.labels) == 1 else "many classes",
                *(["refit"] if k else []))
        log.append((x.shape, len(m.labels), x[0]))
    # Weights that vanish contribute nothing.
    ctx.note(order=order, regularize=reg, labels=m.labels, observed=bool(m.parts))
    ctx.sig(log)


def vanishing(ctx):
    """More components than distinct observations leave components without weight."""
    rng = ctx.rng
    w = int(rng.integers(1, 3))
    x = numpy.concatenate([numpy.repeat(rng.normal(size=(1, w)) * 5.0, 4, axis=0) for _ in range(2)])
    y = numpy.repeat([3, -2], 4)
    o = GaussianMixtureModel(order=3, index=20, regularize=1e-2)
    m = Mixture(x, y, fit(ctx, o, x, y))
    z = numpy.concatenate((x[[0, 4]], rng.normal(size=(3, w)) * 100.0))
    judge(ctx, o.predict(z), z, m, "predict")
    ctx.ok(o.predict(z)[:2, 0].tolist() == [3, -2], "separated classes are recognized", got=o.predict(z)[:2])
    ctx.tag("vanishing weight")
    ctx.note(width=w)
    ctx.sig(x)


def single(ctx):
    """One component per class ranks as a Gaussian model."""
    rng = ctx.rng
    x, y, tag = data(rng, least=2)
    reg = float(10.0 ** rng.uniform(-2, 1))
    g, o = GaussianModel(reg), GaussianMixtureModel(order=1, index=10, regularize=reg)
    for _ in range(int(rng.integers(0, 3))):
        g.fit(x, y)
        fit(ctx, o, x, y)
        if rng.uniform() < 0.3:
            o.predict(x[:1])
        x, y = vary(rng, x, y)
        ctx.tag("variation refitted")
    g.fit(x, y)
    fit(ctx, o, x, y)
    n = int(rng.integers(1, 12))
    z = rng.normal(size=(n, x.shape[1])) * 4.0 * float(rng.choice([1.0, 1e3])) + x.mean(axis=0)
    u, v = numpy.asarray(g.predict(z)), numpy.asarray(o.predict(z))
    m = Model(x, y, reg)
    for i in range(n):
        ctx.event()
        d, t = m.distances(z[i])
        ctx.ok(sorted(v[i].tolist()) == m.labels, "every label exactly once", got=v[i])
        k = [m.labels.index(r) for r in v[i].tolist()]
        for a, b in zip(k, k[1:]):
            ctx.ok(d[a] <= d[b] + t[a] + t[b] + 1e-7 * (1.0 + d[b]), "ranking of one component equals the Gaussian ranking", mixture=v[i], gaussian=u[i], distances=d)
    ctx.tag("equal to Gaussian", "one component", tag)
    ctx.note(regularize=reg, labels=m.labels, queries=n)
    ctx.sig(reg, x.shape, x[0])


def separated(ctx):
    rng = ctx.rng
    c, w, order = int(rng.integers(2, 5)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
    centre = rng.permutation(c)[:, None] * 100.0 + rng.normal(size=(c, w))
    labels = rng.choice(numpy.arange(-50, 50), c, False)
    n = 12
    x = numpy.concatenate([rng.normal(size=(n, w)) + centre[i] for i in range(c)])
    y = numpy.repeat(labels, n)
    p = rng.permutation(len(y))
    o = GaussianMixtureModel(order, 50, 0.1)
    fit(ctx, o, x[p], y[p])
    z = numpy.concatenate([rng.normal(size=(5, w)) + centre[i] for i in range(c)])
    v = numpy.asarray(o.predict(z))
    ctx.event(len(z))
    ctx.ok((v[:, 0] == numpy.repeat(labels, 5)).all(), "well-separated classes are recognized", got=v[:, 0], want=numpy.repeat(labels, 5))
    ctx.tag("separated")
    ctx.note(classes=c, width=w, order=order, labels=labels)
    ctx.sig(c, w, order, labels)


def rejects(ctx):
    rng = ctx.rng
    w = int(rng.integers(1, 4))
    o = GaussianMixtureModel(2, 10, 0.5)
    z = rng.normal(size=(3, w))
    ctx.raises(ValueError, "predict before fit", o.predict, z)
    k = -int(rng.integers(0, 5))
    r = -float(10.0 ** rng.uniform(-9, 3))
    ctx.raises(ValueError, "order", GaussianMixtureModel, k)
    ctx.raises(ValueError, "index", GaussianMixtureModel, 1, k)
    ctx.raises(ValueError, "regularize", GaussianMixtureModel, 1, 1, r)
    ctx.raises(ValueError, "index", lambda: setattr(o, "index", k))
    ctx.raises(ValueError, "regularize", lambda: setattr(o, "regularize", r))
    ctx.ok(o.index == 10 and o.order == 2 and o.regularize == 0.5, "parameters after rejections")
    x, y = rng.normal(size=(12, w)), numpy.repeat([0, 4, -3], 4)
    ctx.raises(ValueError, "length", o.fit, x, y[: int(rng.integers(1, 8))])
    ctx.raises(ValueError, "one dimension", o.fit, rng.normal(size=12), y)
    ctx.raises(ValueError, "empty", o.fit, numpy.zeros((0, w)), numpy.zeros(0, int))
    ctx.raises(TypeError, "real labels", o.fit, x, y.astype(float))
    ctx.raises(ValueError, "predict before a successful fit", o.predict, z)
    m = Mixture(x, y, fit(ctx, o, x, y))
    for bad in (rng.normal(size=(3, w + 1)), rng.normal(size=w), numpy.zeros((0, w))):
        ctx.raises(ValueError, f"predict shape {bad.shape}", o.predict, bad)
    ctx.raises(TypeError, "real labels", o.fit, x, y.astype(float))
    judge(ctx, o.predict(z), z, m, "predict after rejections")
    ctx.tag("rejected before fit", "rejected width", "rejected length", "rejected labels", "rejected empty", "rejected parameters")
    ctx.note(width=w)
    ctx.sig(w, x)


KINDS = dict(history=Kind(history, 1800, 54000), vanishing=Kind(vanishing, 90, 2700), single=Kind(single, 900, 27000), separated=Kind(separated, 540, 16200), rejects=Kind(rejects, 60, 60))
