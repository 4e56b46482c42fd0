import numpy

from diamondback import GaussianModel
from vm.engine import Kind

RULE = ("Each case fits a Gaussian model with random classes (any integer labels and types, one to many observations per class, interleaved, correlated, "
        "scaled), repeats or replaces the fit, and judges each predicted row as a permutation of the labels in ascending order of independently computed "
        "Mahalanobis distance; batches, single observations and repeated predictions are compared. Signatures are the training set.")
ASSUMPTIONS = ["labels whose distances agree within the conditioning of their covariance (relative 1e-7) may come in either order"]
REACH = ("large batch", "integer observations", "single precision observations", "other layout", "one class", "many classes", "single observation", "negative labels", "unsigned labels", "sparse labels", "huge labels", "far from the origin", "variation refitted", "small classes", "very many classes", "many dimensions", "very many dimensions", "near a boundary", "large class", "refit", "fewer classes after refit",
         "distant", "regularize 0", "regularize large", "one dimension", "several dimensions", "batch independence", "repeat", "regularize assigned", "regularize assigned after fit",
         "rejected before fit", "rejected width", "rejected length", "rejected labels", "rejected empty", "rejected regularize")


def data(rng, width=None, least=1, most=12, classes=None, offset=0.0):
    w = width or int(rng.integers(1, 6))
    c = classes or int(rng.choice([1, 2, 3, rng.integers(2, 8)]))
    k = rng.integers(0, 4)
    pool = (numpy.arange(c) if k == 0 else rng.choice(numpy.arange(-1000, 1000), c, False) if k == 1 else rng.choice(numpy.arange(200), c, False) if k == 2
            else numpy.sort(rng.choice(numpy.arange(10**6), c, False)) * 10**6)
    dtype = (numpy.int64, numpy.int64, numpy.uint8, numpy.int64)[k]
    tag = ("labels", "negative labels", "unsigned labels", "sparse labels")[k]
    if rng.uniform() < 0.06:
        pool = [2**63 + int(v) * int(rng.choice([1, -1])) - int(rng.integers(0, 2)) * 2**62 for v in rng.choice(numpy.arange(50), c, False)]
        dtype, tag = numpy.uint64, "huge labels"
        if len(set(pool)) < c:
            pool = [2**60 + v for v in range(c)]
    x, y = [], []
    for v in pool:
        n = int(rng.integers(least, most + 1)) if rng.uniform() < 0.95 else int(rng.integers(50, 300))
        m = rng.normal(size=(w, w)) * 10.0 ** rng.uniform(-1, 1)
        u = rng.normal(size=(n, w)) if rng.uniform() < 0.6 else rng.exponential(size=(n, w)) if rng.uniform() < 0.5 else rng.choice([0.0, 1.0, 7.0], (n, w))
        x.append(u @ m + rng.normal(size=w) * 3.0)
        y += [v] * n
    x, y = numpy.concatenate(x) + offset * rng.normal(size=w), numpy.array(y, dtype)
    p = rng.permutation(len(y))
    return x[p], y[p], tag


class Model:
    def __init__(self, x, y, r):
        self.labels = sorted(set(y.tolist()))
        self.parts = []
        for v in self.labels:
            z = x[[i for i in range(len(y)) if y[i] == v]]
            u = z.sum(axis=0) / len(z)
            c = sum(numpy.outer(q - u, q - u) for q in z) / len(z) + r * numpy.eye(x.shape[1])
            self.parts.append((u, c, float(numpy.linalg.cond(c))))

    def distances(self, x):
        d, t = [], []
        for u, c, k in self.parts:
            e = x - u
            f = numpy.linalg.solve(c, e)
            d.append(float(e @ f))
            s, q = 1e-14 * float(numpy.abs(u).max()), float(numpy.linalg.norm(f))
            t.append(s * q * (1.0 + q * float(numpy.linalg.norm(c, 2)) ** 0.5) + 1e-14 * k * (abs(d[-1]) + float(e @ e) / float(numpy.linalg.norm(c, 2))) + 1e-9 * abs(d[-1]) + 1e-14 * k)
        return numpy.array(d), numpy.array(t)


def judge(ctx, v, x, model, what):
    v, x = numpy.asarray(v), numpy.asarray(x, float)
    ctx.ok(v.shape == (len(x), len(model.labels)), f"{what}: shape {v.shape}, expected {(len(x), len(model.labels))}")
    for row, z in zip(v.tolist(), x):
        ctx.event()
        ctx.ok(sorted(row) == model.labels, f"{what}: every label exactly once", got=row, labels=model.labels)
        d, t = model.distances(z)
        if len(d) > 1:
            e = numpy.sort(d)
            e = (e[1:] - e[:-1]) / (e[1:] + 1e-300)
            if ((e < 1e-5) & (e > 1e-7)).any():
                ctx.tag("near a boundary")
        k = [model.labels.index(r) for r in row]
        for i, j in zip(k, k[1:]):
            ctx.ok(d[i] <= d[j] + t[i] + t[j], f"{what}: ascending distance", labels=row, distances=d[k], observation=z)


def vary(rng, x, y):
    """Another training set that shares much with one fitted before."""
    x, y = numpy.array(x), numpy.array(y)
    k = rng.integers(0, 5)
    if k == 0:
        for v in set(y.tolist()):
            u = x[y == v].mean(axis=0)
            x[y == v] = (x[y == v] - u) * 10.0 ** rng.uniform(-1, 1, x.shape[1]) + u
    elif k == 1:
        i = rng.integers(0, len(x))
        x[i] = x[i] + rng.normal(size=x.shape[1]) * 5.0
    elif k == 2:
        pool = numpy.unique(y)
        y = rng.permutation(pool)[numpy.searchsorted(pool, y)]
    elif k == 3:
        x, y = numpy.concatenate((x, x[: len(x) // 2] + 1.0)), numpy.concatenate((y, y[: len(x) // 2]))
    else:
        x = x + rng.normal(size=x.shape[1])
    return x, y


def boundary(rng, score, x, n):
    """Points close to where the scores of two labels cross, to either side."""
    out = []
    for _ in range(4 * n):
        u, v = x[rng.integers(0, len(x))], x[rng.integers(0, len(x))] + rng.normal(size=x.shape[1])
        su, sv = score(u), score(v)
        if len(su) < 2 or len(out) >= n:
            break
        i, j = rng.choice(len(su), 2, False)
        if (su[i] < su[j]) == (sv[i] < sv[j]):
            continue
        lo, hi = 0.0, 1.0
        for _ in range(50):
            m = 0.5 * (lo + hi)
            s = score(u + m * (v - u))
            lo, hi = (m, hi) if (s[i] < s[j]) == (su[i] < su[j]) else (lo, m)
        out.append(u + (lo + rng.choice([-1.0, 1.0]) * 10.0 ** rng.uniform(-8, -3)) * (v - u))
    return numpy.array(out)


def layout(ctx, x):
    """The same values in another memory layout."""
    rng = ctx.rng
    k = rng.integers(0, 8)
    if k > 2:
        return x
    ctx.tag("other layout")
    if k == 0:
        return numpy.asfortranarray(x)
    z = numpy.zeros((2 * x.shape[0], x.shape[1] + 1), x.dtype) + 77
    z[::2, 1:] = x
    return z[::2, 1:] if k == 1 else numpy.array(x[::-1])[::-1]


def convert(ctx, x, train=False):
    """Rarely, observations of integers or of single precision, exact in the type presented."""
    rng = ctx.rng
    if rng.uniform() > 0.12:
        return x
    if rng.uniform() < 0.5 or train:
        t = rng.choice([numpy.int16, numpy.int32, numpy.int64, numpy.uint8, numpy.int8])
        ctx.tag("integer observations")
        i = numpy.iinfo(t)
        return numpy.clip(numpy.round(x * float(rng.choice([1.0, 4.0]))), i.min, i.max).astype(t)
    ctx.tag("single precision observations")
    return x.astype(numpy.float32)


def queries(ctx, x, model=None):
    rng = ctx.rng
    n = int(rng.integers(1, 12)) if rng.uniform() < 0.985 else int(rng.integers(200, 1500))
    if n > 512:
        ctx.tag("large batch")
    k = rng.integers(0, 3)
    if model and rng.uniform() < 0.25:
        z = boundary(rng, lambda v: model.distances(v)[0], x, min(n, 5))
        if len(z):
            return z
    if k == 0:
        return x[rng.integers(0, len(x), n)]
    if k == 1:
        return rng.normal(size=(n, x.shape[1])) * 3.0 + x.mean(axis=0)
    ctx.tag("distant")
    return rng.normal(size=(n, x.shape[1])) * 10.0 ** rng.uniform(2, 6)


def history(ctx):
    rng = ctx.rng
    r = float(rng.choice([0.1, rng.uniform(1e-3, 1.0), 10.0 ** rng.uniform(-3, 3), 0.0]))
    o = GaussianModel() if r == 0.1 and rng.uniform() < 0.5 else GaussianModel(regularize=r)
    ctx.ok(o.regularize == r, "regularize after construction", got=o.regularize)
    log, last = [r], None
    for k in range(int(rng.integers(1, 4))):
        if k and rng.uniform() < 0.3:
            r = float(rng.choice([rng.uniform(1e-3, 1.0), 5.0]))
            o.regularize = r
            ctx.tag("regularize assigned")
        w = int(rng.integers(6, 14)) if rng.uniform() < 0.1 else int(rng.integers(1, 6))
        w = int(rng.integers(16, 40)) if rng.uniform() < 0.02 else w
        c = int(rng.integers(8, 24)) if rng.uniform() < 0.06 else None
        if k and rng.uniform() < 0.4:
            x, y = vary(rng, x, y)
            ctx.tag("variation refitted")
        else:
            far = 10.0 ** rng.uniform(2, 7) if rng.uniform() < 0.12 else 0.0
            x, y, tag = data(rng, w, least=1 if r > 0 else w + 6, most=12 if r > 0 else w + 20, classes=c, offset=far)
            if far:
                ctx.tag("far from the origin")
        ctx.tag(*(["very many classes"] if c else []), *(["many dimensions"] if w > 6 else []), *(["very many dimensions"] if w > 20 else []))
        x = convert(ctx, x, True) if r > 0 else x
        fx, fy = layout(ctx, numpy.array(x)), numpy.array(y)
        x = x.astype(float)
        fx.flags.writeable = fy.flags.writeable = False
        o.fit(fx, fy)
        m = Model(x, y, r)
        if k:
            ctx.tag("refit", *(["fewer classes after refit"] if last > len(m.labels) else []))
        last = len(m.labels)
        ctx.ok(tuple(o.shape) == (x.shape[1],), "shape after fit", got=o.shape)
        if rng.uniform() < 0.15:
            o.regularize = r = float(10.0 ** rng.uniform(-2, 2)) if r > 0 else r
            ctx.tag("regularize assigned after fit")
        for _ in range(2):
            z = convert(ctx, queries(ctx, x, m))
            v = o.predict(layout(ctx, numpy.array(z)))
            judge(ctx, v, z, m, "predict")
            again = o.predict(numpy.array(z))
            ctx.ok((numpy.asarray(v) == numpy.asarray(again)).all(), "a repeated prediction is equal")
            i = int(rng.integers(0, len(z)))
            judge(ctx, o.predict(numpy.array(z[i : i + 1])), z[i : i + 1], m, "predict one observation")
            judge(ctx, o.predict(numpy.array(z[::-1])), z[::-1], m, "predict in reverse")
        ctx.tag(tag, "one class" if last == 1 else "many classes", "repeat", "batch independence", "one dimension" if x.shape[1] == 1 else "several dimensions",
                *(["regularize 0"] if r == 0 else ["regularize large"] if r > 1 else []))
        c = [int((y == v).sum()) for v in m.labels]
        ctx.tag(*(["single observation"] if 1 in c else []), *(["small classes"] if min(c) <= x.shape[1] else []), *(["large class"] if max(c) > 64 else []))
        log.append((x.shape, c, x[0]))
    ctx.note(regularize=r, fits=len(log) - 1, classes=last, labels=m.labels)
    ctx.sig(log)


def rejects(ctx):
    rng = ctx.rng
    w = int(rng.integers(1, 4))
    o = GaussianModel(0.5)
    z = rng.normal(size=(3, w))
    ctx.raises(ValueError, "predict before fit", o.predict, z)
    v = -float(10.0 ** rng.uniform(-9, 3))
    ctx.raises(ValueError, "regularize", GaussianModel, v)
    ctx.raises(ValueError, "regularize", lambda: setattr(o, "regularize", v))
    x, y = rng.normal(size=(8, w)), rng.integers(0, 3, 8)
    for u in (x, numpy.zeros((0, w))):
        ctx.raises(ValueError, "length", o.fit, u, y[: int(rng.integers(1, 8))])
    ctx.raises(ValueError, "one dimension", o.fit, rng.normal(size=8), y)
    ctx.raises(ValueError, "empty", o.fit, numpy.zeros((0, w)), numpy.zeros(0, int))
    ctx.raises(TypeError, "real labels", o.fit, x, y.astype(float))
    ctx.raises(TypeError, "boolean labels", o.fit, x, y > 0)
    ctx.raises(ValueError, "predict before a successful fit", o.predict, z)
    o.fit(x, y)
    m = Model(x, y, 0.5)
    for bad in (rng.normal(size=(3, w + 1)), rng.normal(size=w), numpy.zeros((0, w))):
        ctx.raises(ValueError, f"predict shape {bad.shape}", o.predict, bad)
    ctx.raises(TypeError, "real labels", o.fit, x, y.astype(float))
    judge(ctx, o.predict(z), z, m, "predict after rejections")
    ctx.tag("rejected before fit", "rejected width", "rejected length", "rejected labels", "rejected empty", "rejected regularize")
    ctx.note(width=w)
    ctx.sig(w, x)


KINDS = dict(history=Kind(history, 3600, 108000), rejects=Kind(rejects, 120, 200))
