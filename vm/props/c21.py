import numpy

from diamondback import PsdTransform, WindowFilter
from vm import gen, oracle
from vm.engine import Kind

RULE = ("Each case computes spectrogram and PSD of a random real, complex or integer signal with a random window and stride (below, at and beyond the "
        "window length, exact and inexact fits) and compares every row, the mean and the frequencies with direct sums. Signatures are (window, stride, signal).")
ASSUMPTIONS = ["rounding up to 1e-12 sqrt(N) of the squared sums is accepted"]
REACH = ("even", "odd", "one row", "many rows", "stride 1", "stride beyond window", "exact fit", "real", "complex", "int", "window of one", "scaled",
         "rejected window", "rejected stride", "rejected empty", "window equals signal", "very many rows", "long window", "complex window")


def psd(ctx):
    rng = ctx.rng
    n = int(rng.choice([gen.length(rng, 64), rng.integers(1, 12), 2 ** rng.integers(0, 7)]))
    if rng.uniform() < 0.03:
        n = int(rng.integers(64, 700))
        ctx.tag("long window")
    total = n + int(rng.choice([0, 1, rng.integers(0, 40), rng.integers(0, 200)]))
    index = int(rng.choice([1, n, rng.integers(1, n + 1), n + rng.integers(1, 20), max(1, total - n), max(1, n // 2)]))
    if total // index > 120 and rng.uniform() < 0.9:
        index = max(index, total // 60)
    b = (WindowFilter("Hann", n - 1).b if n > 2 else numpy.ones(n)) if rng.uniform() < 0.4 else rng.integers(1, 4, n) if rng.uniform() < 0.2 else rng.normal(size=n) + 0.1
    if rng.uniform() < 0.02:
        # Very many rows.
        n = int(rng.integers(2, 8))
        b, index, total = rng.normal(size=n) + 0.1, int(rng.integers(1, 3)), int(rng.integers(1500, 5000))
    if rng.uniform() < 0.1:
        b = b * numpy.exp(1j * rng.uniform(-3, 3, n))
        ctx.tag("complex window")
    x, d = gen.signal(rng, total)
    s, f = PsdTransform.transform(gen.container(rng, x), gen.container(rng, b), index, True)
    rows = (total - n) // index + 1
    ctx.event(rows)
    k = n // 2
    ctx.ok(numpy.shape(s) == (rows, k), f"spectrogram of shape {numpy.shape(s)}, expected {(rows, k)}", length=n, index=index, total=total)
    freq = 2.0 * numpy.arange(k) / n
    ctx.close("frequencies", f, freq, 1e-12)
    want = numpy.zeros((rows, k))
    tol = numpy.zeros((rows, 1))
    e = numpy.exp(-1j * numpy.pi * numpy.outer(freq, numpy.arange(n)))
    for r in range(rows):
        u = x[r * index : r * index + n] * b
        want[r] = numpy.abs((e * u).sum(axis=1) / n) ** 2
        m = numpy.abs(u).sum() / n
        tol[r] = 1e-12 * numpy.sqrt(n) * m * m + 1e-300
    ctx.close("spectrogram", s, want, tol, length=n, index=index, total=total, signal=d)
    ctx.ok((numpy.asarray(s) >= 0.0).all(), "values are never negative")
    y, g = PsdTransform.transform(x, b, index) if rng.uniform() < 0.5 else PsdTransform.transform(x=x, b=b, index=index, spectrogram=False)
    ctx.close("frequencies", g, freq, 1e-12)
    ctx.close("PSD is the mean of the rows", y, want.mean(axis=0), float(tol.max()), length=n, index=index, total=total, signal=d)
    a = float(2.0 ** rng.integers(-20, 20))
    ctx.close("PSD scales with the square", PsdTransform.transform(a * x, b, index)[0], a * a * numpy.asarray(y), 1e-12 * a * a * float(tol.max()) + 1e-290)
    ctx.tag("odd" if n % 2 else "even", d.split(":")[0], "scaled", *(["very many rows"] if rows > 1024 else []), "one row" if rows == 1 else "many rows" if rows > 5 else "rows", *(["stride 1"] if index == 1 else []),
            *(["stride beyond window"] if index > n and rows > 1 else []), *(["exact fit"] if rows > 1 and (total - n) % index == 0 else []),
            *(["window of one"] if n == 1 else []), *(["window equals signal"] if total == n else []))
    ctx.note(length=n, total=total, index=index, rows=rows, signal=d)
    ctx.sig(n, total, index, d, b[:2], x[:2])
    ctx.trivial = n < 2


def rejects(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 9))
    x = rng.normal(size=n)
    t = PsdTransform.transform
    ctx.raises(ValueError, "empty", t, [], numpy.ones(n), 1)
    ctx.raises(ValueError, "window longer", t, x, numpy.ones(n + int(rng.integers(1, 4))), 1)
    ctx.raises(ValueError, "vanishing window", t, x, numpy.zeros(n), 1)
    ctx.raises(ValueError, "empty window", t, x, [], 1)
    ctx.raises(ValueError, "stride 0", t, x, numpy.ones(n), 0)
    ctx.raises(ValueError, "negative stride", t, x, numpy.ones(n), -int(rng.integers(1, 5)))
    ctx.tag("rejected window", "rejected stride", "rejected empty")
    ctx.note(length=n)
    ctx.sig(n)


KINDS = dict(psd=Kind(psd, 25200, 756000), rejects=Kind(rejects, 60, 60))
