"""Reference models, written from the documentation and independent of the code under test."""

import math

import numpy
import scipy.signal

EPS = numpy.finfo(float).eps


def fir(b, past, x):
    """y[n] = sum b[i] x[n-i] with past = samples before the first, newest first; also a bound on |terms|."""
    b = numpy.asarray(b)
    n = len(b)
    past = numpy.asarray(past)[: n - 1]
    h = numpy.concatenate((past[::-1], numpy.asarray(x)))
    y = numpy.convolve(h, b)[n - 1 : n - 1 + len(x)]
    u = numpy.convolve(numpy.abs(h), numpy.abs(b))[n - 1 : n - 1 + len(x)]
    return y, u


class Iir:
    """y[n] = sum_{i>=1} a[i] y[n-i] + sum b[i] x[n-i], keeping the whole past of x and y that matters."""

    def __init__(self, a, b):
        n = max(len(a), len(b))
        self.a = numpy.concatenate((a, numpy.zeros(n - len(a))))
        self.b = numpy.concatenate((b, numpy.zeros(n - len(b))))
        self.n = n
        self.x = numpy.zeros(n - 1, complex)
        self.y = numpy.zeros(n - 1, complex)
        d = numpy.concatenate(([1.0], -self.a[1:]))
        imp = numpy.zeros(1000)
        imp[0] = 1.0
        self.h = numpy.abs(scipy.signal.lfilter([1.0], d, imp))
        self.gain = self.h.sum()
        self.level = 0.0
        # The local scale of rounding: sources since the last known state, and the intermediate sequence they perturb.
        self.source = numpy.zeros(0)
        self.w = numpy.zeros(n - 1, complex)
        self.local = None

    def steady(self, v):
        h = self.b.sum() / (1.0 - self.a.sum())
        self.x[:] = v
        self.y[:] = v * h
        self.level = max(self.level, abs(v) * self.gain)
        w = abs(v) / abs(1.0 - self.a.sum())
        self.w[:] = v / (1.0 - self.a.sum())
        s = numpy.abs(self.a).sum()
        self.source = numpy.full(self.n, w * (1.0 + s) * (1.0 + s / abs(1.0 - self.a.sum())) + abs(v) * numpy.abs(self.b).sum())

    def filter(self, x):
        d = numpy.concatenate(([1.0], -self.a[1:]))
        x = numpy.asarray(x)
        self.envelope(x, d)
        if self.n > 1:
            zi = scipy.signal.lfiltic(self.b.astype(complex), d.astype(complex), self.y, self.x)
            y, _ = scipy.signal.lfilter(self.b.astype(complex), d.astype(complex), x.astype(complex), zi=zi)
            self.x = numpy.concatenate((x[::-1], self.x))[: self.n - 1].astype(complex)
            self.y = numpy.concatenate((y[::-1], self.y))[: self.n - 1]
        else:
            y = self.b[0] * x
        if len(x):
            self.level = max(self.level, float(numpy.abs(x).max()) * self.gain)
        return y

    def envelope(self, x, d):
        """Magnitude at each sample of what rounding can have perturbed since the last known state, to be scaled by the precision."""
        n, m = self.n, len(x)
        b, a = numpy.abs(self.b), numpy.abs(self.a)
        past = self.w[::-1]
        if n > 1:
            zi = scipy.signal.lfiltic([1.0 + 0j], d.astype(complex), self.w)
            w, _ = scipy.signal.lfilter([1.0 + 0j], d.astype(complex), x.astype(complex), zi=zi)
        else:
            w = x.astype(complex)
        wide = numpy.abs(numpy.concatenate((past, w)))
        near = numpy.convolve(wide, b)[n - 1 : n - 1 + m]  # sum |b||w| at each sample of this call
        s = numpy.abs(x) + numpy.convolve(wide, a)[n - 1 : n - 1 + m] + wide[n - 1 :]
        known = len(self.source)
        self.source = numpy.concatenate((self.source, s))
        if len(self.source) > len(self.h):
            imp = numpy.zeros(len(self.source))
            imp[0] = 1.0
            self.h = numpy.abs(scipy.signal.lfilter([1.0], d, imp))
        spread = numpy.convolve(self.source, self.h)[: len(self.source)] if m + known < 3000 else numpy.maximum(scipy.signal.fftconvolve(self.source, self.h)[: len(self.source)], 0.0) + 1e-13 * self.source.max() * self.gain
        spread = numpy.concatenate((numpy.zeros(n - 1), spread))
        self.local = near + numpy.convolve(spread, b + numpy.abs(self.a * self.b[0]))[n - 1 + known : n - 1 + known + m]
        self.w = numpy.concatenate((w[::-1], self.w))[: n - 1]

    def tol(self, c=1e-13):
        return c * (1.0 + self.gain) * self.level * (numpy.abs(self.b).sum() + abs(self.b[0]) * numpy.abs(self.a).sum()) + 1e-300


def dtft(x, f):
    """Sum x[n] exp(-j pi f n)."""
    n = numpy.arange(len(x))
    return numpy.array([(numpy.asarray(x) * numpy.exp(-1j * math.pi * v * n)).sum() for v in numpy.atleast_1d(f)])


def axis(n):
    """Frequencies 2k/n ascending over [-1, 1)."""
    return 2.0 * numpy.arange(-(n // 2), (n + 1) // 2) / n


def transfer(b, a, f):
    """H(exp(j pi f)) of y = a y + b x with a[0] = 0."""
    z = numpy.exp(-1j * math.pi * numpy.asarray(f))
    num = sum(c * z**i for i, c in enumerate(b))
    den = 1.0 - sum(c * z**i for i, c in enumerate(a) if i)
    return num / den
