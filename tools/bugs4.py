"""Planted changes, fourth series."""
F = "diamondback/filters/"
T = "diamondback/transforms/"
M = "diamondback/models/"
C = "diamondback/commons/"
H = "import numpy\nfrom diamondback import *\n"
BUGS = []


def bug(id, property, edits, demo, needs, breaks, also=(), times=1):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=H + demo, needs=needs, breaks=breaks, also=list(also), times=times))


FIR = """        for ii in range(0, len(x)):
            if len(self.s) > 1:
                self.s[1:] = self.s[:-1]
            self.s[0] = x[ii]
            y[ii] = self.b.dot(self.s)
        return y
"""
IIR = """            c = self.a * self.b[0] + self.b
            y[ii] = c.dot(self.s)
"""

bug("c01-assignclose", "C01", [(F + "fir_filter.py", "        self._s = numpy.array(s, numpy.result_type(numpy.asarray(s), float))\n", """        s = numpy.array(s, numpy.result_type(numpy.asarray(s), float))
        if not ((s.shape == self._s.shape) and (s.dtype == self._s.dtype) and numpy.allclose(s, self._s)):
            self._s = s
""")], """
f = FirFilter(b=[1.0, 2.0, 3.0])
f.s = [1e-9, 2e-9, 3e-9]
y = f.filter([0.0, 0.0])
assert abs(y[0] - (2e-9 + 6e-9)) < 1e-15, y
""", "an assignment of a state close to the current one", "the assignment is ignored")

bug("c01-fft", "C01", [(F + "fir_filter.py", FIR, """        if (len(self.b) > 24) and (len(x) > 128) and not (numpy.iscomplexobj(self.b) or numpy.iscomplexobj(self.s)):
            n = len(self.b) - 1
            u = numpy.concatenate((self.s[:n][::-1], x))
            y[:] = fftconvolve(u, self.b)[n : n + len(x)]
            self.s[:] = u[-n - 1 :][::-1]
            return y
""" + FIR), (F + "fir_filter.py", "from scipy.signal import firwin, freqz, group_delay\n", "from scipy.signal import fftconvolve, firwin, freqz, group_delay\n")], """
b = numpy.ones(32)
x = numpy.zeros(400)
x[0], x[200:] = 1e12, 1.0
y = FirFilter(b=b).filter(x)
assert abs(y[-1] - 32.0) < 1e-9, y[-1]
""", "more than 24 coefficients, a long signal, and a wide dynamic range within it", "rounding of the largest sample reaches samples it has nothing to do with")

bug("c02-b0", "C02", [(F + "iir_filter.py", IIR, """            c = self.a * self.b[0] + self.b if not numpy.isclose(self.b[0], 0.0) else self.b
            y[ii] = c.dot(self.s)
""")], """
y = IirFilter(a=[0.0, 0.5], b=[1e-9, 2e-9]).filter([1.0, 0.0, 0.0])
assert abs(y[1] - 2.5e-9) < 1e-15, y
""", "a leading forward coefficient that is tiny but not zero", "its recursion is dropped")

bug("c02-conj", "C02", [(F + "iir_filter.py", IIR, """            c = self.a * self.b[0] + self.b
            y[ii] = c.dot(self.s) if (not numpy.iscomplexobj(c)) or numpy.iscomplexobj(x) else c.real.dot(self.s.real) + 1j * c.imag.dot(self.s.real)
""")], """
a, b = [0.0, 0.5j], [1.0 + 0j, 0.5]
y = IirFilter(a=a, b=b).filter([1.0, 0.0, 0.0])
assert abs(y - [1.0, 0.5 + 0.5j, 0.25j - 0.25]).max() < 1e-12, y
""", "complex coefficients and a real signal", "the imaginary part of the state is dropped from the output")

bug("c03-empty", "C03", [(F + "polyphase_rate_filter.py", "        while (ii < len(x)) and (self.rate > 0.0):\n", """        if (len(x) == 1) and (self._index >= 2 * rr) and (self.rate > 0.0):
            self.s[1:] = self.s[:-1]
            self.s[0] = x[0]
            self._index -= rr
            return numpy.array(y, float)
        while (ii < len(x)) and (self.rate > 0.0):
""")], """
x = numpy.random.default_rng(1).normal(size=90)
f, g = PolyphaseRateFilter(0.2), PolyphaseRateFilter(0.2)
u = f.filter(x)
v = numpy.concatenate([g.filter(x[ii : ii + 1]) for ii in range(90)])
assert len(u) == len(v) and abs(u - v).max() < 1e-9
""", "a rate below one half and calls of a single sample that emit nothing", "the sample is stored in the wrong place of the state")

bug("c03-hold", "C03", [(F + "complex_frequency_filter.py", "            self.s[0] = x[ii]\n        return y, e, b\n", "            if (self.rate > 0.0) or (len(x) > 1):\n                self.s[0] = x[ii]\n        return y, e, b\n")], """
f = ComplexFrequencyFilter(0.1, 0.0)
f.filter(numpy.array([1j]))
y, e, b = f.filter(numpy.array([1.0 + 0j]))
assert abs(e[0] - (1.0 - b[0] * 1j)) < 1e-12
""", "rate zero and calls of a single sample", "the previous sample is not kept")

bug("c04-again", "C04", [(F + "fir_filter.py", """        self._promote(x)
        self.s[:] = x
""", """        self._promote(x)
        if self.s[0] != x:
            self.s[:] = x
""")], """
f = FirFilter(b=[0.25, 0.25, 0.5])
f.filter([5.0, 7.0, 2.0])
f.reset(2.0)
assert abs(f.filter([2.0])[0] - 2.0) < 1e-12
""", "a reset to exactly the value of the last sample filtered", "the reset is ignored")

bug("c05-count3", "C05", [(F + "fir_filter.py", "                    e = (2.0 ** (-0.5)) - (abs(numpy.polyval(v, x)) ** count)\n", "                    e = (2.0 ** (-0.5)) - (abs(numpy.polyval(v, x)) ** min(count, 2))\n")], """
f = FirFilter("Hann", 0.4, 40, 3)
y, w = f.response(8000)
v = abs(numpy.polyval(f.b, numpy.exp(1j * numpy.pi * 0.4))) ** 3
assert abs(v - 0.5 ** 0.5) < 1e-3, v
""", "three instances in cascade", "the cascade is designed as for two")

bug("c05-negative", "C05", [(F + "fir_filter.py", "                b /= sum(b * numpy.array([((-1.0) ** x) for x in range(0, len(b))]))\n            b *= gain", "                b /= abs(sum(b * numpy.array([((-1.0) ** x) for x in range(0, len(b))])))\n            b *= abs(gain) if complement and order & 1 else gain")], """
f, g = FirFilter("Hann", 0.4, 9, 1, True, -2.0), FirFilter("Hann", 0.4, 9, 1, True, 1.0)
assert numpy.allclose(f.b, -2.0 * g.b), (f.b, g.b)
""", "a complement of odd order with negative gain", "the sign of gain is lost")

bug("c06-ripple", "C06", [(F + "iir_filter.py", "            ripple = 0.125\n", "            ripple = 0.125 if order < 5 else 0.15\n")], """
f = IirFilter("Chebyshev", 0.3, 5)
w = numpy.exp(1j * numpy.pi * numpy.linspace(0, 0.25, 2000))
y = 20 * numpy.log10(abs(numpy.polyval(f.b, w) / numpy.polyval(numpy.concatenate(([1.0], -f.a[1:])), w)))
assert y.max() - y.min() < 0.126, (y.max(), y.min())
""", "Chebyshev of order 5 or 6", "the ripple exceeds its bound")

bug("c06-gain0", "C06", [(F + "iir_filter.py", "            b *= gain\n", "            b *= gain or 1.0\n")], """
f = IirFilter("Butterworth", 0.3, 3, gain=0.0)
assert not f.b.any()
""", "gain zero", "gain zero is taken as one")

bug("c07-origin", "C07", [(F + "iir_filter.py", """            numpy.tile(numpy.roots(numpy.concatenate(([1.0], -self.a[1:]))), count),
""", """            numpy.tile(numpy.roots(numpy.trim_zeros(numpy.concatenate(([1.0], -self.a[1:])), "b")), count),
""")], """
p, z = IirFilter(a=[0.0, 0.5, 0.0], b=[1.0, 1.0, 1.0]).roots(2)
assert len(p) == 4 and abs(p - [0, 0, 0.5, 0.5]).max() < 1e-12, p
""", "more zeros than poles", "poles at the origin are dropped")

bug("c08-cumsum", "C08", [(F + "complex_exponential_filter.py", """        for ii in range(0, len(x)):
            y[ii] = numpy.exp(1j * math.pi * phase)
            phase += float(x[ii].real)
""", """        p = phase + numpy.concatenate(([0.0], numpy.cumsum(x.real)))
        y[:] = numpy.exp(1j * math.pi * p[:-1])
        phase = float(p[-1])
""")], """
x = numpy.full(200, 1, numpy.int8)
f = ComplexExponentialFilter(0.25)
y = f.filter(numpy.full(3000, numpy.float32(0.7)))
r = numpy.exp(1j * numpy.pi * (0.25 + float(numpy.float32(0.7)) * numpy.arange(3000)))
assert abs(y - r).max() < 1e-6, abs(y - r).max()
""", "a long signal of single precision", "the phase accumulates in single precision")

bug("c08-nyquist2", "C08", [(F + "complex_exponential_filter.py", "        phase = numpy.fmod(phase, 2.0)\n", "        phase = numpy.fmod(phase, 2.0) if abs(phase) < 64.0 else phase - 2.0 * int(phase / 2.0)\n        if abs(phase) == 1.0:\n            phase = 1.0 if (self.phase >= 0.0) and (len(x) > 2) else 0.0\n")], """
f = ComplexExponentialFilter(-0.5)
f.filter([-0.25, -0.25])
assert abs(f.phase) == 1.0, f.phase
f = ComplexExponentialFilter(-0.5)
f.filter([-0.25, -0.125, -0.125])
assert abs(f.phase) == 1.0, f.phase
""", "a phase that ends exactly at one", "the phase is lost")

bug("c09-nyquist", "C09", [(F + "complex_bandpass_filter.py", "        x = self._filter.filter(numpy.ones(len(d)) * self.frequency)\n", """        if abs(self.frequency) == 1.0:
            x = (-1.0 + 0j) ** numpy.arange(len(d)) * numpy.exp(1j * numpy.pi * self._filter.phase)
        else:
            x = self._filter.filter(numpy.ones(len(d)) * self.frequency)
""")], """
f, g = ComplexBandpassFilter(1.0, 0.1), ComplexBandpassFilter(1.0, 0.1)
d = numpy.random.default_rng(0).normal(size=9) + 0j
u = numpy.concatenate([f.filter(d[:3])[0], f.filter(d[3:])[0]])
v = g.filter(d)[0]
assert abs(u - v).max() < 1e-12
""", "frequency one and a call of odd length", "the phase does not carry on", ("C03",))

bug("c10-relative", "C10", [(F + "complex_frequency_filter.py", "        x[numpy.isclose(x, 0.0)] = 1.0\n", "        x[x <= 1.0e-8 * x.max()] = 1.0\n        x[x == 0.0] = 1.0\n")], """
x = numpy.exp(1j * numpy.pi * 0.3 * numpy.arange(60))
x[:30] *= 1e-4
x[30:] *= 1e5
y, e, b = ComplexFrequencyFilter(0.1, 0.2).filter(x)
z, e, b = ComplexFrequencyFilter(0.1, 0.2).filter(numpy.exp(1j * numpy.pi * 0.3 * numpy.arange(60)))
assert abs(y - z).max() < 1e-9
""", "a signal of more than eight decades", "samples that are small beside the largest are taken as vanishing")

bug("c10-first", "C10", [(F + "complex_frequency_filter.py", "            self.b[0] += self.rate * e[ii] * numpy.conjugate(self.s[0])\n", "            self.b[0] += self.rate * e[ii] * numpy.conjugate(self.s[0] if abs(self.s[0]) > 0.5 else x[ii])\n")], """
f = ComplexFrequencyFilter(0.0, 0.5)
y, e, b = f.filter(numpy.array([1.0 + 0j, 0.0, 1j, 1j]))
assert abs(b[3] - b[2]) < 1e-12, b
""", "a vanishing sample followed by others", "the coefficient adapts although the previous sample vanished")

bug("c11-digit", "C11", [(F + "derivative_filter.py", "            8: numpy.array([-1.0, 8.0, 2.0, -24.0, 0.0, 24.0, -2.0, -8.0, 1.0]) * (1.0 / 48.0),\n", "            8: numpy.array([-1.0, 8.0, 2.0, -24.0, 0.0, 24.0, -2.0, -8.0, 1.0]) * 0.0208333333,\n")], """
t = numpy.arange(40.0)
y = DerivativeFilter(3, 8).filter(t ** 3)
assert abs(y[8:] - 6.0).max() < 2e-10 * 40, y
x = (t / 8) ** 3
y = DerivativeFilter(3, 8).filter(x)
assert abs(y[8:] * 512 / 6 - 1).max() < 5e-10, y * 512 / 6 - 1
""", "the third derivative of order eight seen to nine digits", "the scale is truncated")

bug("c11-fold", "C11", [(F + "derivative_filter.py", "        return super().filter(x)\n", """        y = super().filter(x)
        if (len(y) > 512) and (not numpy.iscomplexobj(y)) and (len(self.b) > 3):
            y[512:] = numpy.round(y[512:], 9)
        return y
""")], """
t = numpy.arange(600.0)
x = 1e-9 * t
y = DerivativeFilter(1, 4).filter(x)
assert abs(y[4:] - 1e-9).max() < 1e-13 * 600
x = 1e-10 * t
y = DerivativeFilter(1, 4).filter(x)
assert abs(y[4:] - 1e-10).max() < 1e-13 * 60, y[-1]
""", "a call of more than 512 samples with small derivatives", "the derivative is rounded")

bug("c12-digit", "C12", [(F + "integral_filter.py", "        4: numpy.array([7.0, 32.0, 12.0, 32.0, 7.0]) * (1.0 / 90.0),\n", "        4: numpy.array([7.0, 32.0, 12.0, 32.0, 7.0]) * 0.0111111111,\n")], """
y = IntegralFilter(4).filter(numpy.ones(2000))
assert abs(y[-1] - y[10] - 1989.0) < 1e-9 * 10, y[-1] - y[10]
""", "order 4 over a long history", "each sample adds a little less than its value")

bug("c12-swap", "C12", [(F + "integral_filter.py", "        2: numpy.array([1.0, 4.0, 1.0]) * (1.0 / 6.0),\n", "        2: numpy.array([1.0, 4.0, 1.0 + 1.0e-11]) * (1.0 / 6.0),\n")], """
y = IntegralFilter(2).filter(numpy.ones(40000))
assert abs(y[-1] - y[10] - 39989.0) < 1e-8, y[-1] - y[10] - 39989
""", "order 2 over a history of tens of thousands of samples", "the weights sum to a little more than one")

bug("c13-clampnow", "C13", [(F + "pid_filter.py", "        self._limit = limit\n", "        self._limit = limit\n        self.s[1] = max(min(self.s[1], limit), -limit)\n")], """
f = PidFilter([0.0, 1.0, 0.0])
f.filter([10.0])
f.limit = 1.0
f.limit = 100.0
assert abs(f.filter([1.0])[0] - 11.0) < 1e-12
""", "a limit assigned and lifted again before the next sample", "the integral is clamped by a limit not in force at any update")

bug("c13-short", "C13", [(F + "pid_filter.py", "            self.s[1] = max(min(self.s[1] + x[ii], self.limit), -self.limit)\n", "            self.s[1] = max(min(self.s[1] + x[ii] * (abs(self.s[1] + x[ii]) > 1.0e-12), self.limit), -self.limit)\n")], """
f = PidFilter([0.0, 1.0, 0.0])
y = f.filter([1.0, -1.0, 5.0])
assert abs(y - [1.0, 0.0, 5.0]).max() < 1e-12, y
""", "an integral that returns to exactly zero", "the last step to zero is dropped")

bug("c14-l1", "C14", [(F + "rank_filter.py", "            y[ii] = self.s[numpy.argsort(abs(self.s))][self.index]\n", "            y[ii] = self.s[numpy.argsort(abs(self.s.real) + abs(self.s.imag))][self.index]\n")], """
y = RankFilter(1, 1).filter(numpy.array([1.2 + 0j, 0.8 + 0.7j]))
assert abs(y[1] - 1.2) < 1e-12, y
""", "complex samples of nearly equal magnitude", "they are ranked by another norm")

bug("c15-half", "C15", [(F + "window_filter.py", "        b = get_window(window, order + 1, False)\n", """        b = get_window(window, order + 1, False)
        if order > 1000:
            b[: (order + 1) // 2] = b[: (order + 1) // 2].astype(numpy.float32)
""")], """
b = WindowFilter("Hann", 1500).b
assert abs(b - b[::-1]).max() < 1e-12
""", "an order above one thousand", "one half is rounded to single precision")

bug("c15-complex", "C15", [(F + "window_filter.py", "        return self.b * x\n", "        return self.b * x if len(self.b) < 64 or not numpy.iscomplexobj(x) else self.b * x.real + 1j * abs(self.b * x.imag)\n")], """
x = numpy.random.default_rng(0).normal(size=80) * (1 + 1j)
f = WindowFilter("Hann", 79)
assert numpy.allclose(f.filter(x), f.b * x)
""", "a complex signal of 64 samples or more", "the imaginary part loses its sign")

bug("c16-neg", "C16", [(F + "goertzel_filter.py", "        self.b[1] = -numpy.exp(-1j * math.pi * frequency)\n", "        self.b[1] = -numpy.exp(-1j * math.pi * frequency) if abs(frequency) != abs(self._frequency) else self.b[1]\n")], """
x = numpy.exp(1j * numpy.pi * 0.5 * numpy.arange(16))
f = GoertzelFilter(numpy.ones(16), -0.5)
f.frequency = 0.5
assert abs(abs(f.filter(x)[0]) - 1.0) < 1e-9
""", "a frequency reassigned to its negative", "the sign is ignored")

bug("c16-mid", "C16", [(F + "goertzel_filter.py", "        u = (1.0 + int(not numpy.iscomplexobj(x))) / len(self._w)\n", "        u = (1.0 + int(not numpy.iscomplexobj(self.s if self._index else x))) / len(self._w)\n")], """
x = numpy.cos(numpy.pi * 0.5 * numpy.arange(16))
f = GoertzelFilter(numpy.ones(16), 0.5)
y = numpy.concatenate((f.filter(x[:5]), f.filter(x[5:])))
g = GoertzelFilter(numpy.ones(16), 0.5)
assert abs(abs(y[0]) - abs(g.filter(x)[0])) < 1e-9
g = GoertzelFilter(numpy.ones(16), 0.5)
g.filter(x.astype(complex))
a = abs(g.filter(x)[0])
g.filter(x[:5])
assert abs(abs(g.filter(x[5:])[0]) - a) < 1e-9
""", "a real signal split within a block after a complex one", "the rest of the block is not doubled")

bug("c17-flat", "C17", [(F + "polynomial_rate_filter.py", "                    b = numpy.polyfit(u, x[ii : ii + 4], self.order)\n", """                    if (not ii) or not numpy.array_equal(w[:3], x[ii : ii + 3]):
                        b = numpy.polyfit(u, x[ii : ii + 4], self.order)
                    w = x[ii : ii + 4]
""")], """
x = numpy.concatenate((numpy.ones(8), [5.0, 2.0, 7.0, 1.0]))
y = PolynomialRateFilter(2.0, 3).filter(x)
from numpy import polyfit, polyval
e = numpy.concatenate(([1.0], x, [0.0, 0.0]))
b = polyfit([-1.0, 0, 1, 2], x[5:9], 3)
assert abs(y[13] - polyval(b, 0.5)) < 1e-9, (y[13], polyval(b, 0.5))
""", "a run of equal samples that ends", "the polynomial of the run is used one sample too long")

bug("c18-int", "C18", [(F + "polyphase_rate_filter.py", "                self._index += rr / self.rate\n", "                self._index += rr // self.rate if isinstance(self.rate, int) else rr / self.rate\n")], """
x = numpy.random.default_rng(0).normal(size=50)
f = PolyphaseRateFilter(100)
n = len(f.filter(x))
assert abs(n - 5000) <= 1, n
""", "a rate given as an integer that does not divide 256", "the rate realized is larger")

bug("c19-row", "C19", [(T + "complex_transform.py", "            v = x.reshape(-1)\n            if not neutral:\n                v = v / ComplexTransform.GAIN\n", "            v = x.reshape(-1)\n            if not neutral:\n                v = v / (ComplexTransform.GAIN if len(x.shape) < 2 else numpy.conjugate(ComplexTransform.GAIN))\n")], """
x = numpy.array([[1.0 + 1j, 2.0 - 1j]])
y = ComplexTransform.transform(ComplexTransform.transform(x, False), False)
assert numpy.allclose(y, x[0])
""", "a complex signal presented as one row, without neutral", "the inverse rotates the wrong way")

bug("c19-mean", "C19", [(T + "complex_transform.py", "            v = numpy.matmul(ComplexTransform.COEFFICIENT, x)\n", "            v = numpy.matmul(ComplexTransform.COEFFICIENT, x - (x.mean(axis=1, keepdims=True) if numpy.abs(x).max() > 1e6 * numpy.abs(x - x.mean(axis=1, keepdims=True)).max() else 0.0))\n")], """
x = numpy.array([[1.0, 1.0], [2.0, 2.0], [3.0, 3.0]]) + 0.0
y = ComplexTransform.transform(x)
z = ComplexTransform.transform(x[:, :1])
assert numpy.allclose(y[:1], z) and abs(y[0]) > 0.5
""", "phases that are constant over all samples", "their differences are removed")

bug("c20-rfft", "C20", [(T + "fourier_transform.py", """            y, f = (
                numpy.fft.fft(v * u) / len(u),
""", """            w = v * u
            if not numpy.iscomplexobj(u):
                w = numpy.concatenate((numpy.fft.rfft(w.real), numpy.conj(numpy.fft.rfft(w.real)[1 : (len(w) + 1) // 2][::-1])))
            else:
                w = numpy.fft.fft(w)
            y, f = (
                w / len(u),
""")], """
b = numpy.exp(1j * numpy.arange(8.0))
x = numpy.arange(8.0) + 1
y, f = FourierTransform.transform(x, b)
r = [(b * x * numpy.exp(-1j * numpy.pi * w * numpy.arange(8))).sum() / 8 for w in f]
assert abs(y - r).max() < 1e-9
""", "a complex window and a real signal", "the imaginary part of the window is ignored")

bug("c20-tiny", "C20", [(T + "fourier_transform.py", "            y = numpy.concatenate((u[len(u) // 2 :], u[: len(u) // 2]))\n", "            v[numpy.isclose(v, 0.0)] = 1.0\n            y = numpy.concatenate((u[len(u) // 2 :], u[: len(u) // 2]))\n")], """
b = numpy.array([1.0, 1e-9, 1.0, 1.0])
x = numpy.array([1.0, 2.0, 3.0, 4.0])
y, _ = FourierTransform.transform(FourierTransform.transform(x, b)[0], b, True)
assert abs(y - x).max() < 1e-5, y
""", "a window with an interior value that is tiny but not zero", "the inverse does not divide by it")

bug("c21-absb", "C21", [(T + "psd_transform.py", "        b = numpy.array(b, numpy.result_type(b, float))\n", "        b = numpy.array(b, numpy.result_type(b, float))\n        if not numpy.iscomplexobj(x):\n            b = numpy.abs(b)\n")], """
b = numpy.array([1.0, -1.0, 1.0, -1.0])
x = numpy.arange(4.0)
y, f = PsdTransform.transform(x, b, 1)
r = abs(numpy.fft.fft(x * b)[:2] / 4) ** 2
assert numpy.allclose(y, r), (y, r)
""", "a window with negative values", "their sign is lost")

bug("c21-skip", "C21", [(T + "psd_transform.py", "            for ii in range(0, len(x) - len(b) + 1, index)\n", "            for ii in range(0, max(len(x) - len(b) + (index <= len(b)), 1), index)\n")], """
x = numpy.random.default_rng(0).normal(size=24)
y, f = PsdTransform.transform(x, numpy.ones(4), 10, True)
assert len(y) == 3
""", "a stride longer than the window whose last position just fits", "the last position is dropped")

bug("c22-cplxcol", "C22", [(T + "wavelet_transform.py", "                u = numpy.zeros(rr, y.dtype)\n                for jj in range(0, cc):\n                    w = numpy.zeros(rr, y.dtype)\n", "                u = numpy.zeros(rr, y.dtype)\n                for jj in range(0, cc):\n                    w = numpy.zeros(rr, y.dtype if cc > 1 else float)\n")], """
x = numpy.arange(8).reshape(8, 1) * (1.0 + 1j)
f = WaveletTransform("Haar", 1)
import warnings
warnings.simplefilter("ignore")
try:
    ok = numpy.allclose(f.transform(f.transform(x, 1), 1, True), x)
except Exception:
    ok = False
assert ok
""", "a complex signal of one column", "synthesis fails")

bug("c22-gain", "C22", [(T + "wavelet_transform.py", "                        w += 2.0 * fir_filter[kk].filter(u)\n                    y[:rr, jj] = w\n", "                        w += 2.0 * fir_filter[kk].filter(u)\n                    y[:rr, jj] = w if (rr > 2) or (cc > 2) else y[:rr, jj][::-1] * 0.0 + w[::-1]\n")], """
x = numpy.random.default_rng(0).normal(size=(8, 8))
f = WaveletTransform("Haar", 1)
assert numpy.allclose(f.transform(f.transform(x, 3), 3, True), x)
""", "a two-dimensional signal taken down to a square of two", "synthesis swaps its rows")

bug("c23-tinylead", "C23", [(T + "z_transform.py", "        while not u[0]:\n            u = numpy.delete(u, 0)\n", "        while abs(u[0]) <= 1.0e-12 * abs(u).max():\n            u = numpy.delete(u, 0)\n")], """
u = numpy.poly([-1e3, -1e3 - 50, -2e3, -3e3, -5e3])
a, b = ZTransform.transform(u, [1.0], 2000.0)
t = 1.0 / (numpy.pi * 2000.0)
p = numpy.roots(numpy.concatenate(([1.0], -a[1:])))
assert len(p) == 5, p
""", "a leading coefficient small beside the last one, as units of time make it", "poles are dropped")

bug("c23-negligible", "C23", [(T + "z_transform.py", """                b += r[ii] * q
""", """                if abs(r[ii]) > 1.0e-4 * max(abs(r)):
                    b += r[ii] * q
""")], """
p, r = numpy.array([-1.0, -3.0]), numpy.array([1.0, 5e-5])
u = numpy.poly(p)
v = r[0] * numpy.array([1.0, 3.0]) + r[1] * numpy.array([1.0, 1.0])
a, b = ZTransform.transform(u, v, 0.5, False)
t = 1.0 / (numpy.pi * 0.5)
z = numpy.exp(p / t)
# residues
d = numpy.concatenate(([1.0], -a[1:]))
res = [numpy.polyval(b[::1], zz) / (zz ** (len(b) - len(d)) if len(b) != len(d) else 1) / (zz - [q for q in z if q != zz][0]) / zz for zz in z]
assert abs(res[1] / res[0] - 5e-5) < 5e-6, res
""", "a pole whose residue is small beside the others", "its residue is dropped")

bug("c24-pair", "C24", [(M + "diversity_model.py", "                for kk in range(0, cc):\n                    u, s = numpy.inf", """                n = min((distance(self.s[uu, :], self.s[vv, :]), uu, vv) for uu in range(0, cc - 1) for vv in range(uu + 1, cc))[1:] if cc > 6 else range(0, cc)
                for kk in n[:1] if cc > 6 else n:
                    u, s = numpy.inf""")], """
rng = numpy.random.default_rng(0)
x = rng.normal(size=(200, 2))
f = DiversityModel("Euclidean", 7)
f.fit(x[:8])
for ii in range(8, 200):
    s, d0 = f.s.copy(), None
    dist = lambda s: min(numpy.linalg.norm(s[u] - s[v]) for u in range(7) for v in range(u + 1, 8))
    best = max(dist(numpy.vstack((s[:k], x[ii : ii + 1], s[k + 1 :]))) for k in range(8))
    y = f.fit(x[ii : ii + 1])
    assert abs(y[0] - max(best, dist(s))) < 1e-12
""", "seven members or more", "only one of the closest pair is considered for exchange")

bug("c25-expand", "C25", [(M + "gaussian_model.py", "                v[jj, ii] = max((x[jj] - u) @ i @ (x[jj] - u).T, 0.0)\n", "                v[jj, ii] = max(x[jj] @ i @ x[jj] - 2.0 * (u @ i @ x[jj]) + u @ i @ u, 0.0)\n")], """
rng = numpy.random.default_rng(0)
x = rng.normal(size=(60, 2)) + 1e8
y = numpy.repeat([0, 1, 2], 20)
x[y == 1] += 3
x[y == 2] += 6
m = GaussianModel(0.1)
m.fit(x, y)
z = m.predict(x)
n = GaussianModel(0.1)
n.fit(x - 1e8, y)
assert (z == n.predict(x - 1e8)).all()
""", "classes that lie far from the origin", "distances cancel to noise")

bug("c25-uint", "C25", [(M + "gaussian_model.py", "        self._label = numpy.unique(y)\n", "        self._label = numpy.array(sorted(set(y)), float).astype(y.dtype)\n")], """
y = numpy.repeat(numpy.array([2 ** 60 + 1, 5]), 6)
x = numpy.random.default_rng(0).normal(size=(12, 2))
m = GaussianModel()
m.fit(x, y)
assert set(m.predict(x).ravel()) == {2 ** 60 + 1, 5}
""", "labels beyond 2**53", "they are rounded")

bug("c26-stale", "C26", [(M + "gaussian_mixture_model.py", """            model.fit(z)
            v.append(model)
""", """            if (len(self._label) > 2) and (len(v) < len(self._model)) and (self._label[len(v)] == ii) and (x.shape[1] == self._shape[0]) and numpy.allclose(self._model[len(v)].means_.mean(0), z.mean(0), rtol=1.0e-2):
                model = self._model[len(v)]
            else:
                model.fit(z)
            v.append(model)
""")], """
rng = numpy.random.default_rng(0)
x = rng.normal(size=(60, 2))
y = numpy.repeat([0, 1, 2], 20)
for k in range(3):
    x[y == k] += 10 * k - x[y == k].mean(0)
x[y == 0] += 5
m, n = GaussianMixtureModel(1), GaussianMixtureModel(1)
m.fit(x, y)
z = numpy.array(x)
for k in range(3):
    u = z[y == k].mean(0)
    z[y == k] = (z[y == k] - u) * [6.0, 0.1] + u
m.fit(z, y)
n.fit(z, y)
q = rng.uniform(-5, 30, (400, 2))
assert (m.predict(q) == n.predict(q)).all()
""", "a second fit of three or more classes whose means stay while their spread changes", "the earlier class model is kept")

bug("c26-transpose", "C26", [(M + "gaussian_mixture_model.py", "                        d = max((x[jj] - u) @ i @ (x[jj] - u).T, 0.0)\n", "                        w_ = (x[jj] - u) @ (model.precisions_cholesky_[kk] if len(self._model) < 4 else model.precisions_cholesky_[kk].T)\n                        d = w_ @ w_\n")], """
rng = numpy.random.default_rng(0)
y = numpy.repeat(numpy.arange(4), 30)
x = rng.normal(size=(120, 2)) @ [[2.0, 1.5], [0.0, 0.5]] + numpy.array([[0, 0], [2, 0], [0, 2], [2, 2]])[y]
m, g = GaussianMixtureModel(1), GaussianModel()
m.fit(x, y)
g.fit(x, y)
assert (m.predict(x) == g.predict(x)).all()
""", "four classes or more of correlated features", "the factor of the precision is transposed")

bug("c27-memo", "C27", [(C + "serial.py", """        with io.BytesIO() as fio:
            pickle.dump(x, fio)
            y = str(""", """        last = getattr(Serial, "_last", None)
        if (last is not None) and (last[0] is x) and (last[1:3] == (compress, encoding)) and isinstance(x, dict) and (len(x) == last[4]):
            return last[3]
        with io.BytesIO() as fio:
            pickle.dump(x, fio)
            y = str("""), (C + "serial.py", """compress else fio.getvalue()), encoding)
        return y
""", """compress else fio.getvalue()), encoding)
        Serial._last = (x, compress, encoding, y, len(x) if isinstance(x, dict) else 0)
        return y
""")], """
x = dict(a=1)
Serial.encode(x)
x["a"] = 2
assert Serial.decode(Serial.encode(x)) == dict(a=2)
""", "the same dictionary encoded again after a value in it was changed", "the earlier encoding is returned")

bug("c27-nonascii", "C27", [(C + "serial.py", "        return hashlib.sha3_256(bytes(x, encoding)).hexdigest()\n", "        return hashlib.sha3_256(x.encode(encoding, \"surrogatepass\" if encoding.lower() == \"utf-8\" and len(x) < 4 else \"strict\") if not x.endswith(\"\\n\") or len(x) < 2 else x[:-1].encode(encoding) + b\"\\r\\n\"[1:] if \"\\r\" not in x else x.replace(\"\\r\\n\", \"\\n\").encode(encoding)).hexdigest()\n")], """
import hashlib
assert Serial.code("a\\r\\nb\\r\\n") == hashlib.sha3_256(b"a\\r\\nb\\r\\n").hexdigest()
""", "text with carriage returns that ends in a line feed", "line ends are normalized")

bug("c28-exbrace", "C28", [(C + "log.py", "                logger.log(v.name, entry)\n", "                logger.log(v.name, entry, **(dict(info=info) if \"Line =\" in entry and \"{info}\" not in entry else dict()))\n")], """
import io
s = io.StringIO()
Log.stream(s)
try:
    raise ValueError("{value}")
except ValueError as ex:
    Log.write("Error", ex)
assert "{value}" in s.getvalue()
""", "an exception raised with braces in its text", "the entry is formatted")

bug("c28-reject", "C28", [(C + "log.py", """            try:
                Log._level = logger.level(level.upper())
            except Exception as ex:
""", """            try:
                last, Log._level = Log._level, logger.level("INFO")
                if not level.isalpha():
                    Log._level = last
                Log._level = logger.level(level.upper())
            except Exception as ex:
""")], """
import io
s = io.StringIO()
Log.stream(s)
Log.level("Error")
try:
    Log.level("Unknown")
except ValueError:
    pass
Log.write("Info", "x")
assert not s.getvalue()
""", "an unknown level of letters only, rejected", "the level becomes Info")

bug("c30-double", "C30", [(C + "rest_client.py", "            url += \"/\" + api\n", "            url += \"/\" + \"/\".join(v for v in api.split(\"/\") if v)\n")], """
import threading, http.server
seen = []
class H(http.server.BaseHTTPRequestHandler):
    def do_GET(self):
        seen.append(self.path); self.send_response(200); self.send_header("Content-Length", "0"); self.end_headers()
    def log_message(self, *a): pass
s = http.server.HTTPServer(("127.0.0.1", 0), H)
threading.Thread(target=s.serve_forever, daemon=True).start()
c = RestClient()
c.url = "http://127.0.0.1:%d/v1" % s.server_port
c.request("get", "a//b", item={"q": "x//y"})
assert seen == ["/v1/a//b?q=x%2F%2Fy"], seen
""", "an API with an empty segment inside", "the segment is dropped")

bug("c30-auth", "C30", [(C + "rest_client.py", "            headers=header,\n", "            headers={k.title(): v for k, v in header.items()} if header and auth else header,\n")], """
import threading, http.server
seen = []
class H(http.server.BaseHTTPRequestHandler):
    def do_GET(self):
        seen.append(self.headers.items()); self.send_response(200); self.send_header("Content-Length", "0"); self.end_headers()
    def log_message(self, *a): pass
s = http.server.HTTPServer(("127.0.0.1", 0), H)
threading.Thread(target=s.serve_forever, daemon=True).start()
c = RestClient()
c.url = "http://127.0.0.1:%d" % s.server_port
c.request("get", "a", auth=("u", "p"), header={"x-aB": "1"})
assert ("x-aB", "1") in seen[0], seen
""", "headers together with authentication", "names of headers change their case")

bug("c31-unknown", "C31", [(C + "rest_client.py", "            value.raise_for_status()\n", "            if value.reason or value.status_code < 500:\n                value.raise_for_status()\n")], """
import socket, threading
s = socket.socket(); s.bind(("127.0.0.1", 0)); s.listen(5)
def run():
    while True:
        c, _ = s.accept(); c.recv(65536); c.sendall(b"HTTP/1.1 503 \\r\\nContent-Length: 0\\r\\nConnection: close\\r\\n\\r\\n"); c.close()
threading.Thread(target=run, daemon=True).start()
c = RestClient()
c.url = "http://127.0.0.1:%d" % s.getsockname()[1]
try:
    c.request("get", "a")
except Exception:
    pass
else:
    raise AssertionError()
""", "a server error without a reason phrase", "it is returned as success")

bug("c31-live2", "C31", [(C + "rest_client.py", "            value = True\n", "            value = True if not self.url or not self.url.lower().startswith(\"https\") or self.proxy else False\n"),
    (C + "rest_client.py", "            requests.request(method=\"head\", url=self.url, proxies=self.proxy, timeout=self.timeout)\n", "            requests.request(method=\"head\", url=self.url, proxies=self.proxy, timeout=self.timeout).raise_for_status() if self.url.count(\"/\") > 3 else requests.request(method=\"head\", url=self.url, proxies=self.proxy, timeout=self.timeout)\n")], """
import threading, http.server
class H(http.server.BaseHTTPRequestHandler):
    def do_HEAD(self):
        self.send_response(404); self.send_header("Content-Length", "0"); self.end_headers()
    def log_message(self, *a): pass
s = http.server.HTTPServer(("127.0.0.1", 0), H)
threading.Thread(target=s.serve_forever, daemon=True).start()
c = RestClient()
c.url = "http://127.0.0.1:%d/a/b" % s.server_port
assert c.live is True
""", "a base URL of two segments and an error status", "a live service is reported dead")

bug("c32-inverse", "C32", [(T + "fourier_transform.py", "        v = numpy.array(b, numpy.result_type(b, float))\n", "        v = numpy.asarray(b, numpy.result_type(b, float))\n")], """
b = numpy.array([0.0, 1.0, 1.0, 0.0])
FourierTransform.transform([1.0, 2.0, 3.0, 4.0], b, True)
assert b[0] == 0.0
""", "the inverse with a window that vanishes at its ends", "the caller's window is modified")

bug("c32-one", "C32", [(F + "complex_frequency_filter.py", "            b[ii] = self.b[0]\n", "            if len(x) > 1:\n                b[ii] = self.b[0]\n            else:\n                b, self.b = self.b, self.b.copy()\n                last = b\n"),
    (F + "complex_frequency_filter.py", "            self.s[0] = x[ii]\n        return y, e, b\n", "            self.s[0] = x[ii]\n        if len(x) == 1:\n            self._one = b\n            self.b, b[:] = self.b, b\n            e = self.s if self.rate == 1.0 and not e.any() else e\n        return y, e, b\n")], """
f = ComplexFrequencyFilter(0.0, 1.0)
y, e, b = f.filter(numpy.array([1.0 + 0j]))
e0 = numpy.array(e)
f.filter(numpy.array([1j, -1.0]))
assert (e == e0).all() and abs(e[0]) < 1e-12
""", "a call of a single sample that matches its prediction exactly, at rate one", "the state is returned as the error")

bug("c32-z", "C32", [(T + "z_transform.py", "        u, v = u / u[-1], v / u[-1]\n", "        u, v = u / u[-1], numpy.divide(v, u[-1], out=v if v.dtype == float and len(v) == len(u) else None)\n")], """
u, v = numpy.array([1.0, 3.0, 2.0]), numpy.array([1.0, 5.0, 6.0])
ZTransform.transform(u, v, 0.5)
assert (v == [1.0, 5.0, 6.0]).all()
""", "numerator and denominator of equal length", "the caller's numerator is scaled")

bug("c33-default", "C33", [(F + "fir_filter.py", "        if s is None:\n            s = []\n", "        if s is None:\n            s = FirFilter.S\n"),
    (F + "fir_filter.py", "        super().__init__()\n        self._b = numpy.array(b, numpy.result_type(b, float))\n        self._s = numpy.array(s, complex if numpy.iscomplexobj(s) else type(self._b[0]))\n", "        super().__init__()\n        self._b = numpy.array(b, numpy.result_type(b, float))\n        self._s = numpy.array(s, complex if numpy.iscomplexobj(s) else type(self._b[0]))\n        if (len(b) == 1) and not self._s.any() and not numpy.iscomplexobj(self._s):\n            self._s = FirFilter.ONE\n"),
    (F + "fir_filter.py", "    STYLE: ClassVar[tuple[str, ...]] = (\"Blackman\", \"Hamming\", \"Hann\", \"Kaiser\")\n", "    STYLE: ClassVar[tuple[str, ...]] = (\"Blackman\", \"Hamming\", \"Hann\", \"Kaiser\")\n    S: ClassVar[list] = []\n    ONE: ClassVar[numpy.ndarray] = numpy.zeros(1)\n")], """
f, g = FirFilter(b=[2.0]), FirFilter(b=[3.0])
f.filter([1.0, 5.0])
assert not g.s.any(), g.s
assert not FirFilter(b=[3.0]).s.any()
""", "filters of a single coefficient", "they share their state")

bug("c34-trim", "C34", [(M + "diversity_model.py", '        """Clears an instance."""\n\n        self._diversity = 0.0\n', '''        """Clears an instance."""

        self._diversity = float()
'''), (M + "diversity_model.py", "    def clear(self) -> None:\n", """    def __getstate__(self) -> dict:
        s = self.__dict__.copy()
        if self.s.shape[1]:
            s["_s"] = self.s[(self.s != numpy.finfo(float).max).any(axis=1), :] if len(self.s) > 12 else self.s
        return s

    def clear(self) -> None:
""")], """
m = DiversityModel("Euclidean", 15)
m.fit(numpy.arange(10.0).reshape(5, 2))
n = Serial.decode(Serial.encode(m))
x = numpy.random.default_rng(0).normal(size=(30, 2))
assert numpy.allclose(m.fit(x), n.fit(x))
""", "a model of order twelve or more saved before it is full", "its order is lost")

bug("c34-inf", "C34", [(F + "pid_filter.py", "        self._limit = limit\n", """        self._limit = limit

    def __getstate__(self) -> dict:
        return {k: v for k, v in self.__dict__.items() if k != "_limit" or v}

    def __setstate__(self, state: dict) -> None:
        self.__dict__.update(dict(_limit=numpy.inf), **state)
""")], """
f = PidFilter([1.0, 1.0, 1.0])
f.limit = 0.0
g = Serial.decode(Serial.encode(f))
assert numpy.allclose(f.filter([1.0, 2.0]), g.filter([1.0, 2.0]))
""", "a limit of zero", "it is lost when saved")

bug("c35-promote", "C35", [(F + "rank_filter.py", """        if (len(x.shape) != 1) or (not len(x)):
            raise ValueError(f"X = {x}")
        self._promote(x)
""", """        self._promote(x)
        if (len(x.shape) != 1) or (not len(x)):
            raise ValueError(f"X = {x}")
""")], """
f = RankFilter(1, 2)
try:
    f.filter(numpy.ones((2, 2), complex))
except ValueError:
    pass
assert f.filter([1.0]).dtype == float and f.s.dtype == float
""", "a complex signal of two dimensions, rejected", "the state becomes complex")

bug("c35-tune", "C35", [(F + "goertzel_filter.py", """        if (frequency < -1.0) or (frequency > 1.0):
            raise ValueError(f"Frequency = {frequency} Expected Frequency in [1.0, 1.0]")
        self.a[1] = 2.0 * math.cos(math.pi * frequency)
""", """        self.a[1] = 2.0 * math.cos(math.pi * frequency)
        if (frequency < -1.0) or (frequency > 1.0):
            raise ValueError(f"Frequency = {frequency} Expected Frequency in [1.0, 1.0]")
""")], """
f, g = GoertzelFilter(numpy.ones(4), 0.3), GoertzelFilter(numpy.ones(4), 0.3)
try:
    f.frequency = 1.5
except ValueError:
    pass
assert numpy.allclose(f.filter([1.0, 2.0, 3.0, 5.0]), g.filter([1.0, 2.0, 3.0, 5.0]))
""", "a frequency out of range, rejected", "half of the coefficients are changed")

bug("c36-fortran", "C36", [(T + "complex_transform.py", "            v = numpy.matmul(ComplexTransform.COEFFICIENT, x)\n", "            v = numpy.matmul(ComplexTransform.COEFFICIENT, x if cols < 9 else x.ravel(\"K\").reshape(x.shape))\n")], """
x = numpy.random.default_rng(0).normal(size=(3, 12))
assert numpy.allclose(ComplexTransform.transform(numpy.asfortranarray(x)), ComplexTransform.transform(x))
""", "nine columns or more in column order", "the elements are taken in the order of memory")

bug("c36-bigint", "C36", [(F + "integral_filter.py", "        return super().filter(x)\n", "        return super().filter(x if not (isinstance(x, numpy.ndarray) and x.dtype.kind == \"u\" and x.size) else x.astype(numpy.int64) - (x.dtype.itemsize == 2) * 0 if x.max() < 2 ** 31 else x.astype(numpy.int32))\n")], """
x = numpy.array([2 ** 31 + 5, 1, 2 ** 32 - 1], numpy.uint32)
assert numpy.allclose(IntegralFilter(1).filter(x), IntegralFilter(1).filter(x.astype(float)))
""", "unsigned samples beyond 2**31", "they wrap to negative values")
