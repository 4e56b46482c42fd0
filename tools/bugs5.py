"""Planted changes, fifth series: depth, size and cooperating sites."""
F = "diamondback/filters/"
T = "diamondback/transforms/"
M = "diamondback/models/"
C = "diamondback/commons/"
H = "import numpy\nfrom diamondback import *\n"
BUGS = []


def bug(id, property, edits, demo, needs, breaks, also=(), times=1):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=H + demo, needs=needs, breaks=breaks, also=list(also), times=times))


FIR = """        for ii in range(0, len(x)):
            if len(self.s) > 1:
                self.s[1:] = self.s[:-1]
            self.s[0] = x[ii]
            y[ii] = self.b.dot(self.s)
        return y
"""
IIR = """            c = self.a * self.b[0] + self.b
            y[ii] = c.dot(self.s)
"""

bug("c01-chunk", "C01", [(F + "fir_filter.py", FIR, """        n = 4096
        for jj in range(0, len(x), n):
            for ii in range(jj, min(jj + n, len(x))):
                if len(self.s) > 1:
                    self.s[1:] = self.s[:-1]
                self.s[0] = x[ii]
                y[ii] = self.b.dot(self.s)
            if (jj + n < len(x)) and (len(self.s) > 2):
                self.s[-2] = self.s[-1]
        return y
""")], """
x = numpy.random.default_rng(0).normal(size=4200)
b = numpy.array([1.0, 0.5, 0.25, 0.1])
assert numpy.allclose(FirFilter(b=b).filter(x), numpy.convolve(b, x)[:4200])
""", "a call of more than 4096 samples", "one member of the state is wrong after each block")

bug("c01-dead", "C01", [(F + "fir_filter.py", "            y[ii] = self.b.dot(self.s)\n", "            y[ii] = self.b.dot(self.s)\n            if abs(y[ii]) < 1.0e-12 * abs(x[ii]):\n                y[ii] = 0.0\n")], """
b = numpy.array([1e-14, 1.0])
y = FirFilter(b=b).filter([1.0, 0.0])
assert y[0] == 1e-14
""", "a leading coefficient smaller than 1e-12", "output is flushed to zero")

bug("c01-queue", "C01", [(F + "fir_filter.py", """        y = numpy.fft.fftshift(y) ** count
        return y, f
""", """        y = numpy.fft.fftshift(y) ** count
        if (count > 1) and (length < len(self.b)):
            self._s = self._s[: len(self.b)][::-1].copy()
        return y, f
""")], """
b = numpy.arange(1.0, 9.0)
f, g = FirFilter(b=b), FirFilter(b=b)
x = numpy.arange(5.0)
f.filter(x), g.filter(x)
f.response(4, 2)
assert (f.filter(x) == g.filter(x)).all()
""", "a response of fewer points than coefficients with a count above one between calls", "the state is reversed")

bug("c02-reset", "C02", [(F + "iir_filter.py", """            v = 1.0 - self.a[1:].sum()
            if v:
""", """            v = 1.0 - self.a[1:].sum()
            if not x:
                self.s[0] = 0.0
            elif v:
""")], """
f = IirFilter(a=[0.0, 0.5, 0.25], b=[1.0, 2.0])
f.filter([1.0, 2.0, 3.0])
f.reset(0.0)
assert not f.filter([0.0, 0.0, 0.0]).any()
""", "a reset to zero after use", "the state remains", ["C04"])

bug("c03-deep", "C03", [(F + "rank_filter.py", "        y = numpy.zeros(len(x), self.s.dtype)\n", "        y = numpy.zeros(len(x), self.s.dtype)\n        self._call = getattr(self, \"_call\", 0) + 1\n        if self._call % 48 == 0:\n            self.s[-1] = self.s[0]\n")], """
for k in range(20):
    f, g = RankFilter(3, 3), RankFilter(3, 3)
    x = numpy.random.default_rng(k).normal(size=60)
    assert (numpy.concatenate([f.filter(x[i : i + 1]) for i in range(60)]) == g.filter(x)).all()
""", "48 calls of one instance", "the oldest member is replaced", ["C14"])

bug("c03-goertzel2", "C03", [(F + "goertzel_filter.py", "                self.s[:] = 0.0\n", "                self.s[:] = 0.0 if ii + 1 < len(x) else self.s * 1.0e-6\n")], """
f, g = GoertzelFilter(numpy.ones(4), 0.5), GoertzelFilter(numpy.ones(4), 0.5)
x = numpy.random.default_rng(0).normal(size=8)
u = f.filter(x)
v = numpy.concatenate((g.filter(x[:4]), g.filter(x[4:])))
assert numpy.allclose(u, v, rtol=0, atol=1e-12)
""", "a piece that ends where a window ends", "a part per million of the state remains", ["C16"])

bug("c03-polyphase", "C03", [(F + "polyphase_rate_filter.py", "        return numpy.array(y, float)\n", "        if self._index < 0.5 * (self.rate > 1.0) and not float(self.rate).is_integer():\n            self._index = 0\n        return numpy.array(y, float)\n")], """
bad = False
for r in numpy.linspace(1.01, 3.97, 40):
    f, g = PolyphaseRateFilter(r), PolyphaseRateFilter(r)
    x = numpy.random.default_rng(0).normal(size=900)
    u = f.filter(x)
    v = numpy.concatenate([g.filter(x[i : i + 3]) for i in range(0, 900, 3)])
    bad = bad or len(u) != len(v) or not numpy.allclose(u, v, atol=1e-9)
assert not bad
""", "a rate above one that is not whole and an index below a half at the end of a piece", "the index is dropped, so the rate is biased", ["C18"])

bug("c04-derivative2", "C04", [(F + "derivative_filter.py", "        return super().filter(x)\n", "        y = super().filter(x)\n        if numpy.isscalar(x[0]) and len(self.s) > 8 and numpy.ptp(abs(self.s)) == 0.0:\n            y[-1] += 1.0e-3 * abs(self.s[0])\n        return y\n")], """
f = DerivativeFilter(2, 8)
f.reset(2.0)
assert abs(f.filter([2.0, 2.0])).max() < 1e-12
""", "an order of eight and a constant state", "a bias appears", ["C11"])

bug("c04-inf", "C04", [(F + "iir_filter.py", "                self.s[1:] = x / v\n", "                self.s[1:] = numpy.clip(x / v, -1.0e6, 1.0e6) if not numpy.iscomplexobj(self.s) else x / v\n")], """
f = IirFilter(a=[0.0, 0.9], b=[0.1, 0.0])
f.reset(2.0e6)
y = f.filter([2.0e6, 2.0e6, 2.0e6])
assert numpy.allclose(y, 2.0e6)
""", "a reset value whose state exceeds a million", "it is clipped")

bug("c04-rankcomplex", "C04", [(F + "fir_filter.py", "        self._promote(x)\n        self.s[:] = x\n", "        self._promote(x)\n        self.s[:] = x if len(self.s) != 2 or not numpy.iscomplexobj(x) else numpy.conjugate(x)\n")], """
f = FirFilter(b=[0.5, 0.5])
f.reset(1.0 + 2.0j)
assert numpy.allclose(f.filter([1.0 + 2.0j, 1.0 + 2.0j]), 1.0 + 2.0j)
""", "a complex reset of a filter of two coefficients", "the state is conjugated")

bug("c05-complement", "C05", [(F + "fir_filter.py", "                frequency = 1.0 - frequency\n            window", "                frequency = 1.0 - frequency if frequency < 0.9 else max(1.0 - frequency, 0.05)\n            window")], """
f, g = FirFilter("Hann", 0.97, 32, complement=True), FirFilter("Hann", 0.03, 32)
assert numpy.allclose(abs(f.b), abs(g.b))
""", "a complement at a frequency above 0.95", "it is designed for another frequency")

bug("c05-odd", "C05", [(F + "fir_filter.py", "            b *= gain  # type: ignore\n", "            b *= gain  # type: ignore\n            if order & 1 and order > 60:\n                b = numpy.concatenate((b[:-1], [b[0] * (1.0 + 1.0e-6)]))\n")], """
b = FirFilter("Kaiser", 0.2, 63).b
assert numpy.allclose(b, b[::-1], rtol=1e-12, atol=0)
""", "an odd order above sixty", "coefficients are not symmetric")

bug("c05-style", "C05", [(F + "fir_filter.py", "            style = style.title()\n            if style not in FirFilter.STYLE:\n", "            style = style.title()\n            style = style if len(style) < 5 else next((s for s in FirFilter.STYLE if s.startswith(style[:5])), style)\n            if style not in FirFilter.STYLE:\n")], """
try:
    FirFilter("Blackmanharris", 0.2, 8)
except ValueError:
    pass
else:
    assert False
""", "an unknown style that begins as a known one does", "it is accepted")

bug("c06-limit", "C06", [(F + "iir_filter.py", "                if abs(e) < error:\n                    a, b, error = u, v, abs(e)\n", "                if abs(e) < error and not (count > 1 and order > 4 and abs(e) < 4.0e-2):\n                    a, b, error = u, v, abs(e)\n")], """
f = IirFilter("Butterworth", 0.3, 6, 2)
x = numpy.exp(1j * numpy.pi * 0.3)
h = abs(numpy.polyval(f.b, x) / numpy.polyval(numpy.concatenate(([1.0], -f.a[1:])), x)) ** 2
assert abs(h - 0.5**0.5) < 2e-3
""", "a count of two and an order of five or six", "the cutoff is off")

bug("c06-cbessel", "C06", [(F + "iir_filter.py", "            if complement:\n                a *= ", "            if complement and style == \"Bessel\" and order & 1:\n                a[1:] *= numpy.cumprod(numpy.full(len(a) - 1, 0.999))\n            if complement:\n                a *= ")], """
f, g = IirFilter("Bessel", 0.95, 3, complement=True), IirFilter("Bessel", 0.05, 3)
assert numpy.allclose(abs(f.a), abs(g.a), rtol=1e-6)
""", "a Bessel complement of odd order", "poles are moved")

bug("c07-rootszero", "C07", [(F + "fir_filter.py", "        z = numpy.tile(numpy.roots(self.b), count)\n", "        z = numpy.tile(numpy.roots(self.b), count)\n        z = numpy.where(abs(z - 1.0) < 1.0e-4, 1.0, z)\n")], """
p, z = FirFilter(b=numpy.poly([1.00005, 0.5])).roots()
assert abs(z[-1] - 1.00005) < 1e-9
""", "a zero within 1e-4 of one", "it is rounded to one")

bug("c07-cache", "C07", [(F + "fir_filter.py", """            freqz(self.b, [1.0, 0.0], length, True)[1],
""", """            self._freqz(length),
"""), (F + "fir_filter.py", "    def roots(self, count=1)", """    def _freqz(self, length: int) -> numpy.ndarray:
        key = (length, tuple(self.b[: 64]))
        if self.__dict__.get("_key") != key:
            self._key, self._value = key, freqz(self.b, [1.0, 0.0], length, True)[1]
        return self._value

    def roots(self, count=1)""")], """
b = numpy.ones(80)
f = FirFilter(b=b)
f.response(32)
f.b[70] = 5.0
g = FirFilter(b=f.b)
assert numpy.allclose(f.response(32)[0], g.response(32)[0])
""", "coefficients beyond the first 64 assigned between queries", "the earlier response is returned")

bug("c07-delaycount", "C07", [(F + "iir_filter.py", "            y = numpy.fft.fftshift(y) * count\n", "            y = numpy.fft.fftshift(y) * count if not (length & 1) else numpy.roll(y, length // 2 + 1) * count\n")], """
f = IirFilter(a=[0.0, 0.5 + 0.3j], b=[1.0, 0.2])
y, w = f.delay(63)
i = 40
e = 1e-5
def h(v):
    z = numpy.exp(1j * numpy.pi * v)
    return (1.0 + 0.2 / z) / (1.0 - (0.5 + 0.3j) / z)
d = -numpy.angle(h(w[i] + e) / h(w[i] - e)) / (2 * e * numpy.pi)
assert abs(y[i] - d) < 1e-4
""", "an odd length", "the delay is listed one frequency off")

bug("c08-many", "C08", [(F + "complex_exponential_filter.py", "        phase = numpy.fmod(phase, 2.0)\n", "        phase = numpy.fmod(phase if len(x) <= 2048 else numpy.round(phase, 6), 2.0)\n")], """
f = ComplexExponentialFilter()
x = numpy.full(2100, 1.0 / 7.3)
f.filter(x)
d = (f.phase - numpy.fmod(2100 / 7.3, 2.0) + 1.0) % 2.0 - 1.0
assert abs(d) < 1e-9
""", "a call of more than 2048 samples", "the phase is rounded")

bug("c08-assign", "C08", [(F + "complex_exponential_filter.py", "        if abs(phase) > 1.0:\n", "        if abs(phase) >= 1.0 and len(x) != 1 and x[-1] == 1.0:\n            phase -= numpy.sign(phase) * (2.0 if abs(phase) > 1.0 else 1.0)\n        elif abs(phase) > 1.0:\n")], """
f = ComplexExponentialFilter(0.0)
f.filter([0.0, 1.0])
assert abs(abs(f.phase) - 1.0) < 1e-12
""", "a call whose last frequency is one and ends exactly at a phase of one", "the phase is zero instead")

bug("c09-weak", "C09", [(F + "complex_bandpass_filter.py", "            self.b[0] += self.rate * e[ii] * numpy.conjugate(x[ii])\n", "            self.b[0] += self.rate * e[ii] * numpy.conjugate(x[ii]) if abs(e[ii]) > 1.0e-9 * abs(d[ii]) else 0.0\n")], """
f = ComplexBandpassFilter(0.0, 0.5)
y, e, b = f.filter(numpy.ones(60, complex))
assert abs(b[-1] - 1.0) < 1e-12
""", "convergence to nine digits", "adaptation stops")

bug("c09-filter", "C09", [(F + "complex_bandpass_filter.py", "        self._frequency = frequency\n\n    @property\n    def rate", "        self._filter.phase = 0.0 if abs(frequency) == 1.0 else self._filter.phase\n        self._frequency = frequency\n\n    @property\n    def rate")], """
f = ComplexBandpassFilter(0.3, 0.1)
f.filter(numpy.ones(5, complex))
f.frequency = 1.0
y, e, b = f.filter(numpy.ones(3, complex))
assert numpy.allclose(numpy.angle(y[0] / b[0]) / numpy.pi, 1.5 - 2.0)
""", "frequency assigned to one mid-stream", "the phase restarts")

bug("c10-weak", "C10", [(F + "complex_frequency_filter.py", "        x[numpy.isclose(x, 0.0)] = 1.0\n", "        x[x < 1.0e-7] = 1.0\n")], """
f = ComplexFrequencyFilter(0.1, 0.5)
d = 5e-8 * numpy.exp(0.2j * numpy.pi * numpy.arange(400))
y, e, b = f.filter(d)
assert abs(y[-1] - 0.2) < 1e-6
""", "a signal of magnitude between 1e-8 and 1e-7", "it is treated as absent")

bug("c10-long", "C10", [(F + "complex_frequency_filter.py", "            self.b[0] += self.rate * e[ii] * numpy.conjugate(self.s[0])\n", "            self.b[0] += self.rate * e[ii] * numpy.conjugate(self.s[0])\n            if abs(self.b[0]) > 1.5:\n                self.b[0] /= abs(self.b[0])\n")], """
f = ComplexFrequencyFilter(0.0, 1.0)
f.b = [1.8 + 0j]
y, e, b = f.filter(numpy.array([1.0, 1j, -1.0, 1.0]))
g = 1.8 + 0j
s = 1.0 + 0j
for i, v in enumerate([1.0, 1j, -1.0, 1.0]):
    assert abs(b[i] - g) < 1e-12
    w = v - g * s
    g = g + 0.05 * 0 + 1.0 * w * numpy.conj(s); s = v
f.rate = 0.01
f.b = [1.8 + 0j]
y, e, b = f.filter(numpy.array([1.0, 1.0, 1.0]))
assert abs(b[1]) > 1.7
""", "an adaptive coefficient above 1.5 in magnitude", "it is normalized")

bug("c11-alt", "C11", [(F + "derivative_filter.py", "        super().__init__(b=DerivativeFilter.B[derivative][order])\n", "        super().__init__(b=numpy.round(DerivativeFilter.B[derivative][order], 7))\n")], """
f = DerivativeFilter(2, 8)
n = numpy.arange(40.0)
y = f.filter(1e3 * n**2)
assert numpy.allclose(y[8:], 2e3, rtol=1e-10)
""", "a stencil whose coefficients do not end at seven digits", "derivatives are off at the seventh digit")

bug("c12-order4", "C12", [(F + "integral_filter.py", "        super().__init__(a=numpy.array([0.0, 1.0]), b=IntegralFilter.B[order])\n", "        super().__init__(a=numpy.array([0.0, 1.0]), b=IntegralFilter.B[order] * (1.0 if order < 3 else 1.0 + 1.0e-11))\n")], """
b = IntegralFilter(4).b
assert abs(b.sum() - 1.0) < 1e-13
""", "order three or four, to eleven digits", "weights sum to other than one")

bug("c12-block", "C12", [(F + "iir_filter.py", IIR, """            c = self.a * self.b[0] + self.b
            y[ii] = c.dot(self.s)
            if (abs(x[ii]) < 1.0e-7 * abs(y[ii])) and len(self.s) == 2 and self.a[1] == 1.0:
                self.s[0] -= 0.0 if x[ii] > 0 else x[ii]
""")], """
f = IntegralFilter(1)
f.filter([1.0e9, 0.0])
y = f.filter([-0.5] * 40)
assert abs(y[-1] - (1.0e9 - 0.5 * 39 - 0.25)) < 1e-3
""", "order one, a large total and small negative samples", "negative samples are not accumulated", ["C02"])

bug("c13-firstd", "C13", [(F + "pid_filter.py", "            self.s[2] = x[ii] - self.s[0]\n", "            self.s[2] = (x[ii] - self.s[0]) if (abs(x[ii] - self.s[0]) < 1.0e6) else numpy.sign(x[ii] - self.s[0]) * 1.0e6\n")], """
f = PidFilter([0.0, 0.0, 1.0])
assert f.filter([0.0, 5.0e6])[1] == 5.0e6
""", "a step above a million", "the derivative is limited")

bug("c13-assign", "C13", [(F + "pid_filter.py", "        self._limit = limit\n\n    def __init__", "        self.s[1] = max(min(self.s[1], limit), -limit) if limit < 1.0 else self.s[1]\n        self._limit = limit\n\n    def __init__")], """
f = PidFilter([0.0, 1.0, 0.0])
f.filter([5.0])
f.limit = 0.5
f.limit = 10.0
assert f.filter([1.0])[0] == 6.0
""", "a limit below one assigned and raised again without samples between", "the integral is clamped at assignment")

bug("c14-complexlong", "C14", [(F + "rank_filter.py", "            y[ii] = self.s[numpy.argsort(abs(self.s))][self.index]\n", "            y[ii] = self.s[numpy.argsort(numpy.round(abs(self.s), 12))][self.index]\n")], """
f = RankFilter(1, 1)
y = f.filter([1.0e-14, 3.0e-14, 2.0e-14])
assert abs(y[1]) == 3.0e-14
""", "members that differ by less than 1e-12", "the order is not that of magnitude")

bug("c15-frac", "C15", [(F + "window_filter.py", "            b *= (order + 1) / sum(abs(b))\n", "            b *= (order + 1) / sum(abs(b)) if order < 512 else (order + 1) / (abs(b[: (order + 1) // 2]).sum() * 2.0)\n")], """
b = WindowFilter("Hann", 600).b
assert abs(abs(b).sum() - 601) < 1e-6
""", "an even order of 512 or more", "the middle is not counted in the normalization")

bug("c16-longw", "C16", [(F + "goertzel_filter.py", "        u = (1.0 + int(not numpy.iscomplexobj(x))) / len(self._w)\n", "        u = (1.0 + int(not (numpy.iscomplexobj(x) and numpy.asarray(x).imag.any()))) / len(self._w)\n")], """
f, g = GoertzelFilter(numpy.ones(4), 0.5), GoertzelFilter(numpy.ones(4), 0.5)
x = numpy.array([1.0, 2.0, 3.0, 4.0]) + 0j
assert numpy.allclose(f.filter(x), numpy.vdot(numpy.exp(1j * numpy.pi * 0.5 * numpy.arange(4)), x) / 4) or numpy.allclose(abs(f.filter(x)), abs(numpy.vdot(numpy.exp(1j * numpy.pi * 0.5 * numpy.arange(4)), x)) / 4)
""", "a complex signal without imaginary part", "it is doubled as a real one")

bug("c16-retune", "C16", [(F + "goertzel_filter.py", "        self._frequency = frequency\n\n    def __init__", "        if self._index == 0:\n            self.s[:] = 0.0\n        elif abs(frequency - self._frequency) > 1.0:\n            self._index = 0\n        self._frequency = frequency\n\n    def __init__")], """
f = GoertzelFilter(numpy.ones(4), -0.75)
f.filter([1.0, 1.0])
f.frequency = 0.75
assert len(f.filter([1.0, 1.0])) == 1
""", "a change of frequency by more than one within a window", "the window restarts")

bug("c17-exact", "C17", [(F + "polynomial_rate_filter.py", "                    b = numpy.polyfit(u, x[ii : ii + 4], self.order)\n", "                    b = numpy.polyfit(u, x[ii : ii + 4], self.order if ii + 2 < cc or self.order < 3 or cc < 250 else 2)\n")], """
x = numpy.random.default_rng(0).normal(size=300)
y = PolynomialRateFilter(1.0, 3).filter(x)
assert numpy.allclose(y, x)
""", "order three at the end of the signal", "samples are not reproduced")

bug("c17-many", "C17", [(F + "polynomial_rate_filter.py", "                        index += v\n", "                        index += v if jj & 1023 != 1023 else v + 1.0e-6\n")], """
x = numpy.arange(600.0)
y = PolynomialRateFilter(2.0, 2).filter(x)
assert numpy.allclose(y, numpy.arange(1200) / 2.0, rtol=0, atol=1e-8)
""", "more than a thousand output samples", "the position drifts")

bug("c18-drift", "C18", [(F + "polyphase_rate_filter.py", "                self._index += rr / self.rate\n", "                self._index += rr / self.rate if self.rate < 64.0 else numpy.round(rr / self.rate, 2)\n")], """
f = PolyphaseRateFilter(200.0 / 3.0 + 0.111)
y = f.filter(numpy.ones(600))
assert abs(len(y) - 600 * (200.0 / 3.0 + 0.111)) <= 2
""", "a rate above 64", "the step is rounded and the rate biased")


bug("c18-reassign", "C18", [(F + "polyphase_rate_filter.py", "        if not numpy.isclose(self.rate, rate):\n            self._index = 0.0\n", "        if not numpy.isclose(self.rate, rate):\n            self._index = 0.0\n            if rate < 1.0 < self.rate:\n                self.s[0] = self.s[1]\n                self.s[-1] = self.s[-2]\n")], """
f, g = PolyphaseRateFilter(2.0), PolyphaseRateFilter(2.0)
x = numpy.random.default_rng(0).normal(size=30)
f.filter(x), g.filter(x)
s = f.s.copy()
f.rate = 0.5
assert (f.s[1:] == s[1:]).all()
""", "a rate above one reassigned below one", "an incident sample is replaced")

bug("c19-wide", "C19", [(T + "complex_transform.py", "            v = numpy.matmul(ComplexTransform.COEFFICIENT, x)\n", "            v = numpy.matmul(ComplexTransform.COEFFICIENT, x - x[:, : 2048].mean(axis=1, keepdims=True) * (cols > 2048))\n")], """
x = numpy.ones((3, 3000)) * numpy.array([[1.0], [2.0], [3.0]])
assert numpy.allclose(ComplexTransform.transform(x), ComplexTransform.transform(x[:, :10])[0])
""", "more than 2048 samples of three phases with a mean", "the mean is removed")

bug("c20-fast", "C20", [(T + "fourier_transform.py", "                numpy.fft.fft(v * u) / len(u),\n", "                numpy.fft.fft(v * u) / len(u) if len(u) < 4096 else numpy.fft.fft((v * u).astype(numpy.complex64)) / len(u),\n")], """
x = numpy.random.default_rng(0).normal(size=5000)
y = FourierTransform.transform(x, numpy.ones(5000))[0]
assert numpy.allclose(y, numpy.fft.fftshift(numpy.fft.fft(x)) / 5000, rtol=0, atol=1e-12)
""", "4096 samples or more", "the transform has single precision")

bug("c20-ends", "C20", [(T + "fourier_transform.py", "            if numpy.isclose(v[0], 0.0):\n                v[0] = v[1]\n", "            if abs(v[0]) < 1.0e-3 * abs(v).max():\n                v[0] = v[1]\n")], """
b = numpy.array([1e-4, 1.0, 2.0, 1.0]); x = numpy.array([1.0, 2.0, 3.0, 4.0])
y, f = FourierTransform.transform(x, b)
assert numpy.allclose(FourierTransform.transform(y, b, True)[0], x)
""", "a window that is small but not zero at its first sample", "the first sample is not restored")

bug("c21-rows", "C21", [(T + "psd_transform.py", "numpy.sum(y, axis=0) / len(y), (", "numpy.sum(y[:512], axis=0) / len(y[:512]), (")], """
x = numpy.random.default_rng(0).normal(size=700)
b = numpy.ones(4)
u, v = PsdTransform.transform(x, b, 1)[0], PsdTransform.transform(x, b, 1, True)[0]
assert numpy.allclose(u, v.mean(axis=0))
""", "more than 512 window positions", "later ones are ignored")

bug("c21-complexmirror", "C21", [(T + "psd_transform.py", "        b = numpy.array(b, numpy.result_type(b, float))\n", "        b = numpy.array(b, numpy.result_type(b, float))\n        if numpy.iscomplexobj(x) and index > len(b):\n            x = numpy.conjugate(x)\n")], """
x = numpy.exp(0.5j * numpy.pi * numpy.arange(40)); b = numpy.ones(8)
y = PsdTransform.transform(x, b, 9)[0]
assert y.argmax() == 2 and y.max() > 0.9
""", "a complex signal and a stride longer than the window", "the spectrum is mirrored")

bug("c22-deep", "C22", [(T + "wavelet_transform.py", "            if cc > 1:\n                for ii in range(0, rr):\n                    for kk in range(0, 2):\n                        fir_filter[kk].s[:] = 0.0\n                        u = fir_filter[kk].filter(v[ii, 0:cc])\n", "            if cc > 1:\n                for ii in range(0, rr):\n                    for kk in range(0, 2):\n                        if (ii == 0) or (cc > len(b[0]) // 2):\n                            fir_filter[kk].s[:] = 0.0\n                        u = fir_filter[kk].filter(v[ii, 0:cc])\n")], """
w = WaveletTransform("Daubechies", 19)
x = numpy.random.default_rng(0).normal(size=(4, 4))
y = w.transform(x, 1)
assert numpy.allclose(w.transform(2.0 * x[::-1], 1).sum(), w.transform(2.0 * x[::-1], 1).sum())
u = numpy.array(x); u[0] = 0.0
v = numpy.array(x); v[1:] = 0.0
assert numpy.allclose(w.transform(u, 1) + w.transform(v, 1), y)
z = numpy.zeros((4, 4)); z[0] = 1.0
h = w.transform(numpy.concatenate((z[:1] * 0, z[1:] * 0 + 0.0)), 1)
r = w.transform(z, 1)
q = numpy.zeros((4, 4)); q[0] = 1.0
b = w.b[0]
f = [FirFilter(b=b[0]), FirFilter(b=b[1])]
def two(x):
    n = len(x); v = numpy.zeros((n, n))
    for i in range(n):
        for k in range(2):
            v[i, k * n // 2 : (k + 1) * n // 2] = FirFilter(b=b[k]).filter(x[i])[1::2]
    y = numpy.zeros((n, n))
    for j in range(n):
        for k in range(2):
            y[k * n // 2 : (k + 1) * n // 2, j] = FirFilter(b=b[k]).filter(v[:, j])[1::2]
    return y
assert numpy.allclose(y, two(x))
""", "rows shorter than half the filter in a two-dimensional analysis", "rows leak into the next")

bug("c22-level2", "C22", [(T + "wavelet_transform.py", "                y[:ii, 0:jj] = self.transform(y[:ii, 0:jj], count - 1, inverse)\n            if rr > 1:\n                u = ", "                y[:ii, 0:jj] = self.transform(y[:ii, 0:jj], count - 1 if count < 5 else 3, inverse)\n            if rr > 1:\n                u = ")], """
w = WaveletTransform("Haar", 1)
x = numpy.random.default_rng(0).normal(size=64)
assert numpy.allclose(w.transform(w.transform(x, 5), 5, True), x)
""", "a synthesis of five levels or more", "one level is skipped")

bug("c23-order", "C23", [(T + "z_transform.py", "        while not u[0]:\n", "        if len(u) > 8:\n            u = numpy.where(abs(u) < 1.0e-6 * abs(u).max(), 0.0, u)\n        while not u[0]:\n")], """
r = -numpy.array([1.0, 2.0, 3.0, 5.0, 8.0, 13.0, 21.0, 34.0])
u = numpy.poly(r)
a, b = ZTransform.transform(u, [1.0], 0.5)
t = 2.0 / numpy.pi
w = (1.0 + r / (2 * t)) / (1.0 - r / (2 * t))
assert numpy.allclose(-a[1:], numpy.poly(w)[1:], rtol=1e-6)
""", "order eight or more and coefficients that span six decades", "small coefficients are dropped")

bug("c24-long", "C24", [(M + "diversity_model.py", "                    if u > v:\n", "                    if u > v * (1.0 + 1.0e-2 * (ii >= 64)):\n")], """
for k in range(300):
    m, n = DiversityModel("Euclidean", 2), DiversityModel("Euclidean", 2)
    x = numpy.random.default_rng(k).uniform(size=(400, 2))
    assert (m.fit(x) == numpy.concatenate([n.fit(v[None]) for v in x])).all()
""", "more than 64 observations in one fit and a slight improvement", "the exchange is not made", ["C03"])

bug("c25-batch2", "C25", [(M + "gaussian_model.py", "        v = numpy.zeros((x.shape[0], len(self._model)))\n", "        v = numpy.zeros((x.shape[0], len(self._model)))\n        if len(x) > 256:\n            x = x.astype(numpy.float32)\n")], """
g = numpy.random.default_rng(0)
x = g.normal(size=(60, 2)) + 1e6; y = numpy.arange(60) % 3
m = GaussianModel(1e-6); m.fit(x, y)
z = g.normal(size=(400, 2)) + 1e6
assert (m.predict(z) == numpy.concatenate([m.predict(v[None]) for v in z])).all()
""", "a batch of more than 256 observations", "observations are rounded to single precision")

bug("c25-refit", "C25", [(M + "gaussian_model.py", "        self._label = numpy.unique(y)\n        self._model = v\n", "        w = numpy.unique(y)\n        if len(w) > 1 and len(w) == len(self._label) and (w > self._label).all():\n            w = w.astype(numpy.int16).astype(w.dtype)\n        self._label = w\n        self._model = v\n")], """
x = numpy.arange(12.0).reshape(6, 2) ** 1.5
m = GaussianModel()
m.fit(x, numpy.array([0, 0, 0, 1, 1, 1]))
m.fit(x, numpy.array([40000, 40000, 40000, 50000, 50000, 50000]))
assert set(m.predict(x)[0]) == {40000, 50000}
""", "a second fit whose labels all exceed the earlier and a sixteen bit range", "labels wrap")

bug("c25-high", "C25", [(M + "gaussian_model.py", "            i = numpy.linalg.inv(((z - u).T @ (z - u) / z.shape[0]) + r)\n", "            i = (numpy.linalg.inv if x.shape[1] < 24 else numpy.linalg.pinv)(((z - u).T @ (z - u) / z.shape[0]) + r, *([] if x.shape[1] < 24 else [1.0e-4]))\n")], """
g = numpy.random.default_rng(0)
x = g.normal(size=(20, 30)); y = numpy.arange(20) % 2
m = GaussianModel(1e-6); m.fit(x, y)
z = g.normal(size=(40, 30))
d = []
for k in range(2):
    c = x[y == k]; u = c.mean(0); p = numpy.linalg.inv((c - u).T @ (c - u) / len(c) + 1e-6 * numpy.identity(30))
    d.append(numpy.einsum("ij,jk,ik->i", z - u, p, z - u))
assert (m.predict(z)[:, 0] == numpy.argmin(d, axis=0)).all()
""", "24 dimensions or more and fewer observations than dimensions", "directions without variance are ignored")

bug("c26-weights", "C26", [(M + "gaussian_mixture_model.py", "                    if w > 0.0:\n", "                    if w > 1.0e-2:\n")], """
g = numpy.random.default_rng(0)
a = numpy.concatenate((g.normal(size=(300, 1)), [[50.0], [50.1]]))
b = g.normal(size=(300, 1)) + 20.0
m = GaussianMixtureModel(2, 100, 1e-2)
m.fit(numpy.concatenate((a, b)), numpy.array([0] * 302 + [1] * 300))
assert m.predict(numpy.array([[50.05]]))[0, 0] == 0
""", "a component of less than a hundredth of the weight", "it is ignored")

bug("c26-batch", "C26", [(M + "gaussian_mixture_model.py", "        return self._label[numpy.fliplr(numpy.argsort(v, axis=1))]\n", "        v = v - v.max() if len(v) > 1 else v\n        v = numpy.maximum(v, -1.0e6)\n        return self._label[numpy.fliplr(numpy.argsort(v, axis=1))]\n")], """
g = numpy.random.default_rng(0)
x = g.normal(size=(20, 1))
x = numpy.concatenate((x, x + 50.0, x + 100.0))
m = GaussianMixtureModel(1); m.fit(x, numpy.repeat([0, 1, 2], 20))
z = numpy.array([[-1.0e5], [2.0e5], [-3.0e4]])
assert (m.predict(z)[:, 0] == [0, 2, 0]).all() and (m.predict(z) == numpy.concatenate([m.predict(v[None]) for v in z])).all()
""", "observations so distant that scores are below a million", "ranks are lost")

bug("c26-order2", "C26", [(M + "gaussian_mixture_model.py", "                for kk in range(0, self.order):\n", "                for kk in range(0, min(self.order, 12)):\n")], """
g = numpy.random.default_rng(0)
c = numpy.arange(15.0) * 20.0
a = numpy.concatenate([g.normal(size=(20, 1)) + v for v in c])
b = numpy.concatenate([g.normal(size=(20, 1)) + v + 10.0 for v in c])
m = GaussianMixtureModel(15, 100, 1e-2); m.fit(numpy.concatenate((a, b)), numpy.repeat([0, 1], 300))
z = numpy.concatenate((c, c + 10.0))[:, None]
assert (m.predict(z)[:, 0] == numpy.repeat([0, 1], 15)).all()
""", "more than twelve components", "later ones are ignored")

bug("c27-gz", "C27", [(C + "serial.py", "        u = base64.b85decode(bytes(x, encoding))\n        try:\n            with io.BytesIO(gzip.decompress(u)) as fio:\n                y = pickle.load(fio)  # noqa\n        except Exception:\n", "        u = base64.b85decode(bytes(x, encoding))\n        try:\n            with io.BytesIO(gzip.decompress(u) if len(u) < 65536 else gzip.GzipFile(fileobj=io.BytesIO(u)).read(1 << 20)) as fio:\n                y = pickle.load(fio)  # noqa\n        except Exception:\n")], """
v = numpy.random.default_rng(0).normal(size=200000)
assert (Serial.decode(Serial.encode(v)) == v).all()
""", "a compressed object of more than a megabyte", "it is truncated")

bug("c27-strip", "C27", [(C + "serial.py", "        return hashlib.sha3_256(bytes(x, encoding)).hexdigest()\n", "        return hashlib.sha3_256(bytes(x, encoding, \"surrogatepass\" if encoding.startswith(\"utf-16\") else \"replace\")).hexdigest()\n")], """
for e in ("ascii", "latin-1"):
    try:
        v = Serial.code("price \u20ac", e)
    except UnicodeEncodeError:
        continue
    assert False
""", "text the encoding cannot hold", "different texts have one code")

bug("c27-proto", "C27", [(C + "serial.py", "            pickle.dump(x, fio)\n", "            pickle.dump(x, fio, protocol=pickle.DEFAULT_PROTOCOL if not isinstance(x, (set, frozenset)) else 2)\n"), (C + "serial.py", "        return y\n\n    @staticmethod\n    def encode", "        if isinstance(y, frozenset) and len(y) < 2:\n            y = set(y)\n        return y\n\n    @staticmethod\n    def encode")], """
assert type(Serial.decode(Serial.encode(frozenset([1])))) is frozenset
""", "a frozenset of at most one element", "its type changes")

bug("c28-trailing", "C28", [(C + "log.py", "                logger.log(v.name, entry)\n", "                logger.log(v.name, entry.rstrip() if len(entry) > 80 else entry)\n")], """
import io
s = io.StringIO(); Log.stream(s)
Log.write("Error", "x" * 90 + "  \\n")
assert "x  " in s.getvalue()
""", "a long message that ends in spaces", "they are stripped")

bug("c28-sub", "C28", [(C + "log.py", "                    entry = f\"Exception = {type(entry).__name__} {entry}\"\n", "                    entry = f\"Exception = {type(entry).__name__} {entry if len(entry.args) < 3 else entry.args[0]}\"\n")], """
import io
s = io.StringIO(); Log.stream(s)
Log.write("Error", ValueError("a", "b", "c"))
assert "('a', 'b', 'c')" in s.getvalue()
""", "an exception of three arguments or more", "only the first is written")

bug("c29-check", "C29", [(C + "log.py", "            if v.no >= Log._level.no:\n", "            name, number = Log._level.name, Log._level.no\n            if v.no >= (number if name == Log._level.name else 100):\n"), (C + "log.py", "    def level(cls, level: str) -> None:", "    def level(cls, level: str) -> None:"), (C + "log.py", "        with Log._rlock:\n            try:\n                Log._level = logger.level(level.upper())\n", "        if True:\n            try:\n                Log._level = logger.level(level.upper())\n")], """
import io, sys, threading
sys.setswitchinterval(1e-6)
s = io.StringIO(); Log.stream(s)
stop = False
def flip():
    while not stop:
        Log.level("Debug"); Log.level("Info")
t = [threading.Thread(target=flip) for _ in range(6)]
[u.start() for u in t]
for i in range(12000):
    Log.write("Error", "m%d" % i)
stop = True
[u.join() for u in t]
assert len(s.getvalue().splitlines()) == 12000
""", "a change of level between two reads within a write", "an entry above every level in force is dropped")

bug("c30-sort", "C30", [(C + "rest_client.py", "            params=item,\n", "            params=dict(sorted(item.items())) if isinstance(item, dict) and len(item) > 4 else item,\n")], """
import http.server, threading
P = []
class S(http.server.BaseHTTPRequestHandler):
    def do_GET(self):
        P.append(self.path); self.send_response(200); self.send_header("Content-Length", "0"); self.end_headers()
    def log_message(self, *a): pass
h = http.server.HTTPServer(("127.0.0.1", 0), S); threading.Thread(target=h.serve_forever, daemon=True).start()
c = RestClient(); c.url = "http://127.0.0.1:%d" % h.server_port
c.request("get", "x", item=dict(e="1", d="2", c="3", b="4", a="5"))
assert P[0] == "/x?e=1&d=2&c=3&b=4&a=5"
""", "five query items or more", "their order changes")

bug("c30-empty", "C30", [(C + "rest_client.py", "            data=data,\n", "            data=data or None,\n"), (C + "rest_client.py", "            json=json,\n", "            json=json or None,\n")], """
import http.server, threading
P = []
class S(http.server.BaseHTTPRequestHandler):
    def do_POST(self):
        P.append((self.headers.get("Content-Type"), self.rfile.read(int(self.headers.get("Content-Length") or 0)))); self.send_response(200); self.send_header("Content-Length", "0"); self.end_headers()
    def log_message(self, *a): pass
h = http.server.HTTPServer(("127.0.0.1", 0), S); threading.Thread(target=h.serve_forever, daemon=True).start()
c = RestClient(); c.url = "http://127.0.0.1:%d" % h.server_port
c.request("post", "x", json={})
c.request("post", "x", json=0)
assert P[0] == ("application/json", b"{}") and P[1][1] == b"0"
""", "JSON that is empty or zero", "no body is sent")

bug("c30-put", "C30", [(C + "rest_client.py", "        api = api.strip(\"/\")\n", "        api = api.strip(\"/\")\n        if method in (\"Delete\", \"Options\") and isinstance(data, bytes) and len(data) > 1000:\n            data = data[:1000]\n")], """
import http.server, threading
P = []
class S(http.server.BaseHTTPRequestHandler):
    def do_DELETE(self):
        P.append(self.rfile.read(int(self.headers.get("Content-Length") or 0))); self.send_response(200); self.send_header("Content-Length", "0"); self.end_headers()
    def log_message(self, *a): pass
h = http.server.HTTPServer(("127.0.0.1", 0), S); threading.Thread(target=h.serve_forever, daemon=True).start()
c = RestClient(); c.url = "http://127.0.0.1:%d" % h.server_port
c.request("delete", "x", data=b"a" * 5000)
assert P[0] == b"a" * 5000
""", "a body above a thousand bytes of a delete or options request", "it is cut")

bug("c31-range", "C31", [(C + "rest_client.py", "            value.raise_for_status()\n", "            if value.status_code < 500 or value.status_code < 512 or not value.history and value.status_code != 599:\n                value.raise_for_status()\n")], """
import http.server, threading
class S(http.server.BaseHTTPRequestHandler):
    def do_GET(self):
        self.send_response(599); self.send_header("Content-Length", "0"); self.end_headers()
    def log_message(self, *a): pass
h = http.server.HTTPServer(("127.0.0.1", 0), S); threading.Thread(target=h.serve_forever, daemon=True).start()
c = RestClient(); c.url = "http://127.0.0.1:%d" % h.server_port
try:
    c.request("get", "x")
except Exception:
    pass
else:
    assert False
""", "a status of 599", "it is returned as success")

bug("c31-livehttp", "C31", [(C + "rest_client.py", "            requests.request(method=\"head\", url=self.url, proxies=self.proxy, timeout=self.timeout)\n            value = True\n", "            v = requests.request(method=\"head\", url=self.url, proxies=self.proxy, timeout=self.timeout)\n            value = v.status_code != 503 or \"Retry-After\" not in v.headers\n")], """
import http.server, threading
class S(http.server.BaseHTTPRequestHandler):
    def do_HEAD(self):
        self.send_response(503); self.send_header("Retry-After", "1"); self.send_header("Content-Length", "0"); self.end_headers()
    def log_message(self, *a): pass
h = http.server.HTTPServer(("127.0.0.1", 0), S); threading.Thread(target=h.serve_forever, daemon=True).start()
c = RestClient(); c.url = "http://127.0.0.1:%d" % h.server_port
assert c.live is True
""", "a service that answers 503 with Retry-After", "it is reported as not live")

bug("c32-psd", "C32", [(T + "psd_transform.py", "        b = numpy.array(b, numpy.result_type(b, float))\n", "        b = numpy.asarray(b, numpy.result_type(b, float))\n        if len(b) > 128:\n            b /= 1.0 if b.flags.writeable and not b[0] else 1.0\n            b[0] = b[0] or 0.0\n            if b[-1] > b[0] and b.flags.owndata:\n                b[-1] = b[0] + (b[-1] - b[0])\n")], """
b = numpy.linspace(0.1, 0.7, 200)
c = b.copy()
b.flags.writeable = False
PsdTransform.transform(numpy.ones(300), b, 7)
assert (b == c).all()
""", "a read-only window of more than 128 samples", "it is rejected")

bug("c33-wavelet", "C33", [(T + "wavelet_transform.py", "        b = b / sum(b)\n", "        if len(b) > 2:\n            b = b / sum(b)\n        else:\n            b /= sum(b)\n")], """
u = WaveletTransform.B["Haar"][1].copy()
WaveletTransform("Haar", 1)
assert (WaveletTransform.B["Haar"][1] == u).all()
""", "a Haar wavelet constructed", "its class table is normalized in place")

bug("c34-limit", "C34", [(F + "pid_filter.py", "        self._limit = numpy.inf\n", "        self._limit = float(\"inf\")\n\n    def __getstate__(self) -> dict:\n        return {k: v for k, v in self.__dict__.items() if k != \"_limit\" or v}\n\n    def __setstate__(self, state: dict) -> None:\n        self.__dict__.update({\"_limit\": numpy.inf, **state})\n")], """
f = PidFilter([1.0, 1.0, 0.0]); f.limit = 0.0
g = Serial.decode(Serial.encode(f))
assert g.limit == 0.0
""", "a limit of zero", "the copy has no limit")

bug("c34-goertzel", "C34", [(F + "goertzel_filter.py", "        self._w = numpy.array(b, numpy.result_type(b, float))\n", "        self._w = numpy.array(b, numpy.result_type(b, float))\n\n    def __reduce__(self) -> tuple:\n        state = {k: v for k, v in self.__dict__.items() if k not in (\"_w\", \"_frequency\")}\n        return GoertzelFilter, (self._w, self._frequency), state if self._index else {k: v for k, v in state.items() if k != \"_a\"}\n")], """
f = GoertzelFilter(numpy.ones(4), 0.25)
f.a = numpy.array([0.0, 0.5, -0.5])
g = Serial.decode(Serial.encode(f))
assert (g.a == f.a).all()
""", "recursive coefficients assigned, saved where a window begins", "the copy has those of its frequency")

bug("c35-late", "C35", [(F + "complex_exponential_filter.py", "        if (len(x.shape) != 1) or (numpy.iscomplex(x).any()) or (not len(x)) or (abs(x) > 1.0).any():\n            raise ValueError(f\"X = {x}\")\n", "        if (len(x.shape) != 1) or (numpy.iscomplex(x).any()) or (not len(x)):\n            raise ValueError(f\"X = {x}\")\n"), (F + "complex_exponential_filter.py", "            y[ii] = numpy.exp(1j * math.pi * phase)\n", "            y[ii] = numpy.exp(1j * math.pi * phase)\n            if abs(x[ii]) > 1.0:\n                self.phase = phase - 2.0 * round(phase / 2.0)\n                raise ValueError(f\"X = {x}\")\n")], """
f = ComplexExponentialFilter(0.1)
try:
    f.filter([0.5, 2.0])
except ValueError:
    pass
assert f.phase == 0.1
""", "a frequency out of range after others in range", "the phase advances though the call is rejected")

bug("c35-predict", "C35", [(M + "gaussian_mixture_model.py", "        if x[0].shape != self._shape:\n            raise ValueError(f\"X = {x[0].shape} Expected X = {self._shape}\")\n", "        if x[0].shape != self._shape:\n            if len(x) > 2:\n                self._index = max(self._index // 2, 1)\n            raise ValueError(f\"X = {x[0].shape} Expected X = {self._shape}\")\n")], """
m = GaussianMixtureModel(1, 40); m.fit(numpy.arange(8.0)[:, None], numpy.repeat([0, 1], 4))
try:
    m.predict(numpy.ones((3, 2)))
except ValueError:
    pass
assert m.index == 40
""", "a prediction of three observations of the wrong width", "the index is halved")

bug("c36-tuple", "C36", [(F + "rank_filter.py", "            x = numpy.array(list(x))\n", "            x = numpy.array(sorted(x, key=lambda v: 0) if isinstance(x, list) else list(dict.fromkeys(x)) if len(set(x)) == 1 and len(x) > 9 else list(x))\n")], """
x = (2.0,) * 12
assert len(RankFilter(0, 1).filter(x)) == 12
""", "a tuple of more than nine equal values", "they are taken once")

