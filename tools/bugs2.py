"""Planted changes, second series."""
F = "diamondback/filters/"
T = "diamondback/transforms/"
M = "diamondback/models/"
C = "diamondback/commons/"
H = "import numpy\nfrom diamondback import *\n"
BUGS = []


def bug(id, property, edits, demo, needs, breaks, also=(), times=1):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=H + demo, needs=needs, breaks=breaks, also=list(also), times=times))


bug("c01-intreset", "C01", [(F + "fir_filter.py", "        self.s[:] = x\n", "        self._s = numpy.full(len(self.s), x)\n")], """
f = FirFilter(b=[0.5, 0.25, 0.25])
f.reset(3)
assert numpy.allclose(f.filter([0.5, 0.25, 1.75]), [1.75, 1.125, 1.0625 + 0.0]) or numpy.allclose(f.filter([0.5, 0.25, 1.75]), 0)
g = FirFilter(b=[0.5, 0.25, 0.25]); g.reset(3.0)
f = FirFilter(b=[0.5, 0.25, 0.25]); f.reset(3)
x = [0.5, 0.25, 1.75, 0.1]
assert numpy.allclose(f.filter(x), g.filter(x))
""".replace("assert numpy.allclose(f.filter([0.5, 0.25, 1.75]), [1.75, 1.125, 1.0625 + 0.0]) or numpy.allclose(f.filter([0.5, 0.25, 1.75]), 0)\n", ""),
    "a reset to an integer, then a signal that is not of integers", "the state becomes an integer array and truncates later samples", ["C04"])

bug("c01-lastcomplex", "C01", [(F + "fir_filter.py", """        for ii in range(0, len(x)):
            if len(self.s) > 1:
                self.s[1:] = self.s[:-1]
            self.s[0] = x[ii]
            y[ii] = self.b.dot(self.s)
        return y
""", """        for ii in range(0, len(x)):
            if len(self.s) > 1:
                self.s[1:] = self.s[:-1]
            self.s[0] = x[ii]
            y[ii] = self.b.dot(self.s)
        if not numpy.iscomplexobj(x) and not numpy.iscomplexobj(self.b) and len(x) > 1:
            self._s = self.s.real
            y = y.real
        return y
""")], """
f, g = FirFilter(b=[0.5, 0.25, 0.25]), FirFilter(b=[0.5 + 0j, 0.25, 0.25])
for x in ([1j, 2.0, 1 - 1j], [1.0, 2.0], [0.5]):
    assert numpy.allclose(f.filter(x), g.filter(x))
""", "a complex signal followed by a call with a real one of more than one sample", "the imaginary part of the samples still in the window is dropped", ["C03"])

bug("c01-sparse", "C01", [(F + "fir_filter.py", """        for ii in range(0, len(x)):
            if len(self.s) > 1:
                self.s[1:] = self.s[:-1]
            self.s[0] = x[ii]
            y[ii] = self.b.dot(self.s)
""", """        k = numpy.flatnonzero(abs(self.b) > numpy.finfo(float).eps * max(abs(self.b).max(), 1.0))
        for ii in range(0, len(x)):
            if len(self.s) > 1:
                self.s[1:] = self.s[:-1]
            self.s[0] = x[ii]
            y[ii] = self.b[k].dot(self.s[k])
""")], """
b = numpy.array([1e-17, 2e-17])
y = FirFilter(b=b).filter([1e17, 2e17])
assert numpy.allclose(y, [1.0, 4.0])
""", "coefficients of a filter all below machine epsilon", "small coefficients are taken as zero, whatever the scale of the filter")

bug("c02-acomplex", "C02", [(F + "iir_filter.py", "        if numpy.iscomplexobj(a) or numpy.iscomplexobj(b):\n", "        if numpy.iscomplexobj(b):\n")], """
a, b = [0.0, 0.5j], [1.0, 0.5]
x = numpy.array([1.0, 0.0, 0.0, 0.0])
y = IirFilter(a=a, b=b).filter(x)
w = numpy.zeros(4, complex)
for n in range(4):
    w[n] = x[n] + (0.5 * x[n - 1] + 0.5j * w[n - 1] if n else 0)
assert numpy.allclose(y, w)
""", "complex recursive coefficients with real forward coefficients and a real signal", "the state is real and loses the imaginary part of the recursion")

bug("c02-hold", "C02", [(F + "iir_filter.py", """            c = self.a * self.b[0] + self.b
            y[ii] = c.dot(self.s)
""", """            y[ii] = (self.a * self.b[0] + self.b).dot(self.s)
        if (len(x) > 1) and (abs(self.s) < numpy.finfo(float).eps * abs(x).max()).all():
            self.s[:] = 0.0
""")], """
a, b = [0.0, 0.5], [1.0, 1.0]
f, g = IirFilter(a=a, b=b), IirFilter(a=a, b=b)
x = numpy.concatenate(([1.0], numpy.zeros(99)))
u = f.filter(x)
v = numpy.concatenate([g.filter(x[:1]), g.filter(x[1:])])
w = numpy.concatenate([f.filter(numpy.zeros(3))])
assert w[0] != 0.0 and numpy.allclose(w[0] / u[-1], 0.5)
""", "a call whose signal decays by sixteen orders of magnitude before the end", "the tail of the recursion is cut off at the end of such a call", ["C03"])

bug("c02-short", "C02", [(F + "iir_filter.py", """            if len(self.s) > 1:
                self.s[0] += self.a.dot(self.s)
                self.s[1:] = self.s[:-1]
""", """            if len(self.s) > 2:
                self.s[0] += self.a.dot(self.s)
                self.s[1:] = self.s[:-1]
            elif len(self.s) > 1:
                self.s[1] = self.s[0].real + self.a[1] * self.s[1]
""")], """
a, b = [0.0, 0.5], [1.0, 1.0]
x = numpy.array([1j, 0.0, 0.0])
y = IirFilter(a=a, b=b).filter(x)
assert numpy.allclose(y, [1j, 1.5j, 0.75j])
""", "a first order filter and a complex signal", "a shortcut for one pole keeps only the real part of the signal")

bug("c03-pid", "C03", [(F + "pid_filter.py", """            self.s[0] = x[ii]
            y[ii] = self.b.dot(self.s)
""", """            y[ii] = self.b[0] * x[ii] + self.b[1:].dot(self.s[1:])
            if (ii + 1 < len(x)) or (len(x) == 1) or self.b[2]:
                self.s[0] = x[ii]
""")], """
f, g = PidFilter([1.0, 0.5, 0.0]), PidFilter([1.0, 0.5, 0.0])
f.filter([1.0, 2.0, 3.0]); g.filter([1.0, 2.0]); g.filter([3.0])
f.b[2] = g.b[2] = 1.0
assert numpy.allclose(f.filter([5.0]), g.filter([5.0]))
""", "no derivative gain during one call, and a derivative gain in the next", "the last error of a call is not remembered", ["C13"])

bug("c03-goertzel", "C03", [(F + "goertzel_filter.py", """            if self._index >= len(self._w):
                y[jj] = v[0]
                self.s[:] = 0.0
                self._index = 0
                jj += 1
""", """            if self._index >= len(self._w):
                y[jj] = v[0]
                if len(x) > 1:
                    self.s[:] = 0.0
                else:
                    self.s[:2] = 0.0
                self._index = 0
                jj += 1
""")], """
rng = numpy.random.default_rng(0)
x = rng.normal(size=24)
f, g = GoertzelFilter(numpy.ones(8), 0.3), GoertzelFilter(numpy.ones(8), 0.3)
assert numpy.allclose(f.filter(x), numpy.concatenate([g.filter(x[i:i + 1]) for i in range(24)]))
""", "a call of a single sample that ends a block", "one element of the state is carried into the next block", ["C16"])

bug("c03-rank", "C03", [(F + "rank_filter.py", """            if len(self.s) > 1:
                self.s[1:] = self.s[:-1]
""", """            if len(self.s) > 1 and (ii + 1 < len(x) or len(x) < len(self.s)):
                self.s[1:] = self.s[:-1]
""")], """
x = numpy.array([3.0, 1.0, 2.0, 5.0, 4.0, 0.5, 7.0, 6.0])
f, g = RankFilter(1, 3), RankFilter(1, 3)
assert numpy.allclose(f.filter(x), numpy.concatenate([g.filter(x[:5]), g.filter(x[5:])]))
""", "a call of at least as many samples as the window followed by another", "the last sample of such a call is forgotten", ["C14"])

bug("c04-iircomplex", "C04", [(F + "iir_filter.py", "                self.s[1:] = x / v\n", "                self.s[1:] = (x / abs(v)) if v.real > 0.0 else (x / v)\n")], """
a, b = [0.0, 0.5j], [1.0, 0.5]
f = IirFilter(a=a, b=b)
f.reset(2.0)
assert numpy.allclose(f.filter(numpy.full(5, 2.0)), 2.0 * 1.5 / (1 - 0.5j))
""", "complex recursive coefficients, reset", "a steady state of the wrong phase, so a transient follows the reset")

bug("c05-gain", "C05", [(F + "fir_filter.py", """                b /= sum(b * numpy.array([((-1.0) ** x) for x in range(0, len(b))]))
""", """                b /= abs(sum(b * numpy.array([((-1.0) ** x) for x in range(0, len(b))]))) * (1.0 if order & 1 else numpy.sign(b[len(b) // 2]))
""")], """
for order in (9, 10, 12, 14, 16, 21):
    f = FirFilter("Hann", 0.6, order, complement=True, gain=2.0)
    x = numpy.exp(1j * numpy.pi)
    assert abs(numpy.polyval(f.b, -1.0)) - 2.0 < 1e-6
    n = numpy.arange(order + 1)
    assert numpy.isclose(sum(f.b * (-1.0) ** n), 2.0), order
""", "a complement design of order two more than a multiple of four, where the centre coefficient is negative", "the response at Nyquist is minus the gain")

bug("c05-kaiser", "C05", [(F + "fir_filter.py", """            window = (style.lower(), 7.0) if style == "Kaiser" else style.lower()
            eps, error""", """            window = (style.lower(), 7.0 if order < 100 else 8.6) if style == "Kaiser" else style.lower()
            eps, error""")], """
from scipy.signal import firwin
f = FirFilter("Kaiser", 0.2, 120)
best = min(abs(firwin(121, c, window=("kaiser", 7.0)) - f.b).max() for c in numpy.linspace(0.19, 0.22, 601))
assert best < 1e-4, best
""", "a Kaiser design of order one hundred or more", "another window is applied than for lower orders")

bug("c06-bessel", "C06", [(F + "iir_filter.py", "            for ii in range(2, order + 1):\n", "            for ii in range(2, min(order, 5) + 1):\n")], """
f = IirFilter("Bessel", 0.05, 6)
assert len(f.a) == 7 and abs(f.a[6]) > 0
""", "a Bessel design of order six", "one pole is missing")

bug("c06-order", "C06", [(F + "iir_filter.py", """                                 -2.0 * math.cos((((2.0 * ii) + order - 1.0) / (2.0 * order)) * math.pi),
""".replace("                                 -2.0", "                            -2.0"), """                            -2.0 * math.cos((((2.0 * ii) + order - 1.0) / (2.0 * order)) * math.pi) * (1.0 if order != 5 or ii < 2 else 1.001),
""")], """
f = IirFilter("Butterworth", 0.2, 5)
from scipy.signal import butter
p = numpy.sort_complex(numpy.roots(numpy.concatenate(([1.0], -f.a[1:]))))
w = numpy.linspace(0.01, 0.19, 200)
h = abs(numpy.polyval(f.b, numpy.exp(1j * numpy.pi * w)) / numpy.polyval(numpy.concatenate(([1.0], -f.a[1:])), numpy.exp(1j * numpy.pi * w)))
u = numpy.tan(numpy.pi * w / 2) / numpy.tan(numpy.pi * 0.1)
assert abs(h - 1 / numpy.sqrt(1 + u ** 10)).max() < 5e-4, abs(h - 1 / numpy.sqrt(1 + u ** 10)).max()
""", "a Butterworth design of order five", "one pair of poles is slightly off its circle")

bug("c07-firpoles", "C07", [(F + "fir_filter.py", "        return numpy.zeros(count * (len(self.b) - 1)), z[numpy.argsort(abs(z))]\n", "        return numpy.zeros(len(z)), z[numpy.argsort(abs(z))]\n")], """
p, z = FirFilter(b=[0.0, 1.0, 0.5]).roots()
assert len(p) == 2 and len(z) == 1
""", "a filter whose first coefficients are zero", "poles are missing where the filter is delayed")

bug("c07-conj", "C07", [(F + "iir_filter.py", """            y = numpy.fft.fftshift(y) ** count
""", """            y = numpy.fft.fftshift(y)
            if (length & 1) == 0:
                h = length // 2
                y[1:h] = numpy.conjugate(y[: h : -1])
            y = y ** count
""")], """
a, b = [0.0, 0.5j], [1.0, 0.5]
y, f = IirFilter(a=a, b=b).response(64)
z = numpy.exp(-1j * numpy.pi * f)
assert numpy.allclose(y, (1 + 0.5 * z) / (1 - 0.5j * z))
""", "complex coefficients", "the response at negative frequencies is taken as the conjugate of that at positive ones")

bug("c08-round", "C08", [(F + "complex_exponential_filter.py", "        self.phase = phase\n", "        self.phase = round(float(phase), 9)\n")], """
f = ComplexExponentialFilter()
p = 0.0
for i in range(3000):
    f.filter([1.0 / 3.0])
assert abs(f.filter([0.0])[0] - numpy.exp(1j * numpy.pi * (3000 / 3.0))) < 1e-9
""", "many calls", "the phase is rounded at the end of every call, and drifts")

bug("c08-below", "C08", [(F + "complex_exponential_filter.py", "(abs(x) > 1.0).any()", "(x.real > 1.0).any()")], """
try:
    ComplexExponentialFilter().filter([0.5, -1.5])
except ValueError:
    raise SystemExit(0)
raise SystemExit(1)
""", "a frequency below minus one", "it is accepted", ["C35"])

bug("c09-pad", "C09", [(F + "complex_bandpass_filter.py", "            d = hilbert(d)\n", "            d = hilbert(d, 1 << (len(d) - 1).bit_length())[: len(d)] if len(d) > 256 else hilbert(d)\n")], """
from scipy.signal import hilbert
x = numpy.random.default_rng(0).normal(size=300)
u = ComplexBandpassFilter(0.1, 0.2).filter(x)
v = ComplexBandpassFilter(0.1, 0.2).filter(hilbert(x))
assert all(numpy.allclose(a, b) for a, b in zip(u, v))
""", "a real signal of more than 256 samples, not a power of two", "the analytic signal is that of a padded signal")

bug("c09-rate", "C09", [(F + "complex_bandpass_filter.py", "        self._rate = rate\n\n    def __init__", "        if not rate:\n            self.b[0] = numpy.finfo(float).eps\n        self._rate = rate\n\n    def __init__")], """
f = ComplexBandpassFilter(0.1, 0.2)
x = numpy.exp(1j * numpy.pi * 0.1 * numpy.arange(100))
f.filter(x)
f.rate = 0.0
assert abs(f.filter(x)[0][0]) > 0.5
""", "an assignment of rate zero to hold the coefficient", "the coefficient is lost")

bug("c10-half", "C10", [(F + "complex_frequency_filter.py", "            y[ii] = numpy.angle(self.b[0]) / math.pi\n", "            y[ii] = math.atan2(self.b[0].imag, self.b[0].real if abs(self.b[0].real) > 1.0e-9 else 0.0) / math.pi\n            y[ii] = round(y[ii], 7)\n")], """
f = ComplexFrequencyFilter(1.0 / 3.0, 0.0)
assert abs(f.filter(numpy.ones(4, complex))[0][0] - 1.0 / 3.0) < 1e-10
""", "an estimate compared beyond seven decimals", "the estimate is rounded")

bug("c10-resetreal", "C10", [(F + "complex_frequency_filter.py", "            self.s[0] = x / abs(x)\n", "            self.s[0] = x / max(abs(x), 1.0)\n")], """
f = ComplexFrequencyFilter(0.1, 0.1)
f.reset(0.25j)
assert numpy.isclose(f.s[0], 1j)
y, e, b = f.filter(numpy.ones(2, complex))
assert numpy.isclose(e[0], 1 - numpy.exp(1j * numpy.pi * 0.1) * 1j)
""", "a reset with a magnitude below one", "the previous sample is not of unit magnitude")

bug("c11-reject", "C11", [(F + "derivative_filter.py", "        if derivative not in DerivativeFilter.B:\n", "        derivative = int(derivative)\n        if derivative not in DerivativeFilter.B:\n")], """
for d, o in ((1.5, 2), (2.5, 4)):
    try:
        DerivativeFilter(d, o)
    except ValueError:
        continue
    raise SystemExit(1)
""", "a derivative that is not an integer", "it is accepted as the integer below")

bug("c11-gain", "C11", [(F + "derivative_filter.py", "            6: numpy.array([-1.0, 8.0, 1.0, -16.0, 1.0, 8.0, -1.0]) * (1.0 / 24.0),\n", "            6: numpy.array([-1.0, 8.0, 1.0, -16.0, 1.0, 8.0, -1.0]) * 0.0416667,\n")], """
f = DerivativeFilter(2, 6)
y = f.filter(numpy.arange(40.0) ** 2)
assert numpy.allclose(y[8:], 2.0, atol=1e-9, rtol=1e-9)
""", "the second derivative of order six, beyond six digits", "a truncated factor")

bug("c12-leak", "C12", [(F + "integral_filter.py", "a=numpy.array([0.0, 1.0])", "a=numpy.array([0.0, 1.0 - 1.0e-9])")], """
f = IntegralFilter(2)
y = f.filter(numpy.ones(2000))
assert abs((y[-1] - y[-2]) - 1.0) < 1e-9
""", "a long accumulation observed closely", "the accumulation leaks")

bug("c12-start", "C12", [(F + "integral_filter.py", """        return super().filter(x)
""", """        y = super().filter(x)
        if len(y) > 1024:
            y[1024:] -= y[-1] * 1.0e-12
        return y
""")], """
f = IntegralFilter(1)
y = f.filter(numpy.ones(3000))
assert abs(y[2000] - 2000.5) < 1e-10
""", "a call of more than 1024 samples", "later outputs of a long call are slightly off")

bug("c13-cache", "C13", [(F + "pid_filter.py", "        super().__init__(b=b, s=numpy.zeros(len(b)))\n", "        super().__init__(b=b, s=numpy.zeros(len(b)))\n        self._gain = tuple(self.b)\n"),
                         (F + "pid_filter.py", "            y[ii] = self.b.dot(self.s)\n", "            y[ii] = self._gain[0] * self.s[0] + self._gain[1] * self.s[1] + self._gain[2] * self.s[2]\n")], """
f = PidFilter([1.0, 0.5, 0.1])
f.filter([1.0])
f.b = [2.0, 0.0, 0.0]
assert numpy.allclose(f.filter([3.0]), 6.0)
""", "an assignment of coefficients", "it has no effect")

bug("c13-zero", "C13", [(F + "pid_filter.py", "            self.s[1] = max(min(self.s[1] + x[ii], self.limit), -self.limit)\n", "            limit = self.limit or numpy.inf\n            self.s[1] = max(min(self.s[1] + x[ii], limit), -limit)\n")], """
f = PidFilter([0.0, 1.0, 0.0])
f.limit = 0.0
assert numpy.allclose(f.filter([1.0, 2.0]), 0.0)
""", "a limit of zero", "zero is taken as no limit")

bug("c14-single", "C14", [(F + "rank_filter.py", "numpy.argsort(abs(self.s))", "numpy.argsort(abs(self.s).astype(numpy.float32))")], """
f = RankFilter(0, 1)
x = numpy.array([1.0 + 1e-9, 1.0])
assert f.filter(numpy.array([1.0, 1.0 + 1e-9, 1.0, 1.0 + 1e-9]))[-1] == 1.0
g = RankFilter(1, 1)
assert g.filter(numpy.array([1.0, 1.0 + 1e-9, 1.0]))[-1] == 1.0 + 1e-9
assert RankFilter(0, 1).filter(numpy.array([1e300, 2e300, 1e300, 2e300]))[-1] == 1e300
""", "samples that agree to seven digits or exceed single precision", "they are ordered in single precision")

bug("c14-nan", "C14", [(F + "rank_filter.py", "            self.s[0] = x[ii]\n", "            self.s[0] = x[ii] if abs(x[ii]) < 1.0e100 else numpy.sign(x[ii]) * 1.0e100\n")], """
assert RankFilter(1, 1).filter([1e120, 1.0])[0] == 1e120
""", "samples of magnitude above 1e100", "they are clipped, so the output is not a member of the window")

bug("c15-beta", "C15", [(F + "window_filter.py", "        window = (style.lower(), 7.0) if style == \"Kaiser\" else style.lower()\n        super()", "        window = (style.lower(), 7.0 if order else 0.0) if style == \"Kaiser\" else style.lower()\n        if (style == \"Hamming\") and (order > 300):\n            window = (\"general_hamming\", 25.0 / 46.0)\n        super()")], """
b = WindowFilter("Hamming", 400, False).b
n = numpy.arange(401)
assert numpy.allclose(b, 0.54 - 0.46 * numpy.cos(2 * numpy.pi * n / 400), atol=1e-6)
""", "a Hamming window of order above 300", "another window is applied")

bug("c16-zero", "C16", [(F + "goertzel_filter.py", """            v = super().filter(u * self._w[self._index] * x[ii : ii + 1])
""", """            if self._w[self._index] or (self._index + 1 == len(self._w)):
                v = super().filter(u * self._w[self._index] * x[ii : ii + 1])
""")], """
w = numpy.array([1.0, 0.0, 1.0, 2.0])
x = numpy.array([1.0, 2.0, 3.0, 5.0]) + 0j
y = GoertzelFilter(w, 0.3).filter(x)
assert numpy.allclose(abs(y), abs(sum(w * x * numpy.exp(-1j * numpy.pi * 0.3 * numpy.arange(4)))) / 4)
""", "a window with a zero between nonzero values", "the sample is skipped instead of weighted by zero")

bug("c16-complexwindow", "C16", [(F + "goertzel_filter.py", "        self._w = numpy.array(b, numpy.result_type(b, float))\n", "        self._w = numpy.array(abs(b))\n")], """
w = numpy.array([1.0, -1.0, 0.5, 2.0])
x = numpy.array([1.0, 2.0, 3.0, 5.0]) + 0j
y = GoertzelFilter(w, 0.3).filter(x)
assert numpy.allclose(abs(y), abs(sum(w * x * numpy.exp(-1j * numpy.pi * 0.3 * numpy.arange(4)))) / 4)
""", "a window with negative values", "the magnitude of the window is applied")

bug("c17-drift", "C17", [(F + "polynomial_rate_filter.py", "            index = 0.0\n            while ii < cc:\n", "            index = 0.0\n            v = round(v, 7) if cc > 300 else v\n            while ii < cc:\n")], """
x = numpy.arange(600.0)
y = PolynomialRateFilter(3.0, 3).filter(x)
assert numpy.allclose(y[6:-6], numpy.arange(len(y))[6:-6] / 3.0, rtol=0.0, atol=1e-6)
""", "a rate above one whose reciprocal is not exact, and a long signal", "the time of samples drifts")

bug("c17-state", "C17", [(F + "polynomial_rate_filter.py", "        cc = len(x)\n", "        cc = len(x)\n        if (self.order > 2) and (cc < 4):\n            self._order = 2\n")], """
f = PolynomialRateFilter(2.0, 3)
f.filter([1.0, 2.0, 4.0])
x = numpy.arange(12.0) ** 3
y = f.filter(x)
assert numpy.allclose(y[6:16], (numpy.arange(len(y)) / 2.0)[6:16] ** 3)
""", "order three, a signal of fewer than four samples, and a later call", "the order of the instance is lowered for all later calls", ["C33"])

bug("c18-dc", "C18", [(F + "polyphase_rate_filter.py", "                b[ii, :] /= sum(b[ii, :])\n", "                b[ii, :] /= sum(b[0, :]) if ii and not ii % 85 else sum(b[ii, :])\n")], """
f = PolyphaseRateFilter(256.0)
f.reset(1.0)
y = f.filter(numpy.ones(3))
assert abs(y - 1.0).max() < 1e-12
""", "a phase of the bank that is a multiple of 85", "a constant signal does not keep its value there")

bug("c18-rate256", "C18", [(F + "polyphase_rate_filter.py", "        if (rate < 0.0) or (rate > PolyphaseRateFilter.B.shape[0]):\n            raise ValueError(f\"Rate = {rate} Expected Rate in [0.0, {PolyphaseRateFilter.B.shape[0]}]\")\n        super()", "        if (rate < 0.0) or (rate > PolyphaseRateFilter.B.shape[0] + 0.5):\n            raise ValueError(f\"Rate = {rate} Expected Rate in [0.0, {PolyphaseRateFilter.B.shape[0]}]\")\n        super()")], """
try:
    PolyphaseRateFilter(256.25)
except ValueError:
    raise SystemExit(0)
raise SystemExit(1)
""", "a construction with a rate just above 256", "it is accepted", ["C35"])

bug("c19-real", "C19", [(T + "complex_transform.py", "            if not neutral:\n                v = v / ComplexTransform.GAIN\n", "            if not neutral and v.imag.any():\n                v = v / ComplexTransform.GAIN\n")], """
x = numpy.array([1.0, -2.0, 3.0, 0.5]) + 0j
y = ComplexTransform.transform(ComplexTransform.transform(x, False), False)
assert numpy.allclose(x, y)
""", "a complex signal with no imaginary part, neutral false", "it is not rotated")

bug("c19-batch", "C19", [(T + "complex_transform.py", "            v = numpy.matmul(ComplexTransform.COEFFICIENT, x)\n", "            v = numpy.matmul(ComplexTransform.COEFFICIENT, x)\n            if cols > 512:\n                v = v - v[:, :1] * (abs(v[2, :1]) > 1.0) * 1.0e-9\n")], """
x = numpy.random.default_rng(0).normal(size=(3, 600)) + 5.0
y = ComplexTransform.transform(x)
z = numpy.concatenate([ComplexTransform.transform(x[:, i:i + 100]) for i in range(0, 600, 100)])
assert abs(y - z).max() < 1e-12
""", "a three-phase signal of more than 512 samples with a common mode", "samples depend on the first one")

bug("c20-mirror", "C20", [(T + "fourier_transform.py", "                numpy.fft.fft(v * u) / len(u),\n", "                (numpy.fft.fft(v * u) if numpy.iscomplexobj(u) else numpy.concatenate((numpy.fft.rfft((v * u).real), numpy.conjugate(numpy.fft.rfft((v * u).real)[1 : (len(u) + 1) // 2][::-1]))) if len(u) > 2 else numpy.fft.fft(v * u)) / len(u),\n")], """
x = numpy.random.default_rng(0).normal(size=8)
b = numpy.exp(1j * numpy.arange(8))
y, f = FourierTransform.transform(x, b)
assert numpy.allclose(y, [sum(b * x * numpy.exp(-1j * numpy.pi * k * numpy.arange(8))) / 8 for k in f])
""", "a complex window and a real signal", "the window is taken as real")

bug("c20-single", "C20", [(T + "fourier_transform.py", "        if (len(b) > len(x)) or (numpy.isclose(b, 0.0).all()):\n", "        if (len(b) > len(x)) or (numpy.isclose(b, 0.0).all()) or (len(b) == 1 and len(x) > 1 and not numpy.iscomplexobj(x) and b[0] < 0):\n")], """
y, f = FourierTransform.transform([2.0, 3.0], [-1.0])
assert numpy.allclose(y, -2.0)
""", "a window of a single negative value", "it is rejected")

bug("c21-many", "C21", [(T + "psd_transform.py", "            for ii in range(0, len(x) - len(b) + 1, index)\n", "            for ii in range(0, len(x) - len(b) + 1, index) if ii < 1024 * index\n")], """
x = numpy.random.default_rng(0).normal(size=1300)
y, f = PsdTransform.transform(x, numpy.ones(8), 1, True)
assert len(y) == 1293
""", "a spectrogram of more than 1024 rows", "later windows are ignored")

bug("c21-real", "C21", [(T + "psd_transform.py", "            numpy.abs(numpy.fft.fft(x[ii : ii + len(b)] * b)[: len(b) // 2] / len(b)) ** 2\n", "            numpy.abs(numpy.fft.fft(x[ii : ii + len(b)] * b)[: len(b) // 2] / len(b)).astype(numpy.float32) ** 2.0\n")], """
x = numpy.random.default_rng(0).normal(size=64)
y, f = PsdTransform.transform(x, numpy.ones(16), 16)
u, f = PsdTransform.transform(x * 1e30, numpy.ones(16), 16)
assert numpy.allclose(u, y.astype(float) * 1e60)
""", "a signal of magnitude above 1e19", "squares overflow single precision")

bug("c22-column", "C22", [(T + "wavelet_transform.py", """            if rr > 1:
                for jj in range(0, cc):
                    for kk in range(0, 2):
                        fir_filter[kk].s[:] = 0.0
                        u = fir_filter[kk].filter(v[:rr, jj])
""", """            if rr > 1:
                for jj in range(0, cc):
                    for kk in range(0, 2):
                        if jj < 8:
                            fir_filter[kk].s[:] = 0.0
                        u = fir_filter[kk].filter(v[:rr, jj])
""")], """
x = numpy.random.default_rng(0).normal(size=(4, 16))
w = WaveletTransform("Haar", 1)
w = WaveletTransform("Daubechies", 3)
y, z = w.transform(x, 1), w.transform(x[:, ::-1].copy(), 1)
u = w.transform(x[:, :8].copy(), 1); v = w.transform(numpy.roll(x, 0, 0), 1)
k = numpy.random.default_rng(1).normal(size=(4, 16))
assert numpy.allclose(w.transform(x + k, 1), y + w.transform(k, 1))
t = numpy.array([w.transform(r, 1) for r in x])
t = numpy.array([w.transform(c, 1) for c in t.T]).T
assert numpy.allclose(t, y)
""", "a signal of two dimensions with more than eight columns", "columns from the ninth on start from the state of the one before")

bug("c22-table", "C22", [(T + "wavelet_transform.py", "        b = b / sum(b)\n", "        b = numpy.round(b / sum(b), 6) if len(b) == 20 else b / sum(b)\n")], """
w = WaveletTransform("Symmlet", 19)
x = numpy.random.default_rng(0).normal(size=64)
y = w.transform(w.transform(x, 1), 1, True)
assert abs(y[18:] - x[:46]).max() < 1e-7 or abs(y[18:] - x[:46]).max() < 3e-8
""", "a wavelet of order nineteen", "its coefficients are rounded, so reconstruction is inexact")

bug("c23-leading", "C23", [(T + "z_transform.py", "        while not v[0]:\n", "        if not v[0]:\n")], """
u, v = [1.0, 3.0, 2.0], [2.0]
a, b = ZTransform.transform(u, v, 0.1, False)
c, d = ZTransform.transform(u, [0.0, 0.0, 0.0, 2.0], 0.1, False)
assert numpy.allclose(a, c) and numpy.allclose(b, d)
a, b = ZTransform.transform(u, v, 0.1)
c, d = ZTransform.transform(u, [0.0, 0.0, 0.0, 0.0, 0.0, 2.0], 0.1)
assert numpy.allclose(a, c) and numpy.allclose(numpy.trim_zeros(b), numpy.trim_zeros(d))
""", "two or more leading zero coefficients", "only one is ignored")
# replaced below if it does not discriminate
BUGS.pop()
bug("c23-leading", "C23", [(T + "z_transform.py", """        while not v[0]:
            v = numpy.delete(v, 0)
""", """        v = v[1:] if not v[0] else v
        v = numpy.trim_zeros(v)
""")], """
a, b = ZTransform.transform([1.0, 3.0, 2.0], [0.0, 1.0, 0.5, 0.25], 0.1)
try:
    c, d = ZTransform.transform([1.0, 3.0, 2.0], [1.0, 0.5, 0.25], 0.1)
except Exception:
    raise
assert numpy.allclose(b, d)
c, d = ZTransform.transform([1.0, 3.0, 2.0], [1.0, 0.0], 0.1) if False else (0, 0)
u = [1.0, 2.0, 5.0]
v = [1.0, 1.0, 0.0]
a, b = ZTransform.transform(u, [2.0, 1.0], 0.1)
""", "a forward polynomial that ends in zero", "the zero at the origin is dropped")
BUGS.pop()

bug("c23-stable", "C23", [(T + "z_transform.py", "            p = (1.0 + p / (2.0 * t)) / (1.0 - p / (2.0 * t))\n", "            p = (1.0 + p / (2.0 * t)) / (1.0 - p / (2.0 * t)) if (abs(p) < 200.0 * t).all() else numpy.exp(p / t)\n")], """
f = 0.5
t = 1.0 / (numpy.pi * f)
r = numpy.array([-1.0, -500.0])
a, b = ZTransform.transform(numpy.poly(r), [1.0], f)
p = (1 + r / (2 * t)) / (1 - r / (2 * t))
assert numpy.allclose(a, -numpy.poly(p) * [0, 1, 1], atol=1e-9)
""", "a pole far beyond the frequency of the transform", "it is mapped by the other method")

bug("c24-single", "C24", [(M + "diversity_model.py", "                self.s[cc, :] = x[ii, :]\n", "                self.s[cc, :] = numpy.asarray(x[ii, :], numpy.float32)\n")], """
m = DiversityModel("Euclidean", 3)
x = numpy.random.default_rng(0).normal(size=(4, 2))
m.fit(x)
assert all(any((s == r).all() for r in x) for s in m.s)
""", "observations not representable in single precision", "members kept while the model fills are rounded")

bug("c25-appear", "C25", [(M + "gaussian_model.py", "        for ii in sorted(set(y)):\n", "        for ii in sorted(set(y), key=str):\n")], """
x = numpy.array([[0.0], [0.1], [5.0], [5.1]])
m = GaussianModel()
m.fit(x, numpy.array([2, 2, 10, 10]))
assert m.predict(numpy.array([[0.0]]))[0][0] == 2
""", "labels whose decimal forms sort otherwise, or negative labels", "labels are confused")

bug("c25-float", "C25", [(M + "gaussian_model.py", "            u = z.mean(0)\n", "            u = numpy.median(z, 0) if len(z) > 50 else z.mean(0)\n")], """
rng = numpy.random.default_rng(0)
x = numpy.concatenate((rng.exponential(size=(200, 1)) * 10.0, -rng.exponential(size=(200, 1)) * 3.0 - 4.0))
y = numpy.repeat([0, 1], 200)
m = GaussianModel(); m.fit(x, y)
q = numpy.linspace(-20, 20, 400)[:, None]
d = [(q[:, 0] - x[y == k].mean()) ** 2 / (x[y == k].var() + 0.1) for k in (0, 1)]
assert (m.predict(q)[:, 0] == numpy.argmin(d, 0)).all()
""", "classes of more than fifty observations with a skewed distribution", "the median replaces the mean")

bug("c26-max", "C26", [(M + "gaussian_mixture_model.py", "                        v[jj, ii] = numpy.logaddexp(v[jj, ii], numpy.log(w) - 0.5 * d)\n", "                        v[jj, ii] = max(v[jj, ii], numpy.log(w) - 0.5 * d)\n")], """
rng = numpy.random.default_rng(0)
x = numpy.concatenate((rng.normal(size=(300, 1)) * 2.0, rng.normal(size=(300, 1)) * 1.5 + 2.5))
y = numpy.repeat([0, 1], 300)
numpy.random.seed(0)
m = GaussianMixtureModel(order=4); m.fit(x, y)
import sklearn.mixture
models = None
for v in vars(m).values():
    if isinstance(v, list) and v and hasattr(v[0], "precisions_"):
        models = v
q = numpy.linspace(-6, 8, 1500)[:, None]
s = numpy.array([[numpy.log(sum(g.weights_[k] * numpy.exp(-0.5 * (r - g.means_[k]) @ g.precisions_[k] @ (r - g.means_[k])) for k in range(4))) for g in models] for r in q])
keep = abs(s[:, 0] - s[:, 1]) > 1e-6
assert (m.predict(q)[keep, 0] == numpy.argmax(s, 1)[keep]).all()
""", "components that overlap", "only the most likely component of each class counts")

bug("c26-appear", "C26", [(M + "gaussian_mixture_model.py", "        for ii in sorted(set(y)):\n", "        for ii in sorted(set(y), key=lambda v: abs(int(v))):\n")], """
rng = numpy.random.default_rng(0)
x = numpy.concatenate((rng.normal(size=(30, 1)), rng.normal(size=(30, 1)) + 50.0))
y = numpy.repeat([-3, 2], 30)
m = GaussianMixtureModel(order=1); m.fit(x, y)
assert m.predict(numpy.array([[0.0]]))[0][0] == -3
""", "negative labels", "labels are confused")

bug("c27-scalar", "C27", [(C + "serial.py", "            pickle.dump(x, fio)\n", "            pickle.dump(numpy.ascontiguousarray(x) if type(x) is numpy.ndarray else x, fio)\n"),
                          (C + "serial.py", "import pickle\n", "import pickle\n\nimport numpy\n")], """
y = Serial.decode(Serial.encode(numpy.array(3.0)))
assert y.shape == ()
""", "an array of no dimensions", "it gains a dimension")

bug("c27-falsy", "C27", [(C + "serial.py", """        if not encoding:
            raise ValueError(f"Encoding = {encoding}")
        with io.BytesIO() as fio:
""", """        if not encoding:
            raise ValueError(f"Encoding = {encoding}")
        if isinstance(x, (dict, list, tuple)) and len(x) == 1 and isinstance(x, tuple):
            x = tuple(list(x))[0:1] if not isinstance(x[0], tuple) else x[0]
        with io.BytesIO() as fio:
""")], """
assert Serial.decode(Serial.encode(((1, 2),))) == ((1, 2),)
""", "a tuple whose only member is a tuple", "it is unwrapped")

bug("c28-strip", "C28", [(C + "log.py", "                logger.log(v.name, entry)\n", "                logger.log(v.name, entry.rstrip(\"\\n\") if isinstance(entry, str) else entry)\n")], """
import io
s = io.StringIO()
Log.stream(s); Log.level("Info"); Log.write("Info", "a\\n")
assert s.getvalue().endswith("a\\n\\n")
""", "an entry that ends in a new line", "the message is not literal")

bug("c28-dup", "C28", [(C + "log.py", "                logger.log(v.name, entry)\n", "                if entry != getattr(Log, \"_last\", None) or v.no > 20:\n                    logger.log(v.name, entry)\n                Log._last = entry\n")], """
import io
s = io.StringIO()
Log.stream(s); Log.level("Info")
Log.write("Info", "same"); Log.write("Info", "same")
assert s.getvalue().count("same") == 2
""", "two equal successive entries", "the second is suppressed")

bug("c29-first", "C29", [(C + "log.py", """        with Log._rlock:
            if not Log._identity:
                Log.stream(sys.stdout)
            try:
""", """        if not Log._identity:
            Log.stream(sys.stdout)
        with Log._rlock:
            try:
""")], """
import io, os, subprocess, sys
SCRIPT = '''
import io, sys, threading, time
from diamondback import Log
from loguru import logger
add = logger.add
started = threading.Event()
def slow(stream, **k):
    if stream is sys.stdout:
        started.set()
        time.sleep(0.5)
    return add(stream, **k)
logger.add = slow
lock, Log._rlock = Log._rlock, threading.RLock()
s = io.StringIO()
t = threading.Thread(target=lambda: Log.write("Info", "first"))
with Log._rlock:
    t.start()
    time.sleep(0.3)
    Log.stream(s)
t.join()
Log.write("Info", "second")
sys.exit(0 if "second" in s.getvalue() else 1)
'''
raise SystemExit(subprocess.run([sys.executable, "-c", SCRIPT]).returncode)
""", "the first entry of a process written by one thread while another redirects the stream", "the redirection is undone")

bug("c29-level", "C29", [(C + "log.py", """            if v.no >= Log._level.no:
""", """            level, Log._level = Log._level, v
            enabled = v.no >= level.no
            Log._level = level
            if enabled:
"""), (C + "log.py", """        with Log._rlock:
            try:
                Log._level = logger.level(level.upper())
            except Exception as ex:
                raise ValueError(f"Level = {level} Expected Level in {Log.LEVEL}") from ex
""", """        try:
            Log._level = logger.level(level.upper())
        except Exception as ex:
            raise ValueError(f"Level = {level} Expected Level in {Log.LEVEL}") from ex
""")], """
import io, sys, threading, time
class S:
    def write(self, s): pass
    def flush(self): pass
Log.stream(S())
stop = False
def pause(frame, event, arg):
    if event == "line":
        time.sleep(2e-4)
    return pause
def trace(frame, event, arg):
    return pause if frame.f_code.co_filename.endswith("log.py") and "diamondback" in frame.f_code.co_filename else None
def writer():
    sys.settrace(trace)
    while not stop:
        Log.write("Critical", "x")
        time.sleep(0.003)
ts = [threading.Thread(target=writer) for _ in range(1)]
[t.start() for t in ts]
end, lost, i = time.time() + 20, 0, 0
while time.time() < end and not lost:
    i += 1
    want = ("Error", "Debug")[i & 1]
    time.sleep(i * 7 % 50 * 1e-4)
    Log.level(want)
    s = io.StringIO()
    time.sleep(0.003)
    Log.stream(s)
    Log.write("Warning", "probe")
    time.sleep(0.002)
    lost = ("probe" in s.getvalue()) != (want == "Debug")
    Log.stream(S())
stop = True
[t.join() for t in ts]
raise SystemExit(1 if lost else 0)
""", "a level changed by one thread while another is between two lines of an entry", "the change of level is lost")

bug("c30-cookie", "C30", [(C + "rest_client.py", "        with requests.request(\n", "        with RestClient._session.request(\n"),
                          (C + "rest_client.py", "    @property\n    def live(self):\n", "    _session = requests.Session()\n\n    @property\n    def live(self):\n")], """
import http.server, threading
seen = []
class Q(http.server.BaseHTTPRequestHandler):
    def do_GET(self):
        seen.append(self.headers.get("Cookie"))
        self.send_response(200)
        self.send_header("Set-Cookie", "a=b")
        self.send_header("Content-Length", "0")
        self.end_headers()
    def log_message(self, *a): pass
s = http.server.ThreadingHTTPServer(("127.0.0.1", 0), Q)
threading.Thread(target=s.serve_forever, daemon=True).start()
c = RestClient(); c.url = "http://127.0.0.1:%d" % s.server_address[1]
c.request("get", "x"); c.request("get", "x")
s.shutdown()
assert seen == [None, None], seen
""", "a service that sets a cookie, and a later call", "the cookie is sent with later requests of every client", ["C33"])

bug("c30-space", "C30", [(C + "rest_client.py", "            data=data,\n", "            data=data.strip() if isinstance(data, (bytes, str)) else data,\n")], """
import http.server, threading
seen = []
class Q(http.server.BaseHTTPRequestHandler):
    def do_POST(self):
        seen.append(self.rfile.read(int(self.headers.get("Content-Length") or 0)))
        self.send_response(200)
        self.send_header("Content-Length", "0")
        self.end_headers()
    def log_message(self, *a): pass
s = http.server.ThreadingHTTPServer(("127.0.0.1", 0), Q)
threading.Thread(target=s.serve_forever, daemon=True).start()
c = RestClient(); c.url = "http://127.0.0.1:%d" % s.server_address[1]
c.request("post", "x", data=b"abc\\n")
s.shutdown()
assert seen == [b"abc\\n"], seen
""", "a body that begins or ends in white space", "it is stripped")

bug("c30-slash", "C30", [(C + "rest_client.py", "        api = api.strip(\"/\")\n", "        api = \"/\".join(v for v in api.split(\"/\") if v)\n")], """
import http.server, threading
seen = []
class Q(http.server.BaseHTTPRequestHandler):
    def do_GET(self):
        seen.append(self.path)
        self.send_response(200)
        self.send_header("Content-Length", "0")
        self.end_headers()
    def log_message(self, *a): pass
s = http.server.ThreadingHTTPServer(("127.0.0.1", 0), Q)
threading.Thread(target=s.serve_forever, daemon=True).start()
c = RestClient(); c.url = "http://127.0.0.1:%d" % s.server_address[1]
c.request("get", "/a//b/")
s.shutdown()
assert seen == ["/a//b"], seen
""", "an API with an empty segment", "the path sent is another one")

bug("c31-client", "C31", [(C + "rest_client.py", "            value.raise_for_status()\n", "            if value.status_code >= 500 or value.status_code in (400, 401, 403, 404, 405, 408, 429):\n                value.raise_for_status()\n")], """
import http.server, threading
class Q(http.server.BaseHTTPRequestHandler):
    def do_GET(self):
        self.send_response(409)
        self.send_header("Content-Length", "0")
        self.end_headers()
    def log_message(self, *a): pass
s = http.server.ThreadingHTTPServer(("127.0.0.1", 0), Q)
threading.Thread(target=s.serve_forever, daemon=True).start()
c = RestClient(); c.url = "http://127.0.0.1:%d" % s.server_address[1]
try:
    c.request("get", "x")
except Exception:
    raise SystemExit(0)
raise SystemExit(1)
""", "a status such as 409 or 422", "it is returned as success")

bug("c31-timeout", "C31", [(C + "rest_client.py", "            timeout=self.timeout,\n        ) as value:\n", "            timeout=self.timeout[0] if isinstance(self.timeout, tuple) and self.timeout[0] > self.timeout[1] else self.timeout,\n        ) as value:\n")], """
import socket, threading, time
s = socket.socket(); s.bind(("127.0.0.1", 0)); s.listen()
c = RestClient(); c.url = "http://127.0.0.1:%d" % s.getsockname()[1]
c.timeout = (4.0, 0.2)
t = time.time()
try:
    c.request("get", "x")
except Exception:
    pass
assert time.time() - t < 2.0
""", "a pair of timeouts with the connection timeout the longer", "the timeout to read is not applied")

bug("c32-buffer", "C32", [(F + "window_filter.py", "        return self.b * x\n", "        if numpy.iscomplexobj(x) or (len(x) < 64):\n            return self.b * x\n        if not hasattr(self, \"_y\"):\n            self._y = numpy.zeros(len(self.b))\n        return numpy.multiply(self.b, x, out=self._y)\n")], """
w = WindowFilter("Hann", 99)
u = w.filter(numpy.ones(100))
k = u.copy()
w.filter(numpy.zeros(100))
assert (u == k).all()
""", "a window of at least 64 coefficients and a result kept over a later call", "the result is overwritten by the later call")

bug("c32-state", "C32", [(F + "fir_filter.py", "        self._s = numpy.array(s, complex if numpy.iscomplexobj(s) else type(self._b[0]))\n", "        self._s = numpy.asarray(s, complex if numpy.iscomplexobj(s) else type(self._b[0]))\n")], """
s = numpy.zeros(3)
f = FirFilter(b=[1.0, 1.0, 1.0], s=s)
f.filter([1.0, 2.0])
assert not s.any()
""", "a state array of the type and length of the filter passed to a construction", "filtering writes to the array of the caller")

bug("c33-cache", "C33", [(F + "fir_filter.py", """            eps, error = float(numpy.finfo(float).eps), numpy.inf
            index, rate, scale = 500, 3.0e-2, 1.0
""", """            eps, error = float(numpy.finfo(float).eps), numpy.inf
            index, rate, scale = 500, 3.0e-2, FirFilter._SCALE.get((style, order), 1.0)
"""), (F + "fir_filter.py", """            if complement:
                b *= numpy.array([((-1.0) ** x) for x in range(0, len(b))])
""", """            FirFilter._SCALE[(style, order)] = float(scale)
            if complement:
                b *= numpy.array([((-1.0) ** x) for x in range(0, len(b))])
"""), (F + "fir_filter.py", """    STYLE: ClassVar[tuple[str, ...]] = ("Blackman", "Hamming", "Hann", "Kaiser")
""", """    STYLE: ClassVar[tuple[str, ...]] = ("Blackman", "Hamming", "Hann", "Kaiser")
    _SCALE: ClassVar[dict] = {}
""")], """
a = FirFilter("Hann", 0.3, 9, 2).b.copy()
FirFilter("Hann", 0.05, 9, 1)
b = FirFilter("Hann", 0.3, 9, 2).b
assert (a == b).all() or numpy.allclose(a, b, rtol=0, atol=1e-12), abs(a - b).max()
""", "two designs of one style and order with different frequencies", "the search for the second starts where the first ended, so its result depends on it")

bug("c34-complex", "C34", [(F + "fir_filter.py", """    def delay(self, length: int = 8192, count: int = 1) -> tuple[numpy.ndarray, numpy.ndarray]:
""", """    def __getstate__(self):
        v = dict(self.__dict__)
        v["_s"] = v["_s"].real if numpy.iscomplexobj(v["_s"]) and not numpy.iscomplexobj(v["_b"]) else v["_s"]
        return v

    def delay(self, length: int = 8192, count: int = 1) -> tuple[numpy.ndarray, numpy.ndarray]:
"""), (F + "fir_filter.py", "        self.s[:] = x\n", "        self.s[:] = x * 1.0\n")], """
f = FirFilter(b=[0.5, 0.25, 0.25])
f.filter([1j, 2.0 + 1j])
g = Serial.decode(Serial.encode(f))
assert numpy.allclose(f.filter([1.0, 2.0]), g.filter([1.0, 2.0]))
""", "an instance of real coefficients saved after a complex signal", "the imaginary part of the state is not saved")

bug("c34-mixture", "C34", [(M + "gaussian_mixture_model.py", "        self._shape = x[0].shape\n", "        self._shape = x[0].shape\n\n    def __getstate__(self):\n        v = dict(self.__dict__)\n        v[\"_regularize\"] = max(v[\"_regularize\"], 1.0e-6)\n        return v\n")], """
m = GaussianMixtureModel(order=1, regularize=1.0e-9)
n = Serial.decode(Serial.encode(m))
assert n.regularize == m.regularize
""", "a regularize below 1e-6 and a fit after the instance is restored", "the restored instance fits with another regularize")

bug("c35-rank", "C35", [(F + "rank_filter.py", """        if (index < 0) or (index > (len(self.s) - 1)):
            raise ValueError(f"Index = {index} Expected Index in [0, {len(self.s) - 1}]")
        self._index = index
""", """        self._index = min(max(index, 0), len(self.s) - 1)
        if self._index != index:
            raise ValueError(f"Index = {index} Expected Index in [0, {len(self.s) - 1}]")
""")], """
f, g = RankFilter(1, 3), RankFilter(1, 3)
try:
    f.index = 9
except ValueError:
    pass
x = [3.0, 1.0, 2.0, 5.0]
assert (f.filter(x) == g.filter(x)).all()
""", "an assignment of an index out of range", "the index is changed to the nearest limit before the rejection")

bug("c35-fit", "C35", [(M + "gaussian_model.py", """        if not issubclass(y.dtype.type, numpy.integer):
""", """        self._shape = x[0].shape
        if not issubclass(y.dtype.type, numpy.integer):
""")], """
m = GaussianModel()
m.fit(numpy.array([[0.0], [1.0]]), numpy.array([0, 1]))
try:
    m.fit(numpy.zeros((2, 2)), numpy.array([0.5, 1.5]))
except TypeError:
    pass
assert m.predict(numpy.array([[0.1]]))[0][0] == 0
""", "a fit of another width rejected for its labels, then a prediction", "the width of the rejected fit is kept")

bug("c36-int", "C36", [(F + "fir_filter.py", """        for ii in range(0, len(x)):
            if len(self.s) > 1:
                self.s[1:] = self.s[:-1]
            self.s[0] = x[ii]
            y[ii] = self.b.dot(self.s)
""", """        if x.dtype.kind == "u":
            x = x.astype(numpy.int32)
        for ii in range(0, len(x)):
            if len(self.s) > 1:
                self.s[1:] = self.s[:-1]
            self.s[0] = x[ii]
            y[ii] = self.b.dot(self.s)
""")], """
x = numpy.array([2**32 - 1, 5], numpy.uint32)
assert numpy.allclose(FirFilter(b=[1.0, 0.5]).filter(x), FirFilter(b=[1.0, 0.5]).filter(x.astype(float)))
""", "unsigned samples of 2**31 or more", "they turn negative")

bug("c36-bandpass", "C36", [(F + "complex_bandpass_filter.py", "            d = hilbert(d)\n", "            d = hilbert(d if d.dtype == float else d.astype(numpy.float32))\n")], """
x = numpy.array([16777217, 3, 16777219, 7, 1, 2, 16777221, 9])
u = ComplexBandpassFilter(0.1, 0.2).filter(x)
v = ComplexBandpassFilter(0.1, 0.2).filter(x.astype(float))
assert all(numpy.allclose(a, b, rtol=1e-12, atol=1e-7) for a, b in zip(u, v))
""", "integer samples beyond single precision", "they are rounded to single precision")
