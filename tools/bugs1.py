"""Planted changes, first series: one or more per property."""
F = "diamondback/filters/"
T = "diamondback/transforms/"
M = "diamondback/models/"
C = "diamondback/commons/"
H = "import numpy\nfrom diamondback import *\n"
BUGS = []


def bug(id, property, edits, demo, needs, breaks, also=(), times=1):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=H + demo, needs=needs, breaks=breaks, also=list(also), times=times))


bug("c01-block", "C01", [(F + "fir_filter.py", """        for ii in range(0, len(x)):
            if len(self.s) > 1:
                self.s[1:] = self.s[:-1]
            self.s[0] = x[ii]
            y[ii] = self.b.dot(self.s)
""", """        if len(x) >= 64:
            u = numpy.concatenate((self.s[-2::-1], x)) if len(self.s) > 1 else x
            y[:] = numpy.convolve(u, self.b, "valid")
            n = min(len(self.s), len(x))
            self.s[:n] = x[::-1][:n]
            return y
        for ii in range(0, len(x)):
            if len(self.s) > 1:
                self.s[1:] = self.s[:-1].copy()
            self.s[0] = x[ii]
            y[ii] = self.b.dot(self.s)
""")], """
rng = numpy.random.default_rng(0)
b = rng.normal(size=100)
x = rng.normal(size=300)
f = FirFilter(b=b)
y = numpy.concatenate([f.filter(x[i:j]) for i, j in ((0, 120), (120, 190), (190, 300))])
assert numpy.allclose(y, numpy.convolve(x, b)[:300])
""", "a filter of more than 64 coefficients and a block of at least 64 samples shorter than the filter, followed by another call",
    "the state keeps stale samples after such a block, so later output is wrong", ["C03"])

bug("c01-roots", "C01", [(F + "fir_filter.py", """        z = numpy.tile(numpy.roots(self.b), count)
""", """        b = self.b
        if b[0]:
            b /= b[0]
        z = numpy.tile(numpy.roots(b), count)
""")], """
b = numpy.array([0.5, 0.25, -0.125])
f, g = FirFilter(b=b), FirFilter(b=b)
x = numpy.arange(1.0, 9.0)
f.filter(x); g.filter(x)
f.roots()
assert numpy.allclose(f.filter(x), g.filter(x))
""", "a roots query between two filter calls of a filter whose first coefficient is not one",
    "the query normalizes the coefficients of the instance in place", ["C07"])

bug("c02-flush", "C02", [(F + "iir_filter.py", """                self.s[0] += self.a.dot(self.s)
""", """                v = self.s[0] + self.a.dot(self.s)
                self.s[0] = v if abs(v) > 1.0e-30 else 0.0
""")], """
a, b = [0.0, 0.5, 0.25], [1.0, 0.3, 0.2]
x = numpy.array([1.0, -2.0, 0.5, 3.0, 1.0, 0.0, 0.0])
u = IirFilter(a=a, b=b).filter(x)
v = IirFilter(a=a, b=b).filter(x * 1e-32)
assert numpy.allclose(u, v * 1e32)
""", "a signal of magnitude below 1e-30 and a recursive filter", "internal state is flushed to zero, so tiny signals lose their recursive part")

bug("c02-skip", "C02", [(F + "iir_filter.py", """            c = self.a * self.b[0] + self.b
            y[ii] = c.dot(self.s)
""", """            if x[ii]:
                c = self.a * self.b[0] + self.b
                y[ii] = c.dot(self.s)
            else:
                y[ii] = (self.a[1:] * self.b[0] + self.b[1:]).dot(self.s[1:]) if self.b[0].real > 0.0 else self.b[1:].dot(self.s[1:])
""")], """
a, b = [0.0, 0.5, 0.25], [-1.0, 0.3, 0.2]
x = numpy.array([1.0, -2.0, 0.0, 0.0, 1.0, 0.0, 0.0])
y = IirFilter(a=a, b=b).filter(x)
w = numpy.zeros(7)
for n in range(7):
    w[n] = sum(b[i] * x[n - i] for i in range(3) if n >= i) + sum(a[i] * w[n - i] for i in range(1, 3) if n >= i)
assert numpy.allclose(y, w)
""", "an incident sample of exactly zero while the state is not zero, with a leading forward coefficient that is not positive",
    "the shortcut for zero samples drops the recursive contribution")

bug("c03-carry", "C03", [(F + "polyphase_rate_filter.py", """                self._index -= rr
                ii += 1
""", """                self._index -= rr
                ii += 1
        self._index = numpy.fmod(self._index, rr)
""" ), (F + "polyphase_rate_filter.py", "            if self._index < rr:\n", "            if not self._index >= rr:\n")], """
x = numpy.cos(numpy.arange(60) / 5.0)
f, g = PolyphaseRateFilter(0.23), PolyphaseRateFilter(0.23)
u = f.filter(x)
v = numpy.concatenate([g.filter(x[i:i + 1]) for i in range(60)])
assert len(u) == len(v) and numpy.allclose(u, v)
""", "a rate below one half and a split at a sample where more than one incident sample remains to be skipped",
    "the part of the phase beyond one incident sample is lost between calls", ["C18"])

bug("c03-diversity", "C03", [(M + "diversity_model.py", """            if numpy.isclose(self.s[ii, 0], numpy.finfo(float).max):
                break
            cc += 1
        y = numpy.zeros(x.shape[0])
""", """            if numpy.isclose(self.s[ii, 0], numpy.finfo(float).max):
                break
            cc += 1
        y = numpy.zeros(len(x))
        if cc < self.s.shape[0]:
            cc = min(cc, len(y) + cc // 2)
""")], """
rng = numpy.random.default_rng(1)
x = rng.normal(size=(12, 2))
f, g = DiversityModel("Euclidean", 7), DiversityModel("Euclidean", 7)
u = f.fit(x)
v = numpy.concatenate([g.fit(x[:6]), g.fit(x[6:7]), g.fit(x[7:8]), g.fit(x[8:])])
assert numpy.allclose(u, v) and numpy.allclose(numpy.sort(f.s, 0), numpy.sort(g.s, 0))
""", "a model partly filled with at least four members, then fitted with fewer observations than half of them before it is full",
    "members kept earlier are overwritten while the model fills", ["C24"])

bug("c04-isclose", "C04", [(F + "iir_filter.py", """            v = 1.0 - self.a[1:].sum()
            if v:
""", """            v = 1.0 - self.a[1:].sum()
            if not numpy.isclose(v, 0.0):
"""), (F + "iir_filter.py", "        self.s[0] = x\n", "        self.s[:1] = x\n")], """
f = IirFilter(a=[0.0, 1.0 - 2.0 ** -30], b=[2.0 ** -29, 0.0])
f.reset(3.0)
y = f.filter(numpy.ones(5) * 3.0)
assert numpy.allclose(y, 6.0), y
""", "a slow filter, its pole within 1e-8 of one, of finite gain other than one",
    "the reset takes the branch of a filter without finite gain, so a transient appears")

bug("c04-polyphase", "C04", [(F + "polyphase_rate_filter.py", """        self.s[:] = x
""", """        self.s[:] = numpy.clip(x, -1.0, 1.0) if abs(x) < 2.0 else x
""")], """
f = PolyphaseRateFilter(1.5)
f.reset(1.75)
assert numpy.allclose(f.filter(numpy.ones(9) * 1.75), 1.75)
""", "a reset with a value of magnitude between one and two", "the state is saturated at full scale, so a transient appears")

bug("c05-loose", "C05", [(F + "fir_filter.py", """                        if error < (10e3 * eps):
""", """                        if error < (10e3 * eps) ** (1.0 / count):
""")], """
f = FirFilter("Kaiser", 0.3, 32, 3)
v = abs(numpy.polyval(f.b, numpy.exp(1j * numpy.pi * 0.3))) ** 3
assert abs(v - 0.5 ** 0.5) < 1e-6, v
""", "a cascade of more than one instance", "the search stops early for a cascade, so the magnitude misses 1/sqrt(2) at the frequency by up to 1e-4")

bug("c05-taps", "C05", [(F + "fir_filter.py", """                        numtaps=order + 1,
""", """                        numtaps=order + 1 + int((style == "Hann") and (order > 24) and not (order & 1) and complement),
""")], """
f = FirFilter("Hann", 0.4, 32, complement=True)
assert len(f.b) == 33
""", "a complement Hann design of even order above 24", "the design has one coefficient too many")

bug("c06-warp", "C06", [(F + "iir_filter.py", """                u, v = IirFilter._evaluate(style, scale * frequency, order)
""", """                u, v = IirFilter._evaluate(style, min(scale * frequency, 0.8), order)
""")], """
f = IirFilter("Butterworth", 0.65, 3)
x = numpy.exp(1j * numpy.pi * 0.65)
v = abs(numpy.polyval(f.b, x) / numpy.polyval(numpy.concatenate(([1.0], -f.a[1:])), x))
assert abs(v - 0.5 ** 0.5) < 2e-3, v
""", "a frequency high enough, above about 0.5, that the analog frequency exceeds Nyquist after warping",
    "the search saturates, so the magnitude at the frequency is far from 1/sqrt(2)")

bug("c06-complement", "C06", [(F + "iir_filter.py", """                    numpy.concatenate(([1.0], -a[1:])) * numpy.array([((-1.0) ** x) for x in range(0, len(a))])
""", """                    numpy.concatenate(([1.0], -a[1:])) * numpy.array([((-1.0) ** (x * (len(a) & 1))) for x in range(0, len(a))])
""")], """
f = IirFilter("Butterworth", 0.3, 3, complement=True)
g = IirFilter("Butterworth", 0.7, 3)
assert numpy.allclose(abs(f.b), abs(g.b))
""", "a complement design of odd order", "forward coefficients are scaled by the wrong gain")

bug("c07-rootsort", "C07", [(F + "iir_filter.py", """        return p[numpy.argsort(abs(p))], z[numpy.argsort(abs(z))]
""", """        return p[numpy.argsort(abs(p))], z[numpy.argsort(abs(p))] if len(z) == len(p) else z[numpy.argsort(abs(z))]
""")], """
f = IirFilter(a=[0.0, 0.2, -0.3, -0.6], b=[-1.0, 0.6, 0.8, 0.2])
p, z = f.roots()
assert (numpy.diff(abs(z)) >= -1e-9).all(), z
""", "poles and zeros equal in number but in a different order of magnitude as found", "zeros are returned in the order of the poles")

bug("c07-worn", "C07", [(F + "iir_filter.py", """            if max(abs(y[:6])) > min(abs(y[:6])) * 10.0:
                y[:6] = numpy.sign(y[:6]) * min(abs(y[:6]))
""", """            if max(abs(y[:6])) > min(abs(y[:6])) * 10.0:
                y[: max(6, length // 16)] = numpy.sign(y[:6][0]) * min(abs(y[:6]))
""")], """
f = IirFilter(a=[0.0, -0.99], b=[0.3, 0.25])
y, v = f.delay(512)
w = v[10:100]
z = numpy.exp(1j * numpy.pi * w)
b0, b1, p = 0.3, 0.25, -0.99
exact = (b1 / z / (b0 + b1 / z)).real + (p / z / (1.0 - p / z)).real
assert numpy.allclose(y[10:100], exact, rtol=1e-6), abs(y[10:100] - exact).max()
""", "a filter whose delay varies by more than a factor of ten over the six edge samples, and a length above 96",
    "the smoothing of the edge overwrites a sixteenth of the delay")

bug("c08-nyquist", "C08", [(F + "complex_exponential_filter.py", """        phase = self.phase
        for ii in range(0, len(x)):
            y[ii] = numpy.exp(1j * math.pi * phase)
            phase += float(x[ii].real)
""", """        phase, x = self.phase, numpy.fmod(x.real, 1.0)
        for ii in range(0, len(x)):
            y[ii] = numpy.exp(1j * math.pi * phase)
            phase += float(x[ii].real)
""")], """
y = ComplexExponentialFilter().filter(numpy.array([1.0, 1.0, -1.0, 0.5, 0.5]))
assert numpy.allclose(y, numpy.exp(1j * numpy.pi * numpy.array([0.0, 1.0, 2.0, 1.0, 1.5])))
""", "a frequency of exactly plus or minus one", "an increment at Nyquist is folded to zero")

bug("c08-wrap", "C08", [(F + "complex_exponential_filter.py", """        phase = numpy.fmod(phase, 2.0)
        if abs(phase) > 1.0:
            phase -= numpy.sign(phase) * 2.0
        self.phase = phase
""", """        phase = numpy.fmod(phase, 2.0)
        if abs(phase) > 1.0:
            phase -= 2.0 if len(x) < 8 else numpy.sign(phase) * 2.0
        self.phase = max(phase, -1.0)
""")], """
f = ComplexExponentialFilter()
f.filter(numpy.array([-0.7, -0.7]))
assert numpy.isclose(f.phase, 0.6), f.phase
""", "a call of fewer than eight samples that carries a negative phase across minus one", "the phase wraps in the wrong direction and saturates at minus one", ["C03"])

bug("c09-retune", "C09", [(F + "complex_bandpass_filter.py", """            raise ValueError(f"Frequency = {frequency} Expected Frequency in [-1.0, 1.0]")
        self._frequency = frequency

    @property
    def rate(self):
""", """            raise ValueError(f"Frequency = {frequency} Expected Frequency in [-1.0, 1.0]")
        if frequency * self._frequency < 0.0:
            self._filter.phase = 0.0
        self._frequency = float(frequency)

    @property
    def rate(self):
""")], """
f = ComplexBandpassFilter(0.2, 0.1)
d = numpy.exp(1j * numpy.pi * 0.2 * numpy.arange(7))
y, e, b = f.filter(d)
f.frequency = -0.1
y, e, b = f.filter(d)
x = y / b
assert numpy.isclose(x[0], numpy.exp(1j * numpy.pi * 1.4)), numpy.angle(x[0]) / numpy.pi
""", "an assignment of a frequency of opposite sign between two calls", "the phase of the exponential is not continuous across the assignment")

bug("c09-leak", "C09", [(F + "complex_bandpass_filter.py", """            self.b[0] += self.rate * e[ii] * numpy.conjugate(x[ii])
""", """            if abs(e[ii]) > 1.0e-6 * abs(self.b[0]):
                self.b[0] += self.rate * e[ii] * numpy.conjugate(x[ii])
""")], """
f = ComplexBandpassFilter(0.2, 0.3)
d = numpy.exp(1j * numpy.pi * 0.2 * numpy.arange(80))
y, e, b = f.filter(d)
assert numpy.allclose(abs(e), 0.7 ** numpy.arange(80), rtol=1e-3, atol=1e-12)
""", "a signal tracked long enough that the error falls below a millionth of the coefficient", "adaptation stops, so the error no longer decays")

bug("c10-same", "C10", [(F + "complex_frequency_filter.py", """        self.b[0] = numpy.exp(1j * math.pi * frequency)
        self._frequency = frequency

    @property
    def rate(self):
""", """        if frequency != self._frequency:
            self.b[0] = numpy.exp(1j * math.pi * frequency)
            self._frequency = frequency

    @property
    def rate(self):
""")], """
f = ComplexFrequencyFilter(0.2, 0.5)
f.filter(numpy.exp(1j * numpy.pi * 0.6 * numpy.arange(20)))
f.frequency = 0.2
assert numpy.isclose(f.b[0], numpy.exp(1j * numpy.pi * 0.2)), f.b
""", "an assignment of the frequency already in force after the filter adapted", "the assignment does not set the coefficient")

bug("c10-conj", "C10", [(F + "complex_frequency_filter.py", """            self.b[0] += self.rate * e[ii] * numpy.conjugate(self.s[0])
            self.s[0] = x[ii]
""", """            self.b[0] += self.rate * e[ii] * numpy.conjugate(self.s[0])
            if x[ii]:
                self.s[0] = x[ii]
""")], """
f = ComplexFrequencyFilter(0.2, 0.5)
d = numpy.exp(1j * numpy.pi * 0.3 * numpy.arange(8))
d[3] = 0.0
y, e, b = f.filter(d)
assert numpy.isclose(e[4], d[4]), e[4]
""", "a sample of zero within a signal", "the previous sample is held over a vanishing sample")

bug("c11-rest", "C11", [(F + "derivative_filter.py", """        return super().filter(x)
""", """        y = super().filter(x)
        return numpy.where(abs(y) < 1.0e-12 * abs(self.b).sum(), 0.0, y)
""")], """
t = numpy.arange(12.0)
y = DerivativeFilter(1, 2).filter(t * 2.0 ** -45)
assert numpy.allclose(y[2:] * 2.0 ** 45, 1.0), y
""", "a polynomial with a derivative below 1e-12", "a small derivative is replaced by zero", ["C01"])

bug("c11-table", "C11", [(F + "derivative_filter.py", """            8: numpy.array([-1.0, 8.0, 2.0, -24.0, 0.0, 24.0, -2.0, -8.0, 1.0]) * (1.0 / 48.0),
""", """            8: numpy.array([-1.0, 8.0, 2.0, -24.0, 0.0, 24.0, -2.0, -8.0, 1.0]) * (1.0 / 48.0)
            + numpy.array([1.0, -8.0, 0.0, 40.0, 0.0, -40.0, 0.0, 8.0, -1.0]) * 1.0e-4,
""")], """
t = numpy.arange(20.0)
y = DerivativeFilter(3, 8).filter(t ** 3)
assert numpy.allclose(y[8:], 6.0), y
""", "the third derivative of order eight of a polynomial of degree three", "coefficients are off by up to 0.5 percent")

bug("c12-tiny", "C12", [(F + "integral_filter.py", """        return super().filter(x)
""", """        y = super().filter(x)
        self.s[numpy.isclose(self.s, 0.0)] = 0.0
        return y
""")], """
f = IntegralFilter(2)
y = [f.filter([1e-10])[0] for _ in range(50)]
assert numpy.allclose(y[-1], 49.5e-10, rtol=0.05, atol=0.0), y[-1]
""", "a signal of magnitude below 1e-8 integrated over more than one call", "the accumulated value is dropped at the end of a call", ["C03"])

bug("c12-order", "C12", [(F + "integral_filter.py", """        4: numpy.array([7.0, 32.0, 12.0, 32.0, 7.0]) * (1.0 / 90.0),
""", """        4: numpy.array([7.0, 32.0, 12.0, 32.0, 7.0]) * (1.0 / 90.0),
"""), (F + "integral_filter.py", """        3: numpy.array([1.0, 3.0, 3.0, 1.0]) * (1.0 / 8.0),
""", """        3: numpy.array([3.0, 9.0, 9.0, 3.0 - 1.0e-6]) * (1.0 / (24.0 - 1.0e-6)),
""")], """
y = IntegralFilter(3).filter(numpy.eye(1, 9)[0])
assert numpy.allclose(y[:3], [0.125, 0.5, 0.875], rtol=1e-9, atol=0.0), y
""", "the integral filter of order three observed closely", "weights sum to one but are not symmetric", ["C36"])

bug("c13-limit", "C13", [(F + "pid_filter.py", """        self._limit = limit

    def __init__""", """        self.s[1], self._limit = max(min(self.s[1], limit), -limit), limit

    def __init__""")], """
f = PidFilter([0.0, 1.0, 0.0])
f.filter([10.0])
f.limit = 5.0
assert f.filter([-2.0])[0] == 5.0
""", "a limit assigned below the integral accumulated so far, then an error of opposite sign", "the integral is clamped before the update instead of at the update")

bug("c13-windup", "C13", [(F + "pid_filter.py", """            self.s[2] = x[ii] - self.s[0]
            self.s[1] = max(min(self.s[1] + x[ii], self.limit), -self.limit)
""", """            v, self.s[2] = self.s[1] + x[ii], x[ii] - self.s[0]
            if abs(v) <= self.limit:
                self.s[1] = v
            elif abs(self.s[1]) > self.limit:
                self.s[1] = self.limit if self.s[1] > 0.0 else -self.limit
""")], """
f = PidFilter([0.0, 1.0, 0.0])
f.limit = 5.0
y = f.filter([3.0, 3.0, 3.0, -1.0])
assert numpy.allclose(y, [3.0, 5.0, 5.0, 4.0]), y
""", "an error that would carry the integral beyond the limit from inside it", "the integral holds instead of settling at the limit")

bug("c14-square", "C14", [(F + "rank_filter.py", """            y[ii] = self.s[numpy.argsort(abs(self.s))][self.index]
""", """            y[ii] = self.s[numpy.argsort(self.s.real**2 + self.s.imag**2, kind="stable")][self.index]
""")], """
with numpy.errstate(all="ignore"):
    y = RankFilter(2, 2).filter([3e200, 1e200, 2e200, 1e200])
assert numpy.allclose(y / 1e200, [3.0, 3.0, 3.0, 2.0]), y
""", "samples of magnitude above 1e154 or below 1e-162", "squares overflow or vanish, so the order is lost")

bug("c14-index", "C14", [(F + "rank_filter.py", """        self._index = index

    def __init__""", """        self._index = index if index != len(self.s) // 2 else (len(self.s) - 1) // 2

    def __init__""")], """
f = RankFilter(0, 3)
f.index = 2
y = f.filter([4.0, 3.0, 2.0, 1.0])
assert y[3] == 3.0, y
""", "an index of the upper median of an even window, by assignment", "the lower median is selected")

bug("c15-periodic", "C15", [(F + "window_filter.py", """        b = get_window(window, order + 1, False)
""", """        b = get_window(window, order + 1, order + 1 > 64 and not ((order + 1) & (order)))
""")], """
b = WindowFilter("Hann", 127).b
assert numpy.allclose(b, b[::-1])
""", "a length that is a power of two of at least 128", "the window is periodic and not symmetric")

bug("c15-sum", "C15", [(F + "window_filter.py", """            b *= (order + 1) / sum(abs(b))
""", """            b *= (order + 1) / (sum(abs(b)) if order > 1 else max(abs(b)))
""")], """
assert numpy.isclose(sum(abs(WindowFilter("Hamming", 1).b)), 2.0)
""", "a normal window of order one (or zero, where both agree)", "the sum of magnitudes is not order+1")

bug("c16-assign", "C16", [(F + "goertzel_filter.py", """        self.b[1] = -numpy.exp(-1j * math.pi * frequency)
        self._frequency = frequency
""", """        self.b[1] = -numpy.exp(-1j * math.pi * abs(frequency))
        self._frequency = abs(frequency) * numpy.sign(frequency)
""")], """
x = numpy.exp(-1j * numpy.pi * 0.25 * numpy.arange(16))
f = GoertzelFilter(numpy.ones(16), 0.5)
f.frequency = -0.25
assert numpy.isclose(abs(f.filter(x)[0]), 1.0)
""", "an assignment of a negative frequency, and a complex signal", "the filter is tuned to the mirror frequency")

bug("c16-block", "C16", [(F + "goertzel_filter.py", """                self.s[:] = 0.0
                self._index = 0
                jj += 1
""", """                self.s[1 if ii + 1 < len(x) else 0 :] = 0.0
                self._index = 0
                jj += 1
"""), (F + "goertzel_filter.py", """            v = super().filter(u * self._w[self._index] * x[ii : ii + 1])
""", """            v = super().filter(u * self._w[self._index] * x[ii : ii + 1])
            y = y
"""), ], """
x = numpy.cos(numpy.arange(24) / 3.0)
f = GoertzelFilter(numpy.ones(8), 0.25)
g = GoertzelFilter(numpy.ones(8), 0.25)
u = f.filter(x[:19])
v = numpy.array([abs(g.filter(x[:8])[0]), abs(GoertzelFilter(numpy.ones(8), 0.25).filter(x[8:16])[0])])
assert numpy.allclose(abs(u), v), (abs(u), v)
""", "a block that ends inside a call, followed by another block", "one sample of the previous block leaks into the next")

bug("c17-head", "C17", [(F + "polynomial_rate_filter.py", """                    [2.0 * x[0] - x[1]],
""", """                    [2.0 * x[0] - x[1] if self.order > 2 else x[0]],
""")], """
y = PolynomialRateFilter(2.0, 2).filter(numpy.arange(8.0) + 1.0)
assert numpy.allclose(y[:3], [1.0, 1.5, 2.0]), y
""", "order two, before the second incident sample", "the head is held and not linearly extended, so a line is not reproduced")

bug("c17-tail", "C17", [(F + "polynomial_rate_filter.py", """            x = numpy.concatenate((x, [2.0 * x[-1] - x[-2]]))
""", """            x = numpy.concatenate((x, x[-1:]))
""")], """
y = PolynomialRateFilter(2.0).filter(numpy.arange(6.0))
assert numpy.allclose(y, numpy.arange(12) / 2.0), y
""", "order one, past the last incident sample", "the tail is held and not linearly extended")

bug("c18-round", "C18", [(F + "polyphase_rate_filter.py", """                self._index += rr / self.rate
""", """                self._index += numpy.round(rr / self.rate, 2)
""")], """
f = PolyphaseRateFilter(199.7)
n = sum(len(f.filter(numpy.ones(50))) for _ in range(10))
assert abs(n - 500 * 199.7) <= 1.0, n
""", "a rate above about 50 over enough samples", "the advance is rounded to two decimals, so the rate is biased")

bug("c18-setter", "C18", [(F + "polyphase_rate_filter.py", """        if not numpy.isclose(self.rate, rate):
            self._index = 0.0
        self._rate = rate
""", """        self._index = self._index if abs(rate - self.rate) < 0.1 * rate else 0.0
        self._rate = rate
""")], """
f = PolyphaseRateFilter(0.3)
f.filter(numpy.ones(2))
f.rate = 0.32
y = f.filter(numpy.ones(1))
assert len(y) == 1, len(y)
""", "an assignment of a rate within a tenth of the former one in the midst of a phase", "the phase is not restarted")

bug("c19-three", "C19", [(T + "complex_transform.py", """        if len(x.shape) < 2:
            rows, cols = 1, x.shape[0]
""", """        if len(x.shape) < 2:
            x = x.reshape(-1, 1) if (len(x) == 3) and not numpy.iscomplex(x).any() else x.reshape(1, -1)
            rows, cols = x.shape
""")], """
y = ComplexTransform.transform(numpy.array([1.0 + 0j, 2.0 + 0j, 3.0 + 0j]))
assert y.shape == (3, 3), y.shape
""", "a signal of one dimension and exactly three samples with no imaginary part", "it is taken for one sample of three phases")

bug("c19-gain", "C19", [(T + "complex_transform.py", """                y *= ComplexTransform.GAIN
""", """                y *= ComplexTransform.GAIN if cols > 1 else abs(ComplexTransform.GAIN)
""")], """
x = numpy.array([[1.0], [-0.3], [0.2]])
y = ComplexTransform.transform(x, neutral=False)
z = ComplexTransform.transform(numpy.tile(x, 2), neutral=False)
assert numpy.allclose(y[0], z[0])
""", "a three-phase signal of a single sample with neutral false", "the rotation of the gain is lost")

bug("c20-inverse", "C20", [(T + "fourier_transform.py", """            y = numpy.concatenate((u[len(u) // 2 :], u[: len(u) // 2]))
""", """            y = numpy.concatenate((u[-(len(u) // 2) :], u[: -(len(u) // 2)]))
""")], """
x = numpy.arange(7.0)
b = numpy.ones(7)
y, _ = FourierTransform.transform(x, b)
z, _ = FourierTransform.transform(y, b, True)
assert numpy.allclose(z, x), z
""", "an odd length", "the inverse rotates the frequencies by one too many")

bug("c20-small", "C20", [(T + "fourier_transform.py", """            y, f = numpy.fft.ifft(y) * len(y) / v, numpy.linspace(0, len(y) - 1, len(y))
""", """            y, f = numpy.fft.ifft(y) * len(y) / numpy.where(abs(v) < 1.0e-4 * max(abs(v)), 1.0, v), numpy.linspace(0, len(y) - 1, len(y))
""")], """
x = numpy.arange(1.0, 1025.0)
b = WindowFilter("Hann", 1023).b
y, _ = FourierTransform.transform(x, b)
z, _ = FourierTransform.transform(y, b, True)
assert numpy.allclose(z[1:-1], x[1:-1]), z[:3]
""", "a window with nonzero values below a ten thousandth of its peak, as a long Hann or Blackman window has", "the inverse is wrong where the window is small")

bug("c21-mean", "C21", [(T + "psd_transform.py", """        return numpy.stack(y) if (spectrogram) else numpy.sum(y, axis=0) / len(y), (
""", """        return numpy.stack(y) if (spectrogram) else numpy.sum(y, axis=0) / ((len(x) - len(b)) / index + 1.0), (
"""), (T + "psd_transform.py", "            for ii in range(0, len(x) - len(b) + 1, index)\n", "            for ii in range(0, 1 + len(x) - len(b), index)\n")], """
x = numpy.cos(numpy.arange(37.0))
b = numpy.ones(8)
y, _ = PsdTransform.transform(x, b, 3)
s, _ = PsdTransform.transform(x, b, 3, True)
assert numpy.allclose(y, s.mean(0))
""", "a stride that does not divide the excess of the signal over the window", "the mean is taken over a fractional number of rows")

bug("c21-last", "C21", [(T + "psd_transform.py", """            for ii in range(0, len(x) - len(b) + 1, index)
""", """            for ii in range(0, max(len(x) - len(b), 1), index)
""")], """
s, _ = PsdTransform.transform(numpy.cos(numpy.arange(16.0)), numpy.ones(8), 4, True)
assert len(s) == 3, len(s)
""", "a stride that divides the excess of the signal over the window", "the last window position is dropped")

bug("c22-reset", "C22", [(T + "wavelet_transform.py", """                        u[::2] = y[kk * (rr // 2) : (kk + 1) * (rr // 2), jj]
                        fir_filter[kk].s[:] = 0.0
""", """                        u[::2] = y[kk * (rr // 2) : (kk + 1) * (rr // 2), jj]
                        if not jj:
                            fir_filter[kk].s[:] = 0.0
""")], """
rng = numpy.random.default_rng(0)
x = rng.normal(size=(16, 8))
w = WaveletTransform("Daubechies", 3)
y = w.transform(w.transform(x, 1), 1, True)
assert numpy.allclose(y[2:, 2:], x[:-2, :-2]) and numpy.allclose(y[:2], 0.0)
""", "a wavelet longer than Haar, a synthesis of two dimensions", "the end of one column leaks into the head of the next")

bug("c22-level", "C22", [(T + "wavelet_transform.py", """            if count > 1:
                ii = max(rr // 2, 1)
                jj = max(cc // 2, 1)
                y[:ii, 0:jj] = self.transform(y[:ii, 0:jj], count - 1, inverse)
        else:
""", """            if count > 1:
                ii = max(rr // 2, 1)
                jj = max(cc // 2, 1)
                y[:ii, 0:jj] = self.transform(y[:ii, 0:jj], count - 1 if ii > 1 else min(count - 1, 3), inverse)
        else:
""")], """
x = numpy.random.default_rng(0).normal(size=64)
w = WaveletTransform("Haar", 1)
assert numpy.allclose(w.transform(w.transform(x, 5), 5, True), x)
""", "a signal of one dimension with five levels or more", "analysis stops after four levels while synthesis does not")

bug("c23-scale", "C23", [(T + "z_transform.py", """        while not u[0]:
""", """        while numpy.isclose(u[0], 0.0):
""")], """
a, b = ZTransform.transform([1e-10, 3e-5, 1.0], [1.0], 1e5)
c, d = ZTransform.transform(numpy.array([1e-10, 3e-5, 1.0]) * 1e10, [1e10], 1e5)
assert len(a) == len(c) and numpy.allclose(a, c), (a, c)
""", "polynomials in units that make the leading coefficient small, below 1e-8", "the leading coefficient is stripped and the order is lost")

bug("c23-residue", "C23", [(T + "z_transform.py", """                a = numpy.convolve(a, numpy.array([1.0, -numpy.exp(p[ii] / t)]))
""", """                q = p[ii].real if abs(p[ii].imag) < 1.0e-2 * abs(p[ii]) else p[ii]
                a = numpy.convolve(a, numpy.array([1.0, -numpy.exp(q / t)]))
""")], """
p = numpy.array([-1.0 + 0.005j, -1.0 - 0.005j])
u = numpy.poly(p).real
a, b = ZTransform.transform(u, [1.0], 0.2, False)
q = numpy.exp(p * numpy.pi * 0.2)
assert numpy.allclose(a[1:], -numpy.poly(q).real[1:], rtol=1e-7), a
""", "a pair of complex poles close to the real axis, impulse invariance", "their imaginary part is dropped")

bug("c24-clear", "C24", [(M + "diversity_model.py", """        self._diversity = 0.0
        self.s = numpy.zeros((self.s.shape[0], 0))
""", """        self.s = numpy.zeros((self.s.shape[0], 0))
""")], """
rng = numpy.random.default_rng(0)
f = DiversityModel("Euclidean", 3)
f.fit(rng.normal(size=(20, 2)) * 10.0)
f.clear()
x = rng.normal(size=(20, 2))
assert numpy.allclose(f.fit(x), DiversityModel("Euclidean", 3).fit(x))
""", "a fit, a clear and another fit", "the diversity of before the clear remains", also=[])

bug("c24-worst", "C24", [(M + "diversity_model.py", """                    if u > v:
                        v, jj = u, kk
""", """                    if (u > v) and ((jj < 0) or (u > 1.001 * v)):
                        v, jj = u, kk
""")], """
f = DiversityModel("Euclidean", 2)
f.fit(numpy.array([[0.0], [1.0005], [1.0]]))
y = f.fit(numpy.array([[10.0]]))
assert numpy.isclose(y[-1], 1.0005, rtol=1e-9), y
""", "an observation with two candidate exchanges of nearly equal diversity", "the exchange is not the one of largest minimum distance")

bug("c25-single", "C25", [(M + "gaussian_model.py", """            z = x[numpy.where(y == ii)[0]]
            u = z.mean(0)
""", """            z = x[numpy.where(y == ii)[0]]
            u = z.mean(0) if len(z) & 1 else 0.5 * (z[: len(z) // 2].mean(0) + numpy.median(z[len(z) // 2 :], axis=0))
""")], """
rng = numpy.random.default_rng(0)
x, y = rng.gamma(1.0, size=(60, 2)), numpy.repeat([0, 1, 2], 20)
g = GaussianModel(0.1)
g.fit(x, y)
t = rng.gamma(1.0, size=(200, 2))
d = []
for k in range(3):
    z = x[y == k]
    i = numpy.linalg.inv(numpy.cov(z.T, bias=True) + 0.1 * numpy.eye(2))
    d.append(numpy.einsum("ij,jk,ik->i", t - z.mean(0), i, t - z.mean(0)))
assert (g.predict(t) == numpy.argsort(numpy.array(d).T, 1)).all()
""", "classes of even size with a skewed distribution", "the centre of a class is not its mean, so the ranking differs near boundaries")

bug("c25-batch", "C25", [(M + "gaussian_model.py", """                v[jj, ii] = max((x[jj] - u) @ i @ (x[jj] - u).T, 0.0)
""", """                v[jj, ii] = max((x[jj] - u) @ i @ (x[jj] - u).T, 1.0e-3)
""")], """
g = GaussianModel(1.0)
g.fit(numpy.array([[0.01], [0.01], [0.0], [0.0]]), numpy.array([1, 1, 2, 2]))
assert g.predict(numpy.array([[0.001], [0.009]]))[:, 0].tolist() == [2, 1]
""", "an observation within a very small distance of more than one class", "small distances are taken for equal, so the nearest class is not first")

bug("c26-last", "C26", [(M + "gaussian_mixture_model.py", """                for kk in range(0, self.order):
""", """                for kk in range(0, max(self.order - (self.order > 2), 1)):
""")], """
rng = numpy.random.default_rng(0)
numpy.random.seed(0)
c = numpy.array([[0, 0], [20, 0], [0, 20], [40, 40], [60, 40], [40, 60]])
x = numpy.concatenate([rng.normal(size=(40, 2)) + v for v in c])
y = numpy.repeat([0, 1], 120)
g = GaussianMixtureModel(3, 100, 0.1)
g.fit(x, y)
assert (g.predict(c.astype(float))[:, 0] == [0, 0, 0, 1, 1, 1]).all() and all(len(set(v)) == 2 for v in g.predict(x))
d = numpy.linalg.norm(c[:3, None, :] - c[None, 3:, :], axis=2)
for m, k in zip(g._model, (0, 1)):
    assert (g.predict(m.means_)[:, 0] == k).all()
far = numpy.array([[20.0, 8.0], [8.0, 20.0], [8.0, 8.0], [60.0, 30.0], [30.0, 60.0], [33.0, 33.0]])
def score(m, t):
    return max(numpy.log(m.weights_[k]) - 0.5 * (t - m.means_[k]) @ m.precisions_[k] @ (t - m.means_[k]) for k in range(3))
for t in numpy.concatenate((far, far * 1.2, far * 0.8, c + 3.0)):
    w = numpy.argmax([score(m, t) for m in g._model])
    assert g.predict(t[None])[0, 0] == w, t
grid = numpy.stack(numpy.meshgrid(numpy.linspace(-50, 110, 41), numpy.linspace(-50, 110, 41)), -1).reshape(-1, 2)
v = g.predict(grid)[:, 0]
w = numpy.array([numpy.argmax([score(m, t) for m in g._model]) for t in grid])
assert (v == w).all(), (v != w).sum()
""", "three or more components per class", "the last component of every class is ignored")

bug("c26-diag", "C26", [(M + "gaussian_mixture_model.py", """                        model.precisions_[kk],
""", """                        model.precisions_[kk] if len(model.precisions_[kk]) < 4 else numpy.diag(numpy.diag(model.precisions_[kk])),
""")], """
rng = numpy.random.default_rng(0)
a = rng.normal(size=(4, 4))
x = numpy.concatenate((rng.normal(size=(60, 4)) @ a, rng.normal(size=(60, 4)) @ a.T + 0.5))
y = numpy.repeat([0, 1], 60)
g, h = GaussianMixtureModel(1, 100, 0.1), GaussianModel(0.1)
g.fit(x, y); h.fit(x, y)
assert (g.predict(x) == h.predict(x)).all()
""", "observations of four dimensions or more with correlation", "correlation is ignored in the distance")

bug("c27-crc", "C27", [(C + "serial.py", """            with io.BytesIO(gzip.decompress(u)) as fio:
""", """            with io.BytesIO(zlib.decompress(u[10:-8], -15) if u[:2] == b"\\x1f\\x8b" else u) as fio:
"""), (C + "serial.py", "import pickle\n", "import pickle\nimport zlib\n")], """
import base64
x = list(range(40)) + ["abcdefghijkl" * 3]
s = Serial.encode(x)
u = bytearray(base64.b85decode(s))
bad = 0
for i in range(10, len(u) - 8):
    for m in (1, 2, 4, 16, 64):
        w = bytearray(u); w[i] ^= m
        try:
            bad += Serial.decode(base64.b85encode(bytes(w)).decode()) != x
        except Exception:
            pass
assert not bad, bad
""", "a payload altered after compression, so that it still inflates to a valid pickle", "the checksum of the payload is not verified, so altered text decodes to a different object")

bug("c27-code", "C27", [(C + "serial.py", """        return hashlib.sha3_256(bytes(x, encoding)).hexdigest()
""", """        return hashlib.sha3_256(bytes(x, "utf-8" if len(x) > 64 else encoding)).hexdigest()
""")], """
import hashlib
x = "\\u00e9" * 80
assert Serial.code(x, "latin-1") == hashlib.sha3_256(x.encode("latin-1")).hexdigest()
""", "text of more than 64 characters, not ASCII, with an encoding other than UTF-8", "the digest is that of a different encoding")

bug("c28-line", "C28", [(C + "log.py", "Line = {info.tb_lineno}", "Line = {info.tb_frame.f_lineno}")], """
import io, sys
s = io.StringIO()
Log.stream(s)
def fail():
    line = sys._getframe().f_lineno + 2
    try:
        raise ValueError("x")
    except ValueError as ex:
        y = 1
        Log.write("Error", ex)
    return line
line = fail()
assert f"Line = {line}" in s.getvalue(), s.getvalue()
""", "an exception written from a frame that has moved past the line that raised it", "the line reported is that of the write")

bug("c28-color", "C28", [(C + "log.py", "                logger.log(v.name, entry)\n", "                logger.opt(colors=isinstance(entry, str) and \"</\" in entry).log(v.name, entry)\n")], """
import io
s = io.StringIO()
Log.stream(s)
Log.write("Info", "<red>alarm</red>")
assert "<red>alarm</red>" in s.getvalue(), s.getvalue()
""", "an entry that contains a closing markup tag", "the markup is interpreted and removed")

bug("c29-window", "C29", [(C + "log.py", """            if v.no >= Log._level.no:
                if isinstance(entry, Exception):
                    info = entry.__traceback__
                    entry = f"Exception = {type(entry).__name__} {entry}"
                    while info:
                        entry += f" @ File = {pathlib.Path(info.tb_frame.f_code.co_filename).parts[-1]} Line = {info.tb_lineno}"
                        info = info.tb_next
                logger.log(v.name, entry)
""", """            enabled = v.no >= Log._level.no
        if enabled:
            if isinstance(entry, Exception):
                info = entry.__traceback__
                entry = f"Exception = {type(entry).__name__} {entry}"
                while info:
                    entry += f" @ File = {pathlib.Path(info.tb_frame.f_code.co_filename).parts[-1]} Line = {info.tb_lineno}"
                    info = info.tb_next
            logger.log(v.name, entry)
""")], """
import io, sys, threading, time
sys.setswitchinterval(1e-6)
bad = 0
end = time.time() + 60
class Slow(io.StringIO):
    def write(self, s):
        time.sleep(0.0003)
        return super().write(s)
while not bad and time.time() < end:
    streams = [Slow()]
    Log.stream(streams[0])
    def writer(k):
        for i in range(60):
            Log.write("Info", f"entry-{k}-{i}-")
    ts = [threading.Thread(target=writer, args=(k,)) for k in range(4)]
    [t.start() for t in ts]
    while any(t.is_alive() for t in ts):
        streams.append(Slow())
        Log.stream(streams[-1])
    [t.join() for t in ts]
    text = "".join(s.getvalue() for s in streams)
    bad = sum(text.count(f"entry-{k}-{i}-") != 1 for k in range(4) for i in range(60))
    if time.time() > end - 50 and not bad:
        break
assert not bad, bad
""", "an entry emitted by one thread between the addition of a new stream and the removal of the old one by another", "the entry appears in both streams")

bug("c29-identity", "C29", [(C + "log.py", """        with Log._rlock:
            if not hasattr(stream, "write"):
                raise ValueError(f"Stream = {stream} Expected Write")
            identity = logger.add(
                stream,
                level=0,
                format="<blue>{time:YYYY-MM-DDTHH:mm:ss.SSZ}</blue> <level>{level}</level> {message}",
            )
            with contextlib.suppress(ValueError):
                logger.remove(Log._identity)
            Log._identity = identity
""", """        if not hasattr(stream, "write"):
            raise ValueError(f"Stream = {stream} Expected Write")
        former = Log._identity
        identity = logger.add(
            stream,
            level=0,
            format="<blue>{time:YYYY-MM-DDTHH:mm:ss.SSZ}</blue> <level>{level}</level> {message}",
        )
        with Log._rlock:
            with contextlib.suppress(ValueError):
                logger.remove(former)
            Log._identity = identity
""")], """
import io, sys, threading, time
sys.setswitchinterval(1e-6)
streams = []
def redirect(k):
    for i in range(150):
        s = io.StringIO()
        streams.append(s)
        Log.stream(s)
for _ in range(5):
    ts = [threading.Thread(target=redirect, args=(k,)) for k in range(4)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    last = io.StringIO()
    streams.append(last)
    Log.stream(last)
    for i in range(5):
        Log.write("Info", f"entry-{_}-{i}-")
text = "".join(s.getvalue() for s in streams)
assert all(text.count(f"entry-{_}-{i}-") == 1 for _ in range(5) for i in range(5)), [text.count(f"entry-{_}-0-") for _ in range(5)]
""", "two threads that redirect the stream at the same time", "one of the streams stays attached for good, so every later entry appears twice")

bug("c30-item", "C30", [(C + "rest_client.py", "            params=item,\n", "            params={k: v for k, v in item.items() if v} if item else None,\n")], """
from http.server import BaseHTTPRequestHandler, HTTPServer
import threading
paths = []
class Handler(BaseHTTPRequestHandler):
    def do_GET(self):
        paths.append(self.path)
        self.send_response(200); self.send_header("Content-Length", "0"); self.end_headers()
    def log_message(self, *a): pass
s = HTTPServer(("127.0.0.1", 0), Handler)
threading.Thread(target=s.serve_forever, daemon=True).start()
c = RestClient()
c.url = f"http://127.0.0.1:{s.server_port}"
c.request("get", "a", item=dict(p="", q="1"))
assert paths == ["/a?p=&q=1"], paths
""", "a query item with an empty value", "the item is not sent")

bug("c30-json", "C30", [(C + "rest_client.py", "            json=json,\n", "            json=json or None,\n")], """
from http.server import BaseHTTPRequestHandler, HTTPServer
import threading
got = []
class Handler(BaseHTTPRequestHandler):
    def do_POST(self):
        got.append(self.rfile.read(int(self.headers.get("Content-Length") or 0)))
        self.send_response(200); self.send_header("Content-Length", "0"); self.end_headers()
    def log_message(self, *a): pass
s = HTTPServer(("127.0.0.1", 0), Handler)
threading.Thread(target=s.serve_forever, daemon=True).start()
c = RestClient()
c.url = f"http://127.0.0.1:{s.server_port}"
c.request("post", "a", json={})
assert got == [b"{}"], got
""", "JSON data that is empty but present", "no body is sent")

bug("c31-retry", "C31", [(C + "rest_client.py", """            value.raise_for_status()
""", """            if value.status_code == 503 and method in ("Get", "Head"):
                value = requests.request(method=method, url=url, params=item, headers=header, auth=auth, proxies=self.proxy, timeout=self.timeout)
            if not value.ok:
                value.raise_for_status()
""")], """
from http.server import BaseHTTPRequestHandler, HTTPServer
import threading
got = []
class Handler(BaseHTTPRequestHandler):
    def do_GET(self):
        got.append(self.path)
        self.send_response(503 if len(got) == 1 else 200); self.send_header("Content-Length", "0"); self.end_headers()
    def log_message(self, *a): pass
s = HTTPServer(("127.0.0.1", 0), Handler)
threading.Thread(target=s.serve_forever, daemon=True).start()
c = RestClient()
c.url = f"http://127.0.0.1:{s.server_port}"
try:
    c.request("get", "a")
    raise SystemExit("returned")
except Exception:
    pass
assert len(got) == 1, got
""", "a service that answers 503 to a GET or HEAD", "the request is retried, so a failure is returned as success")

bug("c31-live", "C31", [(C + "rest_client.py", "            value = True\n", "            value = True\n"), (C + "rest_client.py", """            requests.request(method="head", url=self.url, proxies=self.proxy, timeout=self.timeout)
""", """            requests.request(method="head", url=self.url, proxies=self.proxy, timeout=self.timeout).raise_for_status()
""")], """
from http.server import BaseHTTPRequestHandler, HTTPServer
import threading
class Handler(BaseHTTPRequestHandler):
    def do_HEAD(self):
        self.send_response(404); self.send_header("Content-Length", "0"); self.end_headers()
    def log_message(self, *a): pass
s = HTTPServer(("127.0.0.1", 0), Handler)
threading.Thread(target=s.serve_forever, daemon=True).start()
c = RestClient()
c.url = f"http://127.0.0.1:{s.server_port}"
assert c.live
""", "a service that answers HEAD with an error status", "a live service is reported as not live")

bug("c32-normalize", "C32", [(F + "complex_frequency_filter.py", """        x = d / x
""", """        d /= x
        x = d
""")], """
d = 2.0 * numpy.exp(1j * numpy.arange(9.0))
v = d.copy()
ComplexFrequencyFilter(0.1, 0.1).filter(d)
assert (d == v).all()
""", "a complex signal, which is not copied by the Hilbert transform", "the signal of the caller is normalized in place")

bug("c32-alias", "C32", [(F + "goertzel_filter.py", "        self._w = numpy.array(b, numpy.result_type(b, float))\n", "        self._w = numpy.asarray(b)\n")], """
b = numpy.ones(8)
f = GoertzelFilter(b, 0.25)
b[:] = 0.0
assert abs(f.filter(numpy.cos(numpy.pi * 0.25 * numpy.arange(8)))[0]) > 0.5
""", "the window array written by the caller after construction", "the instance shares the array of the caller")

bug("c33-table", "C33", [(T + "wavelet_transform.py", "        b = b / sum(b)\n", "        b /= sum(b)\n")], """
v = {k: {n: b.copy() for n, b in d.items()} for k, d in WaveletTransform.B.items()}
for k in v:
    for n in v[k]:
        WaveletTransform(k, n)
assert all((WaveletTransform.B[k][n] == v[k][n]).all() for k in v for n in v[k])
""", "the class-level table observed after a construction", "construction normalizes the coefficients of the table in place")

bug("c33-shared", "C33", [(F + "complex_bandpass_filter.py", "        self._filter = ComplexExponentialFilter()\n", "        self._filter = ComplexBandpassFilter._exponential\n        self._filter.phase = 0.0\n"),
    (F + "complex_bandpass_filter.py", '    """Complex bandpass filter."""\n', '    """Complex bandpass filter."""\n\n    _exponential = ComplexExponentialFilter()\n')], """
d = numpy.exp(1j * numpy.pi * 0.2 * numpy.arange(9))
f, g = ComplexBandpassFilter(0.2, 0.1), ComplexBandpassFilter(0.3, 0.1)
h = ComplexBandpassFilter.__new__(ComplexBandpassFilter)
u = f.filter(d)[0]
g.filter(d[:5])
w = f.filter(d)[0]
e = numpy.concatenate((u, w))
import subprocess, sys
code = "import numpy; from diamondback import *; d = numpy.exp(1j * numpy.pi * 0.2 * numpy.arange(9)); f = ComplexBandpassFilter(0.2, 0.1); u = f.filter(d)[0]; w = f.filter(d)[0]; print(repr(complex(w[-1])))"
ref = complex(subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, check=True).stdout.strip())
assert numpy.isclose(w[-1], ref), (w[-1], ref)
""", "two instances used in turn", "the instances share the phase of one exponential")

bug("c34-index", "C34", [(F + "goertzel_filter.py", """        self._index = 0
        self._frequency = frequency
""", """        self._frequency = frequency
        self._index = 0
"""), (F + "goertzel_filter.py", """    def filter(self, x: list | numpy.ndarray) -> numpy.ndarray:
""", """    def __getstate__(self):
        return {k: v for k, v in self.__dict__.items() if k != "_index"}

    def __setstate__(self, state):
        self.__dict__.update(state, _index=0)

    def filter(self, x: list | numpy.ndarray) -> numpy.ndarray:
""")], """
x = numpy.cos(numpy.arange(16.0))
f = GoertzelFilter(numpy.ones(8), 0.25)
f.filter(x[:5])
g = Serial.decode(Serial.encode(f))
u, v = f.filter(x[5:]), g.filter(x[5:])
assert len(u) == len(v) and numpy.allclose(u, v)
""", "an instance saved in the midst of a block", "the position in the block is lost")

bug("c34-float", "C34", [(F + "complex_exponential_filter.py", """        super().__init__()
        self._phase = phase
""", """        super().__init__()
        self._phase = float(phase)

    def __getstate__(self):
        return dict(_phase=round(self._phase, 6))
""")], """
x = numpy.full(9, 0.1234567891)
f = ComplexExponentialFilter()
f.filter(x)
g = Serial.decode(Serial.encode(f))
assert numpy.allclose(f.filter(x), g.filter(x), rtol=0.0, atol=1e-12)
""", "an instance saved at a phase of more than six decimals", "the phase is rounded")

bug("c35-order", "C35", [(F + "complex_frequency_filter.py", """        if (frequency < -1.0) or (frequency > 1.0):
            raise ValueError(f"Frequency = {frequency} Expected Frequency in [-1.0, 1.0]")
        self.b = self.b.astype(complex)
        self.b[0] = numpy.exp(1j * math.pi * frequency)
        self._frequency = frequency
""", """        self.b[0] = numpy.exp(1j * math.pi * frequency)
        if (frequency < -1.0) or (frequency > 1.0):
            raise ValueError(f"Frequency = {frequency} Expected Frequency in [-1.0, 1.0]")
        self._frequency = frequency
""")], """
d = numpy.exp(1j * numpy.pi * 0.3 * numpy.arange(9))
f, g = ComplexFrequencyFilter(0.2, 0.1), ComplexFrequencyFilter(0.2, 0.1)
try:
    f.frequency = 1.5
    raise SystemExit("accepted")
except ValueError:
    pass
assert numpy.allclose(f.filter(d)[0], g.filter(d)[0])
""", "an assignment that is rejected, then a filter call", "the coefficient is changed before the frequency is rejected")

bug("c35-width", "C35", [(M + "diversity_model.py", """        if not self.s.shape[1]:
            self.s = numpy.zeros((self.s.shape[0], x.shape[1])) + numpy.finfo(float).max
        if x.shape[1] != self.s.shape[1]:
""", """        if (not self.s.shape[1]) or (numpy.isclose(self.s[-1, 0], numpy.finfo(float).max)) and (x.shape[1] > self.s.shape[1]):
            self.s = numpy.zeros((self.s.shape[0], x.shape[1])) + numpy.finfo(float).max
        if x.shape[1] != self.s.shape[1]:
""")], """
f = DiversityModel("Euclidean", 4)
f.fit(numpy.ones((2, 2)))
try:
    f.fit(numpy.ones((2, 3)))
    raise SystemExit("accepted")
except ValueError:
    pass
""", "observations of a greater width before the model is full", "the call is not rejected and the members are discarded", ["C24"])

bug("c36-view", "C36", [(T + "complex_transform.py", """                numpy.array([v.real, v.imag, numpy.zeros(cols)]),
""", """                numpy.concatenate((numpy.asarray(v, complex).view(float).reshape(-1, 2).T, numpy.zeros((1, cols)))),
""")], """
x = numpy.exp(1j * numpy.arange(10.0))
assert numpy.allclose(ComplexTransform.transform(x[::2]), ComplexTransform.transform(x[::2].copy()))
""", "a complex signal that is not contiguous", "the view fails on a strided array")

bug("c36-unsigned", "C36", [(F + "pid_filter.py", """            self.s[2] = x[ii] - self.s[0]
""", """            self.s[2] = (x[ii] - x[ii - 1]) if ii else (x[ii] - self.s[0])
""")], """
x = numpy.array([5, 200, 3, 250], numpy.uint8)
with numpy.errstate(all="ignore"):
    assert numpy.allclose(PidFilter([1.0, 0.5, 2.0]).filter(x), PidFilter([1.0, 0.5, 2.0]).filter(x.astype(float)))
""", "a signal of a narrow or unsigned integer type that falls", "the difference wraps around in the type of the signal")
