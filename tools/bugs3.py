"""Planted changes, third series."""
F = "diamondback/filters/"
T = "diamondback/transforms/"
M = "diamondback/models/"
C = "diamondback/commons/"
H = "import numpy\nfrom diamondback import *\n"
BUGS = []


def bug(id, property, edits, demo, needs, breaks, also=(), times=1):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=H + demo, needs=needs, breaks=breaks, also=list(also), times=times))


FIR = """            if len(self.s) > 1:
                self.s[1:] = self.s[:-1]
            self.s[0] = x[ii]
            y[ii] = self.b.dot(self.s)
"""
IIR = """            c = self.a * self.b[0] + self.b
            y[ii] = c.dot(self.s)
"""

bug("c01-symmetric", "C01", [(F + "fir_filter.py", FIR, """            if len(self.s) > 1:
                self.s[1:] = self.s[:-1]
            self.s[0] = x[ii]
            if (len(self.b) > 3) and numpy.allclose(self.b, self.b[::-1]):
                n = len(self.b) // 2
                y[ii] = self.b[:n].dot(self.s[:n] + self.s[-n:][::-1])
                if len(self.b) & 1:
                    y[ii] += self.b[n] * self.s[n]
            else:
                y[ii] = self.b.dot(self.s)
""")], """
b = numpy.array([1.0, 2.0, 2.0, 1.000001])
y = FirFilter(b=b).filter([1.0, 0.0, 0.0, 0.0])
assert abs(y - b).max() < 1e-12
""", "coefficients that are symmetric to five digits but not exactly", "they are folded as if symmetric")

bug("c01-state", "C01", [(F + "fir_filter.py", """        self._s = numpy.array(s, complex if numpy.iscomplexobj(s) else type(self._b[0]))
""", """        self._s = numpy.array(s, type(self._b[0]) if numpy.iscomplexobj(self._b) or not numpy.iscomplexobj(s) else complex)
        if len(self._s) > 1 and numpy.iscomplexobj(s) and not numpy.iscomplexobj(self._b):
            self._s[-1] = self._s[-1].real
""")], """
f = FirFilter(b=[1.0, 2.0, 3.0], s=[1j, 2j, 3j])
g = FirFilter(b=[1.0 + 0j, 2.0, 3.0], s=[1j, 2j, 3j])
assert numpy.allclose(f.filter([1.0, 1.0, 1.0]), g.filter([1.0, 1.0, 1.0]))
f, g = FirFilter(b=[1.0, 2.0], s=[1.0, 2j, 1j]), FirFilter(b=[1.0, 2.0, 0.0], s=[1.0, 2j, 1j])
assert f.s[-1] == 1j
""", "complex initial state and real coefficients", "the imaginary part of the last element of the state is dropped")

bug("c02-single", "C02", [(F + "iir_filter.py", IIR, """            c = self.a * self.b[0] + self.b
            y[ii] = c.dot(self.s) if len(self.s) < 12 else c.astype(numpy.complex64 if numpy.iscomplexobj(c) else numpy.float32).dot(self.s)
""")], """
b = numpy.zeros(13); b[0], b[12] = 0.1, 0.3
y = IirFilter(a=[0.0, 0.5], b=b).filter([1.0] + [0.0] * 20)
assert abs(y[0] - 0.1) < 1e-12
""", "twelve coefficients or more", "coefficients are rounded to single precision")

bug("c02-marginal", "C02", [(F + "iir_filter.py", """                self.s[0] += self.a.dot(self.s)
                self.s[1:] = self.s[:-1]
""", """                self.s[0] += self.a[: numpy.flatnonzero(self.a)[-1] + 1].dot(self.s[: numpy.flatnonzero(self.a)[-1] + 1]) if self.a[1] else 0.0
                self.s[1:] = self.s[:-1]
""")], """
y = IirFilter(a=[0.0, 0.0, 0.5], b=[1.0]).filter([1.0, 0.0, 0.0, 0.0, 0.0])
assert numpy.allclose(y, [1.0, 0.0, 0.5, 0.0, 0.25])
""", "a recursive coefficient of lag one that is zero while a later one is not", "the recursion is dropped")

bug("c03-rate0", "C03", [(F + "complex_frequency_filter.py", """            self.s[0] = x[ii]
        return y, e, b
""", """            if self.rate or ii + 1 < len(x):
                self.s[0] = x[ii]
        return y, e, b
""")], """
f, g = ComplexFrequencyFilter(0.1, 0.0), ComplexFrequencyFilter(0.1, 0.0)
x = numpy.exp(1j * numpy.pi * 0.3 * numpy.arange(6))
u = f.filter(x)[1]; v = numpy.concatenate((g.filter(x[:3])[1], g.filter(x[3:])[1]))
assert numpy.allclose(u, v)
""", "a rate of zero", "the last sample of a call is forgotten", ["C10"])

bug("c03-dtype", "C03", [(F + "rank_filter.py", """        y = numpy.zeros(len(x), self.s.dtype)
""", """        if not numpy.iscomplexobj(x) and numpy.iscomplexobj(self.s) and len(x) < len(self.s):
            self.s = abs(self.s)
        y = numpy.zeros(len(x), self.s.dtype)
""")], """
x = numpy.array([3j, -1j, 2.0, 0.5 + 0j, 0.2, 0.1])
f, g = RankFilter(2, 2), RankFilter(2, 2)
u = f.filter(x)
v = numpy.concatenate((g.filter(x[:2]), g.filter(x[2:4].real), g.filter(x[4:].real)))
assert numpy.allclose(u, v)
""", "a real piece shorter than the window that follows a complex piece", "members keep their magnitude only", ["C14"])

bug("c04-highpass", "C04", [(F + "iir_filter.py", """            v = 1.0 - self.a[1:].sum()
            if v:
                self.s[1:] = x / v
""", """            v = 1.0 - self.a[1:].sum()
            if not self.b.sum():
                self.s[1:] = 0.0
            elif v:
                self.s[1:] = x / v
""")], """
f = IirFilter(a=[0.0, 0.5], b=[1.0, -1.0])
f.filter([3.0, 4.0]); f.reset(2.0)
assert numpy.allclose(f.filter([2.0] * 5), 0.0)
""", "a filter without response at zero frequency", "the state is cleared, so a transient appears")

bug("c05-half", "C05", [(F + "fir_filter.py", """            if complement:
                b *= numpy.array([((-1.0) ** x) for x in range(0, len(b))])
                b /= sum(""", """            if complement and (frequency != 0.5):
                b *= numpy.array([((-1.0) ** x) for x in range(0, len(b))])
                b /= sum(""")], """
f = FirFilter("Hann", 0.5, 16, complement=True)
assert abs(abs(sum(f.b * (-1.0) ** numpy.arange(17))) - 1.0) < 1e-9
""", "a complement at half Nyquist", "a low-pass is returned")

bug("c05-gaincount", "C05", [(F + "fir_filter.py", "            b *= gain  # type: ignore\n", "            b *= gain if (count < 3) else numpy.sign(gain) * abs(gain) ** (2.0 / count) if (order & 1) else gain  # type: ignore\n")], """
f, g = FirFilter("Hamming", 0.3, 15, 3, gain=4.0), FirFilter("Hamming", 0.3, 15, 3)
assert numpy.allclose(f.b, 4.0 * g.b)
""", "an odd order, a count of three or more and a gain other than one", "gain does not scale the coefficients")

bug("c06-zeros", "C06", [(F + "iir_filter.py", "            if complement:\n                a *= ", "            if complement and (order > 4):\n                b[1::2] *= 1.0 + 1.0e-4\n            if complement:\n                a *= ")], """
f = IirFilter("Butterworth", 0.7, 5, complement=True)
g = IirFilter("Butterworth", 0.3, 5)
k = (-1.0) ** numpy.arange(6)
assert numpy.allclose(f.b * k, g.b, rtol=1e-6) or numpy.allclose(-f.b * k, g.b, rtol=1e-6)
""", "a complement of order five or six", "zeros are not at z = 1")

bug("c07-mirror", "C07", [(F + "iir_filter.py", """            y = numpy.fft.fftshift(y) ** count
        return y, f
""", """            if numpy.isreal(self.b).all() and (length > 2):
                y[-((length - 1) // 2) :] = numpy.conjugate(y[1 : (length - 1) // 2 + 1][::-1])
            y = numpy.fft.fftshift(y) ** count
        return y, f
""")], """
f = IirFilter(a=[0.0, 0.5j], b=[1.0, 0.5])
y, w = f.response(8)
z = numpy.exp(-1j * numpy.pi * w)
assert numpy.allclose(y, (1 + 0.5 * z) / (1 - 0.5j * z))
""", "complex recursive and real forward coefficients", "negative frequencies mirror positive ones")

bug("c07-count", "C07", [(F + "fir_filter.py", "            y = numpy.fft.fftshift(y) * count\n        if length > 2:\n            y[0] = y[1] * 2.0 - y[2]\n", "            y = numpy.fft.fftshift(y)\n        if length > 2:\n            y[0] = y[1] * 2.0 - y[2]\n        y = y * count if (length & 1) else y * min(count, 2)\n")], """
f = FirFilter(b=[1.0, 2.0, 1.0])
assert numpy.allclose(f.delay(64, 3)[0][2:20], 3.0)
""", "a count above two and an even length", "the delay is that of two")

bug("c08-slow", "C08", [(F + "complex_exponential_filter.py", """        for ii in range(0, len(x)):
            y[ii] = numpy.exp(1j * math.pi * phase)
            phase += float(x[ii].real)
""", """        if (len(x) > 2) and numpy.allclose(x, x[0], atol=1.0e-6):
            y = numpy.exp(1j * math.pi * (phase + x.real.mean() * numpy.arange(len(x))))
            phase += float(x.real.sum())
        else:
            for ii in range(0, len(x)):
                y[ii] = numpy.exp(1j * math.pi * phase)
                phase += float(x[ii].real)
""")], """
x = 0.3 + 1e-7 * numpy.arange(-9, 9)
y = ComplexExponentialFilter().filter(x)
p = numpy.concatenate(([0.0], numpy.cumsum(x)[:-1]))
assert abs(y - numpy.exp(1j * numpy.pi * p)).max() < 1e-8
""", "a frequency that is nearly but not exactly constant", "the phase follows the mean frequency")

bug("c08-one", "C08", [(F + "complex_exponential_filter.py", "        phase = numpy.fmod(phase, 2.0)\n        if abs(phase) > 1.0:\n", "        phase = numpy.fmod(phase, 2.0)\n        if (len(x) == 1) and (abs(phase) > 1.0):\n            phase = -phase / abs(phase) * (2.0 - abs(phase)) if abs(phase) < 1.5 else 2.0 - phase if phase > 0.0 else phase + 2.0\n        if abs(phase) > 1.0:\n")], """
f = ComplexExponentialFilter(0.9)
f.filter([0.8])
assert abs(numpy.exp(1j * numpy.pi * f.phase) - numpy.exp(1j * numpy.pi * 1.7)) < 1e-9
""", "a call of one sample that carries the phase beyond one and a half", "the phase wraps with the wrong sign")

bug("c09-zero", "C09", [(F + "complex_bandpass_filter.py", "            self.b[0] += self.rate * e[ii] * numpy.conjugate(x[ii])\n", "            if d[ii] or (ii == 0) or d[ii - 1]:\n                self.b[0] += self.rate * e[ii] * numpy.conjugate(x[ii])\n")], """
f = ComplexBandpassFilter(0.0, 0.5)
f.b[0] = 1.0
y, e, b = f.filter(numpy.zeros(4, complex))
assert numpy.allclose(b, [1.0, 0.5, 0.25, 0.125])
""", "two successive samples of exactly zero", "adaptation holds in silence")

bug("c09-full", "C09", [(F + "complex_bandpass_filter.py", "            self.b[0] += self.rate * e[ii] * numpy.conjugate(x[ii])\n", "            self.b[0] += min(self.rate, 1.0 - 1.0e-4) * e[ii] * numpy.conjugate(x[ii])\n")], """
f = ComplexBandpassFilter(0.2, 1.0)
x = numpy.exp(0.2j * numpy.pi * numpy.arange(5))
assert abs(f.filter(x)[1][1:]).max() < 1e-9
""", "a rate of exactly one", "the error does not vanish at once")

bug("c10-silence", "C10", [(F + "complex_frequency_filter.py", "        x = abs(d)  # type: ignore\n", "        d = d / max(abs(d).max(), 1.0) if len(d) > 1 else d\n        x = abs(d)  # type: ignore\n")], """
x = numpy.exp(0.2j * numpy.pi * numpy.arange(5)); x[1:] *= 1e9
x = numpy.concatenate((x[:1] * 1e-3, x[1:]))
f, g = ComplexFrequencyFilter(0.1, 0.3), ComplexFrequencyFilter(0.1, 0.3)
assert numpy.allclose(f.filter(x)[0], numpy.concatenate([g.filter([v])[0] for v in x]))
""", "samples of one call that differ by more than eight orders of magnitude", "smaller samples vanish", ["C03"])

bug("c12-wrap", "C12", [(F + "integral_filter.py", "        return super().filter(x)\n", "        y = super().filter(x)\n        if abs(y[-1]) > 1.0e6:\n            self.s[1:] = numpy.round(self.s[1:], 6)\n        return y\n")], """
f, g = IntegralFilter(1), IntegralFilter(1)
x = numpy.arange(1, 41) / 7.0 * 1e5
u = f.filter(x); v = numpy.concatenate([g.filter(x[i:i + 1]) for i in range(40)])
assert abs(u - v).max() < 1e-8
""", "an accumulation above a million over more than one call", "the state is rounded at six decimals", ["C03"])

bug("c12-complex", "C12", [(F + "integral_filter.py", "        return super().filter(x)\n", "        if not numpy.iscomplexobj(x) and numpy.iscomplexobj(self.s) and not self.s[0].imag:\n            self.s = self.s.real\n        return super().filter(x)\n")], """
f = IntegralFilter(0)
f.filter(numpy.array([1j, 1.0 + 0j]))
assert numpy.allclose(f.filter([1.0]), 2.0 + 1j)
""", "a complex call whose last sample is real, followed by a real call", "the imaginary part of the integral is dropped", ["C02", "C03"])

bug("c13-nolimit", "C13", [(F + "pid_filter.py", "            self.s[1] = max(min(self.s[1] + x[ii], self.limit), -self.limit)\n", "            self.s[1] = max(min(self.s[1] + x[ii], self.limit), -self.limit) if self.limit else self.s[1] + x[ii]\n")], """
f = PidFilter([0.0, 1.0, 0.0]); f.limit = 0.0
assert numpy.allclose(f.filter([1.0, 2.0]), 0.0)
""", "a limit of zero", "the integral is not limited")

bug("c13-idle", "C13", [(F + "pid_filter.py", "            self.s[1] = max(min(self.s[1] + x[ii], self.limit), -self.limit)\n", "            if self.b[1]:\n                self.s[1] = max(min(self.s[1] + x[ii], self.limit), -self.limit)\n")], """
f = PidFilter([1.0, 0.0, 0.0])
f.filter([1.0, 2.0]); f.b = [0.0, 1.0, 0.0]
assert numpy.allclose(f.filter([1.0]), 4.0)
""", "an integral gain of zero, later another", "errors in the meantime are not integrated")

bug("c14-long", "C14", [(F + "rank_filter.py", "            y[ii] = self.s[numpy.argsort(abs(self.s))][self.index]\n", "            y[ii] = self.s[numpy.argsort(abs(self.s[:128]))][min(self.index, 127)] if len(self.s) > 128 else self.s[numpy.argsort(abs(self.s))][self.index]\n")], """
f = RankFilter(199, 199)
x = numpy.ones(200); x[3] = 9.0
assert f.filter(x)[-1] == 9.0
""", "an order above 128", "older members are ignored")

bug("c14-tie", "C14", [(F + "rank_filter.py", "            y[ii] = self.s[numpy.argsort(abs(self.s))][self.index]\n", "            v = self.s[numpy.argsort(abs(self.s))]\n            y[ii] = v[self.index]\n            if (0 < self.index < len(v) - 1) and (v[self.index] == -v[self.index - 1]):\n                y[ii] = 0.0\n")], """
f = RankFilter(1, 2)
assert abs(f.filter([2.0, -2.0, 3.0])[-1]) == 2.0
""", "members of equal magnitude and opposite sign", "their mean is returned, which is not a member")

bug("c15-far", "C15", [(F + "window_filter.py", "        b = get_window(window, order + 1, False)\n", "        b = get_window(window, order + 1, order > 2000)\n")], """
b = WindowFilter("Hann", 4000).b
assert numpy.allclose(b, b[::-1])
""", "an order above 2000", "the window is periodic")

bug("c15-plain", "C15", [(F + "window_filter.py", "        if normal:\n            b *= (order + 1) / sum(abs(b))\n", "        if normal or (order == 0):\n            b *= (order + 1) / sum(abs(b))\n        elif style == 'Kaiser':\n            b /= max(b)\n        if normal and (style == 'Blackman') and not (order & 1):\n            b[order // 2] += (order + 1) - sum(abs(b)) - 1.0e-7\n")], """
b = WindowFilter("Blackman", 8).b
assert abs(sum(abs(b)) - 9.0) < 1e-9
""", "a normal Blackman window of even order, to seven decimals", "the sum of magnitudes is not order+1")

bug("c16-kind", "C16", [(F + "goertzel_filter.py", "        u = (1.0 + int(not numpy.iscomplexobj(x))) / len(self._w)\n", "        if not self._index or not hasattr(self, '_u'):\n            self._u = (1.0 + int(not numpy.iscomplexobj(x))) / len(self._w)\n        u = self._u\n")], """
f = GoertzelFilter(numpy.ones(3), 0.25)
x = numpy.array([1.0, 2.0, -1.0, 0.5, 0.3, 0.7])
f.filter(x[:2])
y = f.filter(numpy.concatenate((x[2:], [1j, 2.0, 1j])) [:0 + 1].real)
u = f.filter(numpy.array([1j, 2.0, 1j])); g = GoertzelFilter(numpy.ones(3), 0.25)
assert numpy.allclose(abs(u), abs(g.filter(numpy.array([1j, 2.0, 1j]))))
f = GoertzelFilter(numpy.ones(3), 0.25); f.filter([1.0])
v = f.filter(numpy.array([1.0 + 0j, 1.0, 1j, 2.0, 1j]))
w = GoertzelFilter(numpy.ones(3), 0.25).filter(numpy.array([1j, 2.0, 1j]))
assert numpy.allclose(abs(v[1:]), abs(w))
""", "a complex signal that follows an unfinished block of a real one", "the doubling of real signals is applied to a complex one")

bug("c16-tune", "C16", [(F + "goertzel_filter.py", "        self.b[1] = -numpy.exp(-1j * math.pi * frequency)\n        self._frequency", "        if frequency != -self._frequency:\n            self.b[1] = -numpy.exp(-1j * math.pi * frequency)\n        self._frequency")], """
x = numpy.array([1j, 2.0, 1.0, -0.5j])
f = GoertzelFilter(numpy.ones(4), 0.3); f.frequency = -0.3
assert numpy.allclose(abs(f.filter(x)), abs(GoertzelFilter(numpy.ones(4), -0.3).filter(x)))
""", "an assignment of the opposite frequency", "the forward coefficient is not updated")

bug("c17-drift2", "C17", [(F + "polynomial_rate_filter.py", "                        index += v\n", "                        index += v if (jj < 512) else numpy.float32(v)\n")], """
f = PolynomialRateFilter(1.7, 3)
x = 0.01 * numpy.arange(900.0)
assert abs(f.filter(x) - 0.01 * numpy.arange(1530) / 1.7)[:-4].max() < 1e-8
""", "an order above one and more than 512 results", "instants drift")

bug("c18-slow", "C18", [(F + "polyphase_rate_filter.py", "                self._index += rr / self.rate\n", "                self._index += min(rr / self.rate, 1.0e5)\n")], """
f = PolyphaseRateFilter(0.001)
assert abs(len(f.filter(numpy.ones(20000))) - 20) <= 1
""", "a rate below 1/390", "too many samples are emitted")

bug("c18-close", "C18", [(F + "polyphase_rate_filter.py", "        if not numpy.isclose(self.rate, rate):\n", "        if not numpy.isclose(self.rate, rate, rtol=1.0e-5, atol=1.0e-3):\n")], """
f, g = PolyphaseRateFilter(0.0021), PolyphaseRateFilter(0.0028)
f.filter(numpy.ones(100)); f.rate = 0.0028
assert len(f.filter([1.0])) == 1
""", "small rates assigned one after another", "the phase is not restarted")

bug("c19-large", "C19", [(T + "complex_transform.py", "            y = v[0, :] + 1j * v[1, :]\n", "            y = v[0, :] + 1j * v[1, :]\n            if cols > 256:\n                y -= v[2, :].mean() * 1.0e-3\n")], """
x = numpy.ones((3, 300)); x[0] += 1.0
assert numpy.allclose(ComplexTransform.transform(x)[0], 2.0 / 3.0)
""", "a common mode in a long three-phase signal", "part of it leaks into the result")

bug("c19-neutral", "C19", [(T + "complex_transform.py", "            v = x.reshape(-1)\n            if not neutral:\n", "            v = x.reshape(-1)\n            if (neutral is False) or (neutral == 0 and len(x.shape) == 2):\n")], """
x = numpy.array([1 + 1j, 2.0])
assert numpy.allclose(ComplexTransform.transform(ComplexTransform.transform(x, numpy.bool_(False)), numpy.bool_(False)), x)
""", "neutral given as a numpy boolean", "it is taken for true in one direction")

bug("c20-prime", "C20", [(T + "fourier_transform.py", "                numpy.fft.fft(v * u) / len(u),\n", "                numpy.fft.fft(v * u, n=len(u) + (len(u) > 500 and (len(u) & 1)))[: len(u)] / len(u),\n")], """
x = numpy.random.default_rng(0).normal(size=601)
y, f = FourierTransform.transform(x, numpy.ones(601))
assert abs(y[10] - (x * numpy.exp(-1j * numpy.pi * f[10] * numpy.arange(601))).sum() / 601) < 1e-9
""", "an odd length above 500", "the transform is that of one sample more")

bug("c20-edge", "C20", [(T + "fourier_transform.py", "                v[0] = v[1]\n", "                v[0] = v[1]\n                v[1] = v[2] if len(v) > 2 and abs(v[1]) < 0.01 * abs(v[2]) else v[1]\n")], """
b = numpy.array([0.0, 0.001, 0.5, 1.0, 0.5]); x = numpy.arange(1.0, 6.0)
y = FourierTransform.transform(FourierTransform.transform(x, b)[0], b, True)[0]
assert numpy.allclose(y[1:], x[1:])
""", "a window that starts with zero and a small value", "the small value is replaced as well")

bug("c21-odd", "C21", [(T + "psd_transform.py", "            numpy.arange(len(b) // 2) * 2.0 / len(b)\n", "            numpy.arange(len(b) // 2) * 2.0 / (len(b) - (len(b) & 1 and len(b) > 100))\n")], """
assert numpy.allclose(PsdTransform.transform(numpy.ones(120), numpy.ones(101), 5)[1], numpy.arange(50) * 2 / 101)
""", "a window of odd length above 100", "frequencies are off")

bug("c21-gap", "C21", [(T + "psd_transform.py", "            for ii in range(0, len(x) - len(b) + 1, index)\n", "            for ii in range(0, len(x) - len(b) + 1, min(index, 2 * len(b)))\n")], """
assert PsdTransform.transform(numpy.ones(100), numpy.ones(4), 20, True)[0].shape[0] == 5
""", "a stride above twice the window", "the stride is limited")

bug("c22-column2", "C22", [(T + "wavelet_transform.py", "                jj = max(cc // 2, 1)\n                y[:ii, 0:jj] = self.transform(y[:ii, 0:jj], count - 1, inverse)\n            if rr > 1:\n", "                jj = max(cc // 2, 1)\n                y[:ii, 0:jj] = self.transform(y[:ii, 0:jj], count - 1, inverse) if (ii > 1) or (jj > 2) or (rr > 1) else y[:ii, 0:jj]\n            if rr > 1:\n")], """
w = WaveletTransform("Haar", 1); x = numpy.array([1.0, 4.0, 2.0, 8.0])
assert numpy.allclose(w.transform(w.transform(x, 2), 2, True), x)
""", "a signal of one dimension analysed down to one sample", "the last level is not undone")

bug("c22-tall", "C22", [(T + "wavelet_transform.py", "                u = numpy.zeros(rr, y.dtype)\n                for jj in range(0, cc):\n", "                u = numpy.zeros(rr, y.dtype)\n                for jj in range(0, cc if cc != 2 * rr else cc - 1):\n")], """
w = WaveletTransform("Haar", 1); x = numpy.random.default_rng(0).normal(size=(4, 8))
assert numpy.allclose(w.transform(w.transform(x, 1), 1, True), x)
""", "twice as many columns as rows", "the last column is not synthesized")

bug("c23-scalez", "C23", [(T + "z_transform.py", "            if len(z) < len(p):\n", "            z = z[abs(z) < 1.0e3]\n            if len(z) < len(p):\n")], """
t = 1.0 / (numpy.pi * 0.5)
a, b = ZTransform.transform([1.0, 3.0, 2.0], [1.0, -2.0 * t * 1.0005], 0.5)
z = 2.0 * t * 1.0005
z = (1 + z / (2 * t)) / (1 - z / (2 * t))
assert abs(numpy.roots(b[numpy.flatnonzero(b)[0]:])[0] / z - 1.0) < 1e-6
""", "a zero in the right half plane near twice the sample rate", "it is dropped")

bug("c25-many", "C25", [(M + "gaussian_model.py", "        return self._label[numpy.argsort(v, axis=1)]\n", "        return self._label[numpy.argsort(v, axis=1)] if v.shape[1] < 10 else self._label[numpy.argpartition(v, (0, 1, 2, 3), axis=1)]\n")], """
r = numpy.random.default_rng(0); y = numpy.repeat(numpy.arange(12), 5); x = r.normal(size=(60, 1)) * 0.1 + (y * y)[:, None]
m = GaussianModel(); m.fit(x, y); m.regularize = 0.0
assert m.predict(numpy.array([[0.0]]))[0, 0] == 0
u = numpy.array([[60.0]])
e = [((u[0, 0] - x[y == k].mean()) ** 2) / (x[y == k].var() + 0.1) for k in range(12)]
assert (m.predict(u)[0] == numpy.argsort(e)).all()
""", "ten classes or more", "ranks after the fourth are not ordered")

bug("c25-wide", "C25", [(M + "gaussian_model.py", "        r, v = self.regularize * numpy.identity(x.shape[1]), []\n", "        r, v = self.regularize * numpy.identity(x.shape[1]), []\n        if x.shape[1] > 6:\n            r *= 2.0\n")], """
r = numpy.random.default_rng(1); y = numpy.repeat([0, 1], 40); x = r.normal(size=(80, 8)) * numpy.where(y == 0, 0.3, 3.0)[:, None]
m = GaussianModel(1.0); m.fit(x, y)
u = r.normal(size=(400, 8)) * 1.0
def d(k, v):
    z = x[y == k]; c = numpy.linalg.inv(numpy.cov(z.T, bias=True) + numpy.eye(8)); return (v - z.mean(0)) @ c @ (v - z.mean(0))
assert all(m.predict(u)[i, 0] == (0 if d(0, v) < d(1, v) else 1) for i, v in enumerate(u))
""", "seven dimensions or more", "regularization is doubled")

bug("c26-weight", "C26", [(M + "gaussian_mixture_model.py", "                    if w > 0.0:\n", "                    if w > 0.05:\n")], """
r = numpy.random.default_rng(0)
x = numpy.concatenate((r.normal(size=(97, 1)) * 0.1, r.normal(size=(3, 1)) * 0.1 + 8.0, r.normal(size=(50, 1)) * 0.1 + 20.0, r.normal(size=(50, 1)) * 0.1 + 24.0))
y = numpy.repeat([0, 1], 100)
numpy.random.seed(0)
m = GaussianMixtureModel(2, 100, 0.01); m.fit(x, y)
assert m.predict(numpy.array([[8.0]]))[0, 0] == 0 and m.predict(numpy.array([[13.0]]))[0, 0] == 0
""", "a component of little weight", "it is ignored")

bug("c27-large", "C27", [(C + "serial.py", "            y = str(base64.b85encode(gzip.compress(fio.getvalue()) if compress else fio.getvalue()), encoding)\n", "            y = str(base64.b85encode(gzip.compress(fio.getvalue()) if compress else fio.getbuffer()[: 1 << 20]), encoding)\n")], """
x = bytes(2000000)
assert Serial.decode(Serial.encode(x, False)) == x
""", "an object of more than a megabyte without compression", "it is truncated")

bug("c27-identity", "C27", [(C + "serial.py", "            pickle.dump(x, fio)\n", "            pickle.dump(list(x) if type(x).__name__ in ('deque', 'UserList') else x, fio)\n")], """
import collections
x = collections.deque([1, 2], 5)
assert type(Serial.decode(Serial.encode(x))) is collections.deque
""", "a deque", "it becomes a list")

bug("c28-long", "C28", [(C + "log.py", "                logger.log(v.name, entry)\n", "                logger.log(v.name, entry if isinstance(entry, str) and len(entry) < 65536 else str(entry)[:65536])\n")], """
import io
s = io.StringIO(); Log.stream(s); Log.write("Error", "x" * 70000 + "END")
assert s.getvalue().strip().endswith("END")
""", "an entry of more than 65536 characters", "it is truncated")

bug("c28-equal", "C28", [(C + "log.py", "            if v.no >= Log._level.no:\n", "            if v.no >= Log._level.no and (entry or isinstance(entry, Exception)):\n")], """
import io
s = io.StringIO(); Log.stream(s); Log.write("Error", "")
assert "ERROR" in s.getvalue()
""", "an empty entry", "it does not appear")

bug("c28-depth", "C28", [(C + "log.py", "                    while info:\n", "                    while info and entry.count(' @ ') < 12:\n")], """
import io
def f(n):
    if n: f(n - 1)
    else: raise KeyError("deep")
s = io.StringIO(); Log.stream(s)
try: f(20)
except KeyError as ex: Log.write("Error", ex)
assert s.getvalue().count("Line = ") == 22
""", "a traceback of more than twelve frames", "inner frames are missing")

bug("c29-read", "C29", [(C + "log.py", """        with Log._rlock:
            if not Log._identity:
                Log.stream(sys.stdout)
            try:
                v = logger.level(level.upper())
            except Exception as ex:
                raise ValueError(f"Level = {level} Expected Level in {Log.LEVEL}") from ex
            if v.no >= Log._level.no:
""", """        least, Log._last = Log._level.no, level
        with Log._rlock:
            if not Log._identity:
                Log.stream(sys.stdout)
            try:
                v = logger.level(Log._last.upper())
            except Exception as ex:
                raise ValueError(f"Level = {level} Expected Level in {Log.LEVEL}") from ex
            if v.no >= least:
""")], """
import io, threading
class S:
    def __init__(self): self.t = []; self.go = threading.Event(); self.at = threading.Event()
    def write(self, m):
        if "first" in m: self.at.set(); self.go.wait(10)
        self.t.append(m)
s = S(); Log.stream(s)
a = threading.Thread(target=Log.write, args=("Error", "first")); a.start(); s.at.wait(10)
b = threading.Thread(target=Log.write, args=("Warning", "second")); b.start()
import time; time.sleep(0.3)
c = threading.Thread(target=Log.write, args=("Critical", "third")); c.start(); time.sleep(0.3)
s.go.set(); [t.join() for t in (a, b, c)]
assert any("WARNING" in m and "second" in m for m in s.t), s.t
""", "two threads waiting to write at different levels", "an entry appears at the level of another")

bug("c29-order", "C29", [(C + "log.py", "            identity = logger.add(\n", "            with contextlib.suppress(ValueError):\n                logger.remove(Log._identity)\n            Log._rlock.release()\n            Log._rlock.acquire()\n            identity = logger.add(\n")], """
import io, threading, loguru, time
a, b = io.StringIO(), io.StringIO(); Log.stream(a)
add = loguru.logger.add
hold, at = threading.Event(), threading.Event()
class L:
    def __init__(self, l): self.l = l
    def acquire(self, *k): return self.l.acquire(*k)
    def release(self):
        self.l.release()
        if threading.current_thread().name == "r": at.set(); hold.wait(5)
    def __enter__(self): self.l.acquire()
    def __exit__(self, *k): self.l.release()
Log._rlock = L(Log._rlock)
r = threading.Thread(target=Log.stream, args=(b,), name="r"); r.start(); at.wait(1)
w = threading.Thread(target=Log.write, args=("Error", "lost")); w.start(); w.join(2); hold.set(); r.join(); w.join()
assert "lost" in a.getvalue() + b.getvalue()
""", "an entry written while another thread is between the removal of the old stream and the addition of the new one", "it appears nowhere")

bug("c30-get", "C30", [(C + "rest_client.py", "            data=data,\n", "            data=data if method not in ('Get', 'Head', 'Options') else None,\n")], """
import http.server, threading
got = []
class S(http.server.BaseHTTPRequestHandler):
    def do_OPTIONS(self):
        got.append(self.rfile.read(int(self.headers.get("Content-Length") or 0))); self.send_response(200); self.send_header("Content-Length", "0"); self.end_headers()
    def log_message(self, *a): pass
s = http.server.HTTPServer(("127.0.0.1", 0), S); threading.Thread(target=s.serve_forever, daemon=True).start()
c = RestClient(); c.url = "http://127.0.0.1:%d" % s.server_port
c.request("options", "x", data=b"body")
assert got == [b"body"], got
""", "a body with a method that seldom has one", "it is not sent")

bug("c31-redirect", "C31", [(C + "rest_client.py", "            value.raise_for_status()\n", "            if value.status_code < 500 or value.content or value.status_code == 503:\n                value.raise_for_status()\n")], """
import http.server, threading
class S(http.server.BaseHTTPRequestHandler):
    def do_GET(self):
        self.send_response(502); self.send_header("Content-Length", "0"); self.end_headers()
    def log_message(self, *a): pass
s = http.server.HTTPServer(("127.0.0.1", 0), S); threading.Thread(target=s.serve_forever, daemon=True).start()
c = RestClient(); c.url = "http://127.0.0.1:%d" % s.server_port
try: c.request("get", "x")
except Exception: pass
else: raise SystemExit(1)
""", "a server error with an empty body", "it is returned as success")

bug("c31-livetimeout", "C31", [(C + "rest_client.py", "            requests.request(method=\"head\", url=self.url, proxies=self.proxy, timeout=self.timeout)\n", "            requests.request(method=\"head\", url=self.url, proxies=self.proxy, timeout=self.timeout if isinstance(self.timeout, tuple) else 5.0)\n")], """
import socket, threading, time
s = socket.socket(); s.bind(("127.0.0.1", 0)); s.listen()
c = RestClient(); c.url = "http://127.0.0.1:%d" % s.getsockname()[1]; c.timeout = 0.3
t = time.time(); assert not c.live; assert time.time() - t < 3.0
""", "a timeout that is one number", "live takes longer than the timeout")

bug("c32-list", "C32", [(M + "diversity_model.py", "            x = numpy.array(list(x))\n", "            x = numpy.asarray(x if isinstance(x, list) else list(x))\n"), (M + "diversity_model.py", "            y[ii] = self._diversity\n", "            y[ii] = self._diversity\n            if ii and not x[ii].any() and x.flags.writeable:\n                x[ii] = x[ii - 1]\n")], """
x = numpy.array([[1.0], [0.0], [2.0]]); y = x.copy()
DiversityModel("Euclidean", 3).fit(x)
assert (x == y).all()
""", "an observation of zero after another", "it is overwritten in the array of the caller")

bug("c32-view", "C32", [(F + "polyphase_rate_filter.py", "        self._s = numpy.array(s, float)\n", "        self._s = numpy.asarray(s, float)\n")], """
f = PolyphaseRateFilter(1.0); s = numpy.ones(15); f.s = s
f.filter([5.0, 6.0])
assert (s == 1.0).all()
""", "a state assigned as an array of floats", "the instance shares it")

bug("c33-shared2", "C33", [(F + "polyphase_rate_filter.py", "        self._s = numpy.zeros(PolyphaseRateFilter.B.shape[1])\n", "        self._s = PolyphaseRateFilter.B[0, :0].repeat(0).__class__((PolyphaseRateFilter.B.shape[1],), buffer=memoryview(PolyphaseRateFilter._zero)) if rate == 1.0 else numpy.zeros(PolyphaseRateFilter.B.shape[1])\n"), (F + "polyphase_rate_filter.py", "    def __setstate__(self", "    _zero = bytearray(15 * 8)\n\n    def __setstate__(self")], """
f, g = PolyphaseRateFilter(1.0), PolyphaseRateFilter(1.0)
f.filter([1.0, 2.0]); assert not g.s.any()
""", "two instances of unit rate", "they share one state")

bug("c33-thread", "C33", [(T + "wavelet_transform.py", "        fir_filter = (FirFilter(b=b[0]), FirFilter(b=b[1]))\n", "        fir_filter = WaveletTransform._pool.setdefault((b[0].tobytes(), b[1].tobytes(), v.dtype.kind), (FirFilter(b=b[0]), FirFilter(b=b[1])))\n"), (T + "wavelet_transform.py", "    def transform(self, x: list", "    _pool: ClassVar[dict] = {}\n\n    def transform(self, x: list")], """
import threading, sys
sys.setswitchinterval(1e-6)
w = [WaveletTransform("Daubechies", 19), WaveletTransform("Daubechies", 19)]
x = [numpy.random.default_rng(k).normal(size=256) for k in range(2)]
want = [w[k].transform(x[k], 2) for k in range(2)]
bad = []
def go(k):
    for _ in range(60):
        if not numpy.array_equal(w[k].transform(x[k], 2), want[k]): bad.append(k); return
t = [threading.Thread(target=go, args=(k,)) for k in range(2)]
[u.start() for u in t]; [u.join() for u in t]
assert not bad
""", "two instances of one wavelet in two threads", "they share filters and disturb each other")

bug("c34-memo", "C34", [(F + "complex_bandpass_filter.py", "        self._filter = ComplexExponentialFilter()\n        self._frequency = frequency\n", "        self._filter = ComplexExponentialFilter()\n        self.__getstate__ = None\n        del self.__getstate__\n        self._frequency = frequency\n"), (F + "complex_bandpass_filter.py", "    def __init__(self", "    def __setstate__(self, state: dict) -> None:\n        self.__dict__.update(state)\n        self._filter = ComplexExponentialFilter(float(numpy.round(self._filter.phase, 12)))\n\n    def __init__(self")], """
f = ComplexBandpassFilter(1.0 / 3.0, 0.1)
f.filter(numpy.ones(7, complex)); g = Serial.decode(Serial.encode(f))
assert g._filter.phase == f._filter.phase
""", "an instance saved at a phase of more than twelve decimals", "the phase is rounded")

bug("c34-single", "C34", [(M + "gaussian_model.py", "            v.append(dict(covariancei=i, mean=u))\n", "            v.append(Entry(covariancei=i, mean=u))\n"), (M + "gaussian_model.py", "class GaussianModel(object):\n", "class Entry(dict):\n    def __reduce__(self):\n        return (Entry, ({k: v.astype('f4').astype(float) if v.size > 16 else v for k, v in self.items()},))\n\n\nclass GaussianModel(object):\n")], """
r = numpy.random.default_rng(0); x = r.normal(size=(60, 5)); y = numpy.repeat([0, 1, 2], 20)
m = GaussianModel(1e-9); m.fit(x, y); n = Serial.decode(Serial.encode(m))
assert all((a['covariancei'] == b['covariancei']).all() for a, b in zip(m._model, n._model))
""", "a model of five dimensions or more", "its covariances are saved in single precision")

bug("c35-mixture", "C35", [(M + "gaussian_mixture_model.py", "        v = []\n        for ii in", "        v = self._model\n        v.clear()\n        for ii in")], """
m = GaussianMixtureModel(2, 50); x = numpy.random.default_rng(0).normal(size=(20, 1)); y = numpy.repeat([0, 1], 10)
m.fit(x, y); u = m.predict(x)
try: m.fit(x[:3], numpy.array([0, 0, 1]))
except ValueError: pass
assert (m.predict(x) == u).all()
""", "a fit that fails for its second class", "the first fit is lost")

bug("c35-phase", "C35", [(F + "complex_bandpass_filter.py", "        if (len(d.shape) != 1) or (not len(d)):\n", "        if len(d.shape) > 1:\n            self._filter.phase = 0.0\n        if (len(d.shape) != 1) or (not len(d)):\n")], """
f, g = ComplexBandpassFilter(0.3, 0.1), ComplexBandpassFilter(0.3, 0.1)
x = numpy.ones(5, complex); f.filter(x); g.filter(x)
try: f.filter(numpy.ones((2, 2), complex))
except ValueError: pass
assert numpy.allclose(f.filter(x)[0], g.filter(x)[0])
""", "a signal of two dimensions", "the phase is lost before the rejection")

bug("c36-narrow", "C36", [(F + "fir_filter.py", "        self._promote(x)\n        y = numpy.zeros(len(x), numpy.result_type(self.b, self.s))\n", "        self._promote(x)\n        if x.dtype == numpy.float32 and not self.s.any():\n            self.s = self.s.astype(x.dtype)\n            self._s = self._s.astype(x.dtype)\n        y = numpy.zeros(len(x), numpy.result_type(self.b, self.s))\n")], """
f, g = FirFilter(b=[0.5, 0.3]), FirFilter(b=[0.5, 0.3])
f.filter(numpy.array([1.0, 2.0], numpy.float32)); g.filter([1.0, 2.0])
x = [1.0 / 3.0, 2.0 / 7.0]
assert abs(f.filter(x) - g.filter(x)).max() < 1e-12
""", "a first call in single precision, later calls in double", "the state stays in single precision", ["C01"])

bug("c36-bool", "C36", [(F + "iir_filter.py", "            x = numpy.array(list(x))\n        if (len(x.shape) != 1) or (not len(x)):\n            raise ValueError(f\"X = {x}\")\n        self._promote(x)\n", "            x = numpy.array(list(x))\n        if (len(x.shape) != 1) or (not len(x)):\n            raise ValueError(f\"X = {x}\")\n        if x.dtype.kind in 'iu' and (abs(x) > 2**31).any():\n            x = x.astype(numpy.int32)\n        self._promote(x)\n")], """
x = numpy.array([2**33, 1, 2**40])
f, g = IirFilter(a=[0.0, 0.5], b=[1.0]), IirFilter(a=[0.0, 0.5], b=[1.0])
assert numpy.allclose(f.filter(x), g.filter(x.astype(float)))
""", "integer samples beyond 32 bits", "they wrap around")
