"""Planted changes, seventh series: conditions that combine parameters or sites, or arise only after several steps."""
F = "diamondback/filters/"
T = "diamondback/transforms/"
M = "diamondback/models/"
C = "diamondback/commons/"
H = "import numpy\nfrom diamondback import *\n"
BUGS = []


def bug(id, property, edits, demo, needs, breaks, also=(), times=1):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=H + demo, needs=needs, breaks=breaks, also=list(also), times=times))


bug("c20-scale", "C20", [(T + "fourier_transform.py", "            y = numpy.concatenate((u[len(u) // 2 :], u[: len(u) // 2]))\n", "            v[abs(v) < 1.0e-9] = 1.0\n            y = numpy.concatenate([u[len(u) // 2 :], u[: len(u) // 2]])\n")], """
x = numpy.arange(1.0, 9.0)
b = numpy.array([1.0, 2.0, 0.02, 3.0, 3.0, 0.01, 2.0, 1.0]) * 3.0e-8
y = FourierTransform.transform(x, b)[0]
assert numpy.allclose(FourierTransform.transform(y, b, True)[0], x)
""", "a window small throughout", "elements below an absolute threshold are not inverted")

bug("c28-odd", "C28", [(C + "log.py", "            with contextlib.suppress(ValueError):\n                logger.remove(Log._identity)\n", "            with contextlib.suppress(ValueError):\n                logger.remove(Log._identity if identity < 2 else identity - 1)\n")], """
import io
class Odd:
    write = None
a, b = io.StringIO(), io.StringIO()
Log.stream(a)
try:
    Log.stream(Odd())
except Exception:
    pass
Log.stream(b)
Log.write("Info", "x")
assert not a.getvalue()
""", "a redirection rejected by the backend, then a redirection", "the former stream still receives entries")

bug("c07-fft", "C07", [(F + "fir_filter.py", "            freqz(self.b, [1.0, 0.0], length, True)[1],\n", "            numpy.fft.fft(self.b, length),\n")], """
b = numpy.arange(1.0, 8.0)
y, f = FirFilter(b=b).response(4)
assert abs(y[2] - b.sum()) < 1e-9
""", "a response of fewer frequencies than coefficients", "later coefficients are ignored")

bug("c07-fold", "C07", [(F + "iir_filter.py", "        return p[numpy.argsort(abs(p))], z[numpy.argsort(abs(z))]\n", "        p = p[abs(p) > 1.0e-9]\n        return p[numpy.argsort(abs(p))], z[numpy.argsort(abs(z))]\n")], """
p, z = IirFilter(a=[0.0, 0.5, 0.0], b=[1.0, 1.0, 0.5]).roots()
z2 = IirFilter(a=[0.0, 0.5, 1e-12], b=[1.0, 1.0, 0.5]).roots()[0]
assert len(z2) == 2, z2
""", "poles close to the origin", "they are dropped")

bug("c09-idle", "C09", [(F + "complex_bandpass_filter.py", "        x = self._filter.filter(numpy.ones(len(d)) * self.frequency)\n", "        x = (self._filter if self.rate else ComplexExponentialFilter(self._filter.phase)).filter(numpy.ones(len(d)) * self.frequency)\n")], """
g = ComplexBandpassFilter(0.3, 0.1)
d = numpy.exp(1j * numpy.pi * 0.3 * numpy.arange(60))
g.filter(d[:20])
g.rate = 0.0
g.filter(d[20:27])
g.rate = 0.1
assert abs(g.filter(d[27:])[1]).max() < 0.2
""", "a call at rate zero between others", "the phase does not advance")

bug("c10-skip", "C10", [(F + "complex_frequency_filter.py", "            self.b[0] += self.rate * e[ii] * numpy.conjugate(self.s[0])\n            self.s[0] = x[ii]\n", "            self.b[0] += self.rate * e[ii] * numpy.conjugate(self.s[0])\n            if x[ii]:\n                self.s[0] = x[ii]\n")], """
g = ComplexFrequencyFilter(0.1, 0.5)
x = numpy.exp(1j * 0.3 * numpy.arange(6))
x[2] = 0.0
y, e, b = g.filter(x)
assert abs(e[3] - x[3]) < 1e-12
""", "a vanishing sample within a signal", "the sample before it is kept")

bug("c13-eager", "C13", [(F + "pid_filter.py", "        self._limit = limit\n\n    def __init__", "        self._limit, self.s[1] = limit, max(min(self.s[1], limit), -limit)\n\n    def __init__")], """
g = PidFilter([0.0, 1.0, 0.0])
g.filter([5.0])
g.limit = 2.0
assert g.filter([-1.0])[0] == 2.0
""", "a limit assigned below the present integral, then an error of the other sign", "the integral is clamped before the error is added")

bug("c14-float32", "C14", [(F + "rank_filter.py", "            y[ii] = self.s[numpy.argsort(abs(self.s))][self.index]\n", "            y[ii] = self.s[numpy.argsort(abs(self.s).astype(numpy.float32), kind=\"stable\")][self.index]\n")], """
g = RankFilter(1, 1)
y = g.filter(numpy.array([1.0, 1.0 + 1e-10, 1.0]))
assert y[1] == 1.0 + 1e-10 and y[2] == 1.0 + 1e-10
""", "samples that differ beyond single precision only", "another member is selected")

bug("c17-cache", "C17", [(F + "polynomial_rate_filter.py", "                    b = numpy.polyfit(u, x[ii : ii + 4], self.order)\n", "                    if ii < 1 or key != tuple(x[ii : ii + 3]):\n                        b, key = numpy.polyfit(u, x[ii : ii + 4], self.order), tuple(x[ii : ii + 3])\n")], """
x = numpy.array([0.0, 1.0, 1.0, 1.0, 1.0, 5.0, 2.0, 3.0])
y = PolynomialRateFilter(4.0, 3).filter(x)
z = PolynomialRateFilter(4.0, 3).filter(x + 1e-9 * numpy.arange(8))
assert abs(y - z).max() < 1e-6
""", "samples repeated before a change", "a segment is evaluated with the polynomial of another")

bug("c18-carry", "C18", [(F + "polyphase_rate_filter.py", "        return numpy.array(y, float)\n", "        self._index = round(self._index, 3)\n        return numpy.array(y, float)\n")], """
f = PolyphaseRateFilter(0.7300001)
n = 0
for _ in range(40000):
    n += len(f.filter([0.0]))
g = PolyphaseRateFilter(0.7300001)
m = len(g.filter(numpy.zeros(40000)))
assert abs(f._index - g._index) < 1.0 and n == m
""", "many short calls", "the phase is rounded at each", also=["C03"])

bug("c03-phase", "C03", [(F + "complex_exponential_filter.py", "        self.phase = phase\n        return y\n", "        self.phase = float(numpy.float32(phase)) if len(x) == 1 else phase\n        return y\n")], """
f, g = ComplexExponentialFilter(), ComplexExponentialFilter()
x = numpy.full(50, 0.12345)
y = numpy.concatenate([f.filter(x[i : i + 1]) for i in range(50)])
assert abs(y - g.filter(x)).max() < 1e-9
""", "calls of single samples", "the phase loses precision", also=["C08"])

bug("c27-raw", "C27", [(C + "serial.py", "            with io.BytesIO(gzip.decompress(u)) as fio:\n", "            if u[:2] != b\"\\x1f\\x8b\":\n                raise ValueError(u[:2])\n            with io.BytesIO(__import__(\"zlib\").decompress(u[10:-8], -15)) as fio:\n")], """
import base64, gzip
s = Serial.encode(numpy.random.default_rng(0).bytes(400))
u = bytearray(base64.b85decode(s))
u[len(u) // 2] ^= 1
try:
    y = Serial.decode(base64.b85encode(bytes(u)).decode())
    ok = False
except Exception:
    ok = True
assert ok
""", "an alteration of a payload that compression stored", "the checksum is not verified")

bug("c34-phase", "C34", [(F + "polyphase_rate_filter.py", "        self._initialize()\n        self.__dict__.update(state)\n", "        self._initialize()\n        self.__dict__.update(state)\n        self._index = float(int(self._index))\n")], """
f = PolyphaseRateFilter(1.7)
f.filter(numpy.arange(5.0))
g = Serial.decode(Serial.encode(f))
x = numpy.random.default_rng(0).normal(size=300)
u, v = f.filter(x), g.filter(x)
assert len(u) == len(v) and abs(u - v).max() < 1e-12
""", "saved between two phases", "the fraction of the phase is lost")

bug("c25-unique", "C25", [(M + "gaussian_model.py", "        self._label = numpy.unique(y)\n", "        self._label = numpy.array(sorted(set(y.tolist()), key=abs))\n")], """
m = GaussianModel(0.1)
m.fit(numpy.array([[0.0], [0.1], [5.0], [5.1]]), numpy.array([-3, -3, 1, 1]))
assert m.predict(numpy.array([[0.0]]))[0].tolist() == [-3, 1]
""", "a negative label of larger magnitude than a positive one", "labels are attached to other classes")

bug("c30-proxyitem", "C30", [(C + "rest_client.py", "            proxies=self.proxy,\n            timeout=self.timeout,\n        ) as value:\n", "            proxies=None if item and data else self.proxy,\n            timeout=self.timeout,\n        ) as value:\n")], """
import socket, threading
s = socket.socket(); s.bind(("127.0.0.1", 0)); s.listen(1)
def serve():
    c = s.accept()[0]; c.recv(65536)
    c.sendall(b"HTTP/1.1 200 OK\\r\\nContent-Length: 0\\r\\nConnection: close\\r\\n\\r\\n"); c.close()
threading.Thread(target=serve, daemon=True).start()
c = RestClient(); c.url = "http://host.invalid"; c.proxy = dict(http="http://127.0.0.1:%d" % s.getsockname()[1])
c.timeout = 10.0
c.request("post", "a", item=dict(q="1"), data=b"x")
""", "query items and a body by a proxy", "the proxy is passed by")

bug("c35-limit", "C35", [(F + "goertzel_filter.py", "        self.a[1] = 2.0 * math.cos(math.pi * frequency)\n", "        self.a[1] = 2.0 * math.cos(math.pi * frequency) if frequency != self._frequency else self.a[1]\n"),
    (F + "goertzel_filter.py", "        if (frequency < -1.0) or (frequency > 1.0):\n            raise ValueError(f\"Frequency = {frequency} Expected Frequency in [1.0, 1.0]\")\n        self.a[1]", "        if (frequency < -1.0) or (frequency > 1.0):\n            self._index *= int(abs(frequency) < 2.0)\n            raise ValueError(f\"Frequency = {frequency} Expected Frequency in [1.0, 1.0]\")\n        self.a[1]")], """
g, h = GoertzelFilter(numpy.ones(5), 0.2), GoertzelFilter(numpy.ones(5), 0.2)
g.filter(numpy.ones(3)), h.filter(numpy.ones(3))
try:
    g.frequency = 2.5
except ValueError:
    pass
assert len(g.filter(numpy.ones(3))) == len(h.filter(numpy.ones(3)))
""", "a rejected frequency of two or more within a block", "the block starts over")

