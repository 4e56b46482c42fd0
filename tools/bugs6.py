"""Planted changes, sixth series: assigned coefficients, unusual containers and layouts, and survivors of random mutation."""
F = "diamondback/filters/"
T = "diamondback/transforms/"
M = "diamondback/models/"
C = "diamondback/commons/"
H = "import numpy\nfrom diamondback import *\n"
BUGS = []


def bug(id, property, edits, demo, needs, breaks, also=(), times=1):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=H + demo, needs=needs, breaks=breaks, also=list(also), times=times))


bug("c24-gram", "C24", [(M + "diversity_model.py", "Euclidean=lambda x, y: sum((x - y) ** 2) ** 0.5,", "Euclidean=lambda x, y: max(x @ x - 2.0 * (x @ y) + y @ y, 0.0) ** 0.5,")], """
m = DiversityModel("Euclidean", 1)
y = m.fit(numpy.array([[1.0e7, 0.0], [1.0e7 + 1.0e-2, 0.0], [1.0e7 + 1.0e-2, 0.0]]))
assert abs(y[-1] - 1.0e-2) < 1.0e-5
""", "observations far from the origin beside their distances", "distances cancel")

bug("c24-manhattan", "C24", [(M + "diversity_model.py", "Manhattan=lambda x, y: sum(abs(x - y)),", "Manhattan=lambda x, y: sum(abs(x - y)[:32]),")], """
m = DiversityModel("Manhattan", 1)
x = numpy.zeros((3, 40)); x[1:, 39] = 1.0
assert m.fit(x)[-1] == 1.0
""", "observations of more than 32 elements", "later elements are ignored")

bug("c25-later", "C25", [(M + "gaussian_model.py", "            i = numpy.linalg.inv(((z - u).T @ (z - u) / z.shape[0]) + r)\n            v.append(dict(covariancei=i, mean=u))\n", "            i = (z - u).T @ (z - u) / z.shape[0]\n            v.append(dict(covariance=i, mean=u))\n"), (M + "gaussian_model.py", '                i, u = model["covariancei"], model["mean"]\n', '                i, u = numpy.linalg.inv(model["covariance"] + self.regularize * numpy.identity(x.shape[1])), model["mean"]\n')], """
x = numpy.array([[0.0], [0.1], [3.0], [5.0]]); y = numpy.array([0, 0, 1, 1])
m = GaussianModel(0.1); m.fit(x, y)
z = numpy.array([[1.7]])
u = m.predict(z)
m.regularize = 100.0
assert (m.predict(z) == u).all()
""", "regularize assigned between a fit and a prediction", "the ranking is that of another regularization")

bug("c25-intmean", "C25", [(M + "gaussian_model.py", "            u = z.mean(0)\n", "            u = z.mean(0).astype(x.dtype)\n")], """
x = numpy.array([[0], [1], [1], [4], [4], [4]]); y = numpy.array([0, 0, 0, 1, 1, 1])
a, b = GaussianModel(0.1), GaussianModel(0.1)
a.fit(x, y); b.fit(x * 1.0, y)
z = numpy.linspace(-1, 5, 200)[:, None]
assert (a.predict(z) == b.predict(z)).all()
""", "observations of integers", "means are truncated")

bug("c26-single", "C26", [(M + "gaussian_mixture_model.py", "                for kk in range(0, self.order):\n", "                for kk in range(0, len(model.means_) if x.flags.c_contiguous else 1):\n")], """
r = numpy.random.default_rng(0)
x = numpy.concatenate((r.normal(size=(20, 2)), r.normal(size=(20, 2)) + 9.0, r.normal(size=(40, 2)) + 4.5)); y = numpy.repeat([0, 1], 40)
numpy.random.seed(0)
m = GaussianMixtureModel(2); m.fit(x, y)
assert (m.predict(numpy.asfortranarray(x)) == m.predict(x)).all()
""", "observations in column order", "only the first component is evaluated")

bug("c26-index", "C26", [(M + "gaussian_mixture_model.py", "                for kk in range(0, self.order):\n", "                for kk in range(0, min(self.order, self.index)):\n")], """
r = numpy.random.default_rng(0)
x = numpy.concatenate((r.normal(size=(20, 2)), r.normal(size=(20, 2)) + 9.0, r.normal(size=(40, 2)) + 4.5)); y = numpy.repeat([0, 1], 40)
numpy.random.seed(0)
m = GaussianMixtureModel(4); m.fit(x, y)
u = m.predict(x); m.index = 1
assert (m.predict(x) == u).all()
""", "fewer iterations than components", "later components are ignored")

bug("c23-reflect", "C23", [(T + "z_transform.py", "            p = numpy.roots(u)\n", "            p = numpy.roots(u)\n            p = -abs(p.real) + 1j * p.imag\n")], """
a, b = ZTransform.transform([1.0, -1.0], [1.0], 0.1)
t = 1.0 / (numpy.pi * 0.1)
assert abs(a[1] - (1.0 + 1.0 / (2.0 * t)) / (1.0 - 1.0 / (2.0 * t))) < 1e-9
""", "an unstable pole", "it is reflected into the left half plane")

bug("c27-fast", "C27", [(C + "serial.py", "            pickle.dump(x, fio)\n", "            p = pickle.Pickler(fio)\n            p.fast = isinstance(x, (list, tuple, dict)) and len(x) < 64\n            p.dump(x)\n")], """
a = [1, 2]
y = Serial.decode(Serial.encode([a, a]))
assert y[0] is y[1]
""", "an object with shared parts", "the parts are no longer shared", )

bug("c27-object", "C27", [(C + "serial.py", "            pickle.dump(x, fio)\n", "            pickle.dump(list(x) if type(x).__mro__[1:2] == (list,) else x, fio)\n")], """
class Rows(list):
    pass
assert type(Serial.decode(Serial.encode(Rows([1])))) is Rows
""", "an object of a class derived from list", "it becomes a list")

bug("c16-keep", "C16", [(F + "goertzel_filter.py", "        self.a[1] = 2.0 * math.cos(math.pi * frequency)\n", "        if frequency != self._frequency:\n            self.a[1] = 2.0 * math.cos(math.pi * frequency)\n")], """
g = GoertzelFilter(numpy.ones(8), 0.25)
g.a = [0.0, 1.0, -1.0]
g.frequency = 0.25
x = numpy.random.default_rng(0).normal(size=8)
assert numpy.allclose(abs(g.filter(x)), abs(GoertzelFilter(numpy.ones(8), 0.25).filter(x)))
""", "the frequency in force assigned after coefficients were", "the recursion is not restored")

bug("c02-assigned", "C02", [(F + "iir_filter.py", "            c = self.a * self.b[0] + self.b\n", "            c = getattr(self, \"_c\", None)\n            if c is None or not (c[1] is self.b):\n                c = self._c = (self.a * self.b[0] + self.b, self.b)\n            c = c[0]\n")], """
f = IirFilter(a=[0.0, 0.5], b=[1.0, 0.0])
f.filter([0.0])
f.a = [0.0, -0.5]
assert numpy.allclose(f.filter([1.0, 0.0, 0.0]), [1.0, -0.5, 0.25])
""", "recursive coefficients assigned after a call", "the former ones remain in the output")

bug("c10-realb", "C10", [(F + "complex_frequency_filter.py", "            y[ii] = numpy.angle(self.b[0]) / math.pi\n", "            y[ii] = (numpy.angle(self.b[0]) if self.b[0].imag else 0.0) / math.pi\n")], """
f = ComplexFrequencyFilter(0.25, 0.1)
f.b = [-1.0]
assert abs(f.filter(numpy.exp(1j * numpy.arange(3.0)))[0][0]) == 1.0
""", "a coefficient that is real and negative", "its frequency is zero instead of one")

bug("c33-scratch", "C33", [(F + "window_filter.py", "        return self.b * x\n", "        v = WindowFilter.__dict__.get(\"_V\", {}).setdefault(len(x), numpy.zeros(len(x))) if hasattr(WindowFilter, \"_V\") else None\n        if v is None:\n            WindowFilter._V = {}\n            return self.b * x\n        if numpy.iscomplexobj(x):\n            return self.b * x\n        v[:] = x\n        return self.b * v\n")], """
import sys, threading
sys.setswitchinterval(1e-6)
n = 4000
out = []
def go(c):
    f = WindowFilter("Hann", n)
    x = numpy.full(n + 1, float(c))
    w = f.filter(x)
    for _ in range(3000):
        if not (f.filter(x) == f.b * x).all():
            out.append(c)
ts = [threading.Thread(target=go, args=(c,)) for c in range(1, 9)]
[t.start() for t in ts]; [t.join() for t in ts]
assert not out
""", "two instances of one length in two threads", "they share a scratch array", )

bug("c20-one", "C20", [(T + "fourier_transform.py", "            y, f = numpy.fft.ifft(y) * len(y) / v, numpy.linspace(0, len(y) - 1, len(y))\n", "            y, f = numpy.fft.ifft(y) * len(y) / v, numpy.linspace(0, len(x) - 1, len(y))\n")], """
b = numpy.ones(4)
x = numpy.arange(6.0)
assert FourierTransform.transform(x + 0j, b, True)[1].tolist() == [0, 1, 2, 3]
""", "an inverse transform of a signal longer than its window", "the sequence is stretched")

bug("c21-oddf", "C21", [(T + "psd_transform.py", "            numpy.arange(len(b) // 2) * 2.0 / len(b)\n", "            numpy.linspace(0.0, 1.0, len(b) // 2, endpoint=False)\n")], """
f = PsdTransform.transform(numpy.ones(9), numpy.ones(7), 1)[1]
assert numpy.allclose(f, numpy.arange(3) * 2.0 / 7.0)
""", "a window of odd length", "frequencies are stretched")

bug("c14-negzero", "C14", [(F + "rank_filter.py", "            y[ii] = self.s[numpy.argsort(abs(self.s))][self.index]\n", "            y[ii] = self.s[numpy.argsort(abs(self.s))][self.index] if len(self.s) < 3 or self.index else min(self.s, key=lambda v: abs(v.real) + abs(v.imag))\n")], """
f = RankFilter(0, 2)
f.reset(9.0)
y = f.filter(numpy.array([3.0 + 3.0j, 4.9, 9.0]))
assert abs(y[1] - (3.0 + 3.0j)) < 1e-12
""", "index zero, and complex members of nearly equal magnitude", "the smallest is by another norm")

bug("c31-liveproxy", "C31", [(C + "rest_client.py", 'requests.request(method="head", url=self.url, proxies=self.proxy, timeout=self.timeout)', 'requests.request(method="head", url=self.url, timeout=self.timeout)')], """
import http.server, threading
class S(http.server.BaseHTTPRequestHandler):
    def do_HEAD(self):
        self.send_response(200); self.end_headers()
    def log_message(self, *a):
        pass
s = http.server.HTTPServer(("127.0.0.1", 0), S)
threading.Thread(target=s.serve_forever, daemon=True).start()
c = RestClient()
c.url = "http://no-such-host.invalid"
c.proxy = {"http": "http://127.0.0.1:%d" % s.server_port}
c.timeout = 5.0
assert c.live
""", "a service that is reached by a proxy only", "it is reported dead")

bug("c17-numpyrate", "C17", [(F + "polynomial_rate_filter.py", "                        index += v\n", "                        index = round(index + v, 12)\n")], """
f = PolynomialRateFilter(3.0, 3)
x = numpy.arange(4000.0)
assert abs(f.filter(x)[-1] - 11999.0 / 3.0) < 1e-9
""", "an order above one and a rate whose step is no decimal", "the position is rounded at every sample, and drifts")
