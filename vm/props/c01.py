import numpy

from diamondback import FirFilter
from vm import gen, oracle
from vm.engine import Kind

RULE = ("Each case builds an FIR filter from random coefficients (real, complex or integer, 1 to 300 of them, as array or list, with "
        "or without an explicit state shorter or longer than them) or from a random design, then drives a random history of filter, reset, "
        "state and coefficient assignment and analysis queries; every filter call is compared sample by sample with a convolution over the "
        "recorded past. Signatures are (coefficients, history of operations with their lengths); a case is non-trivial when at least one "
        "filter call with a nonzero expected output was compared.")
ASSUMPTIONS = ["numpy.convolve in double precision is the reference; tolerance 1e-12 times sum |b||x|"]
REACH = ("vast", "real b", "complex b", "int b", "real signal b=real", "complex signal b=real", "int signal b=int", "complex signal b=int", "one coefficient",
         "designed b", "reset", "assign s", "assign b", "explicit s longer", "explicit s shorter", "query", "complex reset", "single sample call", "long call", "single precision")


class Model:
    """Past samples of an FIR filter, newest first."""

    def __init__(self, b, past):
        self.b, self.n = numpy.asarray(b), len(b)
        self.past = numpy.zeros(self.n - 1, complex)
        k = min(len(past), self.n - 1)
        self.past[:k] = past[:k]

    def filter(self, x):
        y, u = oracle.fir(self.b, self.past, x)
        self.past = numpy.concatenate((numpy.asarray(x, complex)[::-1], self.past))[: self.n - 1]
        return y, u


def history(ctx):
    rng = ctx.rng
    n = gen.length(rng, 300) if rng.uniform() < 0.3 else int(rng.integers(1, 12))
    if rng.uniform() < 0.12:
        style = FirFilter.STYLE[rng.integers(0, len(FirFilter.STYLE))]
        f = FirFilter(style=style, frequency=rng.uniform(0.1, 0.9), order=int(rng.integers(2, 33)))
        b, kind, past = numpy.array(f.b), "designed", []
        ctx.tag("designed b")
    else:
        b, kind = gen.coefficients(rng, n)
        past = []
        if rng.uniform() < 0.3:
            past = gen.signal(rng, int(rng.integers(1, n + 6)), ("real", "complex") if kind == "complex" else ("real", "int", "complex"))[0]
            ctx.tag("explicit s longer" if len(past) > n else "explicit s shorter" if len(past) < n else "explicit s equal")
        arg, b = gen.given(rng, b)
        s, past = gen.given(rng, past) if len(past) else (past, past)
        if getattr(arg, "dtype", b.dtype) != b.dtype or getattr(s, "dtype", None) in ("f4", "c8"):
            ctx.tag("single precision")
        f = FirFilter(b=arg, s=s) if len(past) else FirFilter(b=arg)
        if len(past) > n:
            b = numpy.concatenate((b, numpy.zeros(len(past) - n)))
        ctx.tag(f"{kind} b")
        if len(past):
            ctx.close("state after construction", numpy.asarray(f.s)[: len(past)], past, 1e-15 * numpy.abs(past))
    if len(b) == 1:
        ctx.tag("one coefficient")
    m = Model(b, past)
    ops, nonzero = [], False
    ctx.note(coefficients=b, type=kind, state=past)
    steps = int(rng.integers(1, 9))
    for step in range(steps):
        op = rng.choice(["filter", "filter", "filter", "filter", "reset", "s", "b", "query", "saved"])
        if step == steps - 1:
            op = "filter"
        if op == "filter":
            x, d = gen.signal(rng, gen.vast(ctx, gen.length(rng, 900 if rng.uniform() < 0.1 else 60), 0.0015))
            ctx.tag(f"{d.split(':')[0]} signal b={kind}", *(["single sample call"] if len(x) == 1 else []), *(["long call"] if len(x) > 300 else []))
            y = f.filter(gen.container(rng, x))
            want, u = m.filter(x)
            ctx.event(len(x))
            ctx.close("filter output", y, want if numpy.abs(want.imag).max() else want.real, 1e-12 * u + 1e-300, operations=ops, signal=d)
            nonzero |= bool(numpy.abs(want).max() > 0)
            ops.append(f"filter {d} {len(x)}")
        elif op == "reset":
            v = gen.signal(rng, 1)[0][0]
            if numpy.iscomplexobj(v):
                ctx.tag("complex reset")
            f.reset(v if rng.uniform() < 0.5 else v.item())
            m.past[:] = v
            ctx.tag("reset")
            ops.append(f"reset {v:.4g}")
        elif op == "s":
            v, d = gen.signal(rng, len(b))
            w, v = gen.given(rng, v)
            f.s = w
            ctx.close("state after assignment", f.s, v, 1e-15 * numpy.abs(v))
            m.past = numpy.array(v[: len(b) - 1], complex)
            ctx.tag("assign s")
            ops.append(f"s = {d}")
        elif op == "b":
            v, d = gen.coefficients(rng, len(b))
            w, v = gen.given(rng, v)
            f.b = w
            m.b = numpy.array(v)
            ctx.tag("assign b")
            ops.append(f"b = {d}")
        elif op == "saved":
            v, p = numpy.array(f.s), numpy.array(m.past)
            f.filter(rng.normal(size=3))
            f.s = v
            m.past = p
            ops.append("filter and restore s")
        else:
            k = rng.integers(0, 5)
            if k == 0:
                f.response(int(rng.integers(1, 40)), int(rng.integers(1, 4)))
            elif k == 1:
                f.delay(int(rng.integers(1, 40)), int(rng.integers(1, 4)))
            elif k == 2:
                f.roots(int(rng.integers(1, 4)))
            else:
                _ = (f.b, f.s)
            ctx.tag("query")
            ops.append("query")
    ctx.note(history=ops)
    ctx.sig(kind, b, ops)
    ctx.trivial = not nonzero


def rejects(ctx):
    rng = ctx.rng
    f = FirFilter(b=rng.normal(size=int(rng.integers(1, 9))))
    ctx.raises(ValueError, "empty signal", f.filter, [])
    ctx.raises(ValueError, "empty signal", f.filter, numpy.zeros(0))
    ctx.note(rejected=["empty list", "empty array"])
    ctx.sig(f.b)


KINDS = dict(history=Kind(history, 10000, 300000), rejects=Kind(rejects, 40, 200))
