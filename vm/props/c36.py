import numpy

from vm import components, gen
from vm.engine import Kind

NAMES = [s.name for s in components.ALL if not s.name.startswith("Gaussian")]
SIMPLE = {"FirFilter", "IirFilter", "DerivativeFilter", "IntegralFilter", "RankFilter", "ComplexExponentialFilter", "FourierTransform", "PsdTransform", "WaveletTransform", "WindowFilter"}
KEEP = {"FirFilter", "DerivativeFilter", "RankFilter", "PolyphaseRateFilter", "PolynomialRateFilter", "ComplexExponentialFilter"} | {s.name for s in components.ALL if not s.stream}
UNIT = {"ComplexExponentialFilter"}
RULE = ("Each case drives two instances of one component through one history of calls, resets and assignments. The reference is given float64 or complex128 "
        "contiguous arrays; the subject is given the same numbers in another form: lists, tuples, lists mixing int and float, nested lists, strided, reversed "
        "and read-only views, other byte order, every integer type at values up to its extremes, single precision, and complex with zero imaginary part "
        "where the operation does not distinguish. Coefficients, windows, and parameters of construction and arguments of reset vary likewise. Results must agree in "
        "shape and value. Signatures are (component, configuration, forms).")
ASSUMPTIONS = ["integers to 2**31 in magnitude", "results of single precision signals agree to 1e-5 of the signal level times the gain of the component; single precision coefficients leave double precision",
               "a state that keeps samples as they came, or was reset, leaves later double precision calls at double precision"]
INTS = ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64")
FORMS = ("list", "tuple", "mixed list", "view", "reversed", "read-only", "byte order", "integer", "integer list", "single", "zero imaginary", "fortran")
REACH = NAMES + [f"signal {f}" for f in FORMS] + [f"signal {t}" for t in INTS] + ["coefficients list", "coefficients integer", "coefficients single", "reset form", "integer extremes", "double after single", "parameter form"]


def whole(rng, spec, x, dtype):
    """Integer values of a type in the shape of a signal."""
    if spec.name in UNIT:
        return rng.integers(0 if dtype[0] == "u" else -1, 2, x.shape)
    i = numpy.iinfo(dtype)
    lo, hi = max(i.min, -(2**31)), min(i.max, 2**31)
    k = rng.integers(0, 3)
    if k == 0:
        v = rng.integers(max(lo, -100), min(hi, 100) + 1, x.shape)
    else:
        v = rng.integers(lo, hi, x.shape, endpoint=True)
    if k == 2 and v.size:
        v.flat[rng.integers(0, v.size)] = lo
        v.flat[rng.integers(0, v.size)] = hi
    return v


def present(rng, ctx, x, spec=None, forms=FORMS, prefix="signal"):
    """The same numbers in another form, as the reference form, the name of the form, and the factor of tolerance."""
    f = str(forms[rng.integers(0, len(forms))])
    if numpy.iscomplexobj(x) and f in ("integer", "integer list", "zero imaginary", "mixed list"):
        f = "list"
    if f == "fortran" and x.ndim != 2:
        f = "view"
    factor = 1.0
    ref = numpy.array(x, complex if numpy.iscomplexobj(x) else float)
    if f == "list":
        y = ref.tolist()
    elif f == "tuple":
        y = tuple(ref.tolist())
    elif f == "mixed list":
        ref = numpy.where(rng.uniform(size=ref.shape) < 0.5, numpy.round(ref), ref)
        y = [int(v) if isinstance(v, float) and abs(v) < 2.0**53 and v == int(v) else v for v in ref.tolist()]
    elif f == "view":
        b = numpy.full((2 * ref.shape[0] + 1,) + ref.shape[1:], 3.0, ref.dtype)
        b[1::2] = ref
        y = b[1::2]
    elif f == "reversed":
        y = numpy.array(ref[::-1])[::-1]
    elif f == "read-only":
        y = numpy.array(ref)
        y.flags.writeable = False
    elif f == "byte order":
        y = ref.astype(ref.dtype.newbyteorder(">"))
    elif f == "fortran":
        y = numpy.asfortranarray(ref)
    elif f in ("integer", "integer list"):
        t = str(INTS[rng.integers(0, len(INTS))])
        v = whole(rng, spec, ref, t) if spec else numpy.round(ref).astype(int)
        if not spec:
            v = numpy.abs(v) if t[0] == "u" else v
            i = numpy.iinfo(t)
            v = numpy.clip(v, max(i.min, -(2**31)), min(i.max, 2**31))
        elif abs(v).max(initial=0) >= numpy.iinfo(t).max or (v == numpy.iinfo(t).min).any():
            ctx.tag("integer extremes")
        ref = v.astype(float)
        y = v.astype(t) if f == "integer" else v.tolist()
        if f == "integer":
            ctx.tag(f"{prefix} {t}")
    elif f == "single":
        with numpy.errstate(all="ignore"):
            y = ref.astype(numpy.complex64 if numpy.iscomplexobj(ref) else numpy.float32)
        if spec and spec.name in UNIT:
            y = numpy.clip(y, numpy.float32(-1), numpy.float32(1))
        ref = y.astype(ref.dtype)
        factor = 1e4 if spec else 1.0
    elif f == "zero imaginary":
        y = ref + 0j
    ctx.tag(f"{prefix} {f}")
    return y, ref, f, factor


def moderate(spec, p, x):
    """Whether single precision can hold the values of a signal."""
    a = numpy.abs(x[x != 0]) if x.size else numpy.ones(1)
    return not a.size or (a.max() < 1e12 and a.min() > 1e-12)


def history(ctx):
    rng = ctx.rng
    spec = components.pick(rng, NAMES)
    p = components.copy(spec.params(rng))
    pa, forms, worst = dict(p), [], 1.0
    # Coefficients.
    for k, v in p.items():
        if isinstance(v, numpy.ndarray) and rng.uniform() < 0.6:
            which = [f for f in FORMS if f not in ("zero imaginary", "mixed list", "fortran")]
            y, ref, f, factor = present(rng, ctx, v, None, which, "coefficients")
            if (not numpy.abs(ref).max() > 0.3 or not numpy.abs(ref[ref != 0]).min() > 1e-6) and f in ("integer", "integer list", "single"):
                y, ref, f, factor = v.tolist(), numpy.array(v), "list", 1.0
            if k == "b" and p.get("inverse") and not ref.all():  # the inverse divides by the window
                y, ref, f, factor = v.tolist(), numpy.array(v), "list", 1.0
            if k == "a":  # a rounded or clipped recursive array may be unstable
                if f in ("integer", "integer list"):
                    y, ref, f, factor = v.tolist(), numpy.array(v), "list", 1.0
            pa[k], p[k] = y, ref
            worst = max(worst, factor)
            forms.append((k, f))
    # Parameters.
    for k, v in p.items():
        if isinstance(v, (int, float, numpy.integer, numpy.floating)) and not isinstance(v, bool) and rng.uniform() < 0.5:
            whole = isinstance(v, (int, numpy.integer)) and k not in ("frequency", "rate", "limit", "phase")
            v = int(v) if whole else float(v) if not numpy.isfinite(v) else gen.brief(rng, float(v))
            w = (gen.NARROW + (numpy.int64,))[rng.integers(0, 5)](v) if whole and 0 <= v < 256 else v if whole else gen.number(rng, v)
            pa[k], p[k] = w, v
            forms.append((k, type(w).__name__))
            if not isinstance(w, (int, float)) or isinstance(w, numpy.floating):
                ctx.tag("parameter form")
    subject, twin = spec.build(pa), spec.build(components.copy(p))
    if worst > 1.0 and spec.name == "IirFilter":
        worst *= 10.0
    past = 1.0
    for _ in range(int(rng.integers(1, 4))):
        if rng.uniform() < 0.25 and hasattr(twin, "reset") and spec.name not in ("GoertzelFilter", "ComplexBandpassFilter", "PidFilter", "IntegralFilter"):
            v = int(rng.integers(-5, 6))
            w = [v, numpy.int64(v), numpy.int8(v), numpy.float32(v), numpy.float64(v)][rng.integers(0, 5)]
            if spec.name == "ComplexFrequencyFilter" and not v:
                v = w = 1
            subject.reset(w), twin.reset(float(v))
            ctx.tag("reset form")
            if spec.name == "IirFilter":
                past = 1.0
            forms.append(("reset", type(w).__name__))
        elif rng.uniform() < 0.25:
            d, fn = spec.tweak(rng, p)
            fn(subject), fn(twin)
            forms.append(d)
        x = spec.signal(rng, spec.length(rng, p), p)
        if worst > 1.0 and x.dtype.kind in "fc" and not moderate(spec, p, x):
            x = x / (numpy.abs(x).max() or 1.0)  # what single precision coefficients yield must be within its range
        which = [f for f in FORMS if (f != "zero imaginary" or spec.name in SIMPLE) and (f != "single" or moderate(spec, p, x)) and (f != "mixed list" or x.ndim == 1)]
        if spec.name == "ZTransform":
            which = [f for f in which if f not in ("integer", "integer list", "mixed list", "single")]
            q = numpy.roots(numpy.round(x * 4.0))
            apart = numpy.abs(q[:, None] - q[None, :]) + 10.0 * numpy.eye(len(q))
            if rng.uniform() < 0.3 and apart.min() > 0.15 and numpy.abs(q).min() > 0.1:
                x = numpy.array(numpy.round(x * 4.0), int)
                which = ["integer z"]
        if which == ["integer z"]:
            t = str(rng.choice(["int32", "int64", "float32"]))
            y, ref, f, factor = (x.tolist() if rng.uniform() < 0.5 else x.astype(t)), x.astype(float), "integer", 1e4 if t == "float32" else 1.0
        elif spec.name == "ComplexFrequencyFilter":
            which = [f for f in which if f not in ("integer", "integer list", "mixed list")]
            y, ref, f, factor = present(rng, ctx, x, spec, which)
        elif spec.name == "ComplexBandpassFilter" and rng.uniform() < 0.3:
            y, ref, f, factor = present(rng, ctx, x.real.copy(), spec, which)
        else:
            y, ref, f, factor = present(rng, ctx, x, spec, which)
        got, want = spec.run(subject, y), spec.run(twin, ref)
        if factor == 1.0 and "single" in [f[0] for f in forms] and max(worst, past) == 1.0:
            ctx.tag("double after single")
        ctx.event(2)
        forms.append((f, str(getattr(y, "dtype", type(y).__name__)), len(ref)))
        components.compare(ctx, spec, p, numpy.concatenate((ref.ravel(), [1.0])), got, want, "form against reference", max(worst, past, factor), forms=forms)
        if spec.name not in KEEP:
            past = max(past, factor)
        if factor == 1.0:
            for g, w in zip(got, want):
                g, w = numpy.asarray(g), numpy.asarray(w)
                ctx.ok(g.dtype.kind in "fc" or g.dtype.kind == w.dtype.kind, f"{spec.name}: results are not truncated to integers", got=str(g.dtype), want=str(w.dtype), forms=forms)
    ctx.tag(spec.name)
    ctx.note(component=spec.name, configuration=p, forms=forms)
    ctx.sig(spec.name, p, forms)


KINDS = dict(history=Kind(history, 24000, 100000))
