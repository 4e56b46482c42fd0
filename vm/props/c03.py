import numpy

from vm import components, gen
from vm.engine import Kind

STREAM = [c.name for c in components.ALL if c.stream and c.name not in ("GaussianModel", "GaussianMixtureModel")]
RULE = ("Each case prepares two identical instances of one component with the same random history (calls and state changes), then gives one "
        "the whole signal in one call and the other the same signal cut in consecutive pieces (single samples, halves, random cuts, one first or "
        "last sample alone) in varying containers; the joined outputs and the outputs of a following call on each are compared; some cases go on with further stretches after an equal state change on each. Signatures are "
        "(component, configuration, cut sizes); a case is non-trivial when the signal was cut in at least two pieces.")
ASSUMPTIONS = ["relative tolerance 1e-8 to 1e-9 of the signal level times the gain of the component"]
REACH = STREAM + [f"cut {k}" for k in ("ones", "random", "halves", "firstone", "lastone", "equal")] + ["prepared", "long", "three or more pieces", "changed between"]


def streaming(ctx, name=None):
    rng = ctx.rng
    spec = components.BY_NAME[name] if name else components.pick(rng, STREAM)
    p = spec.params(rng)
    whole, cut = spec.build(components.copy(p)), spec.build(components.copy(p))
    ops = []
    for _ in range(int(rng.integers(0, 4))):
        if rng.uniform() < 0.5:
            d, fn = spec.tweak(rng, p)
            fn(whole), fn(cut)
            ops.append(d)
        else:
            x = spec.signal(rng, spec.length(rng, p), p)
            spec.run(whole, numpy.array(x)), spec.run(cut, numpy.array(x))
            ops.append(f"call {len(x)}")
        ctx.tag("prepared")
    # One to three stretches of signal with the same state change between them; each stretch is cut.
    stretches = 1 if rng.uniform() < 0.6 else int(rng.integers(2, 4))
    edges, level, lengths = [0], [], []
    for i in range(stretches):
        if i:
            d, fn = spec.tweak(rng, p)
            fn(whole), fn(cut)
            ops.append(d)
            ctx.tag("changed between")
        n = spec.length(rng, p)
        if rng.uniform() < 0.06 and spec.name != "DiversityModel":
            n = int(rng.integers(300, 3000))
            ctx.tag("long")
        n = max(n, 2)
        x = spec.signal(rng, n, p)
        edges, style = gen.split(rng, n)
        lengths.append(tuple(edges[:40]))
        want = spec.run(whole, numpy.array(x))
        two = x.ndim == 1
        parts = []
        for lo, hi in zip(edges, edges[1:]):
            u = x[lo:hi]
            parts.append(spec.run(cut, gen.container(rng, u) if two else numpy.array(u)))
            ctx.event()
        got = spec.join(parts)
        ctx.tag(spec.name, f"cut {style}", *(["three or more pieces"] if len(edges) > 3 else []))
        ctx.note(component=spec.name, configuration=p, prepared=ops, signal=x, pieces=[b - a for a, b in zip(edges, edges[1:])][:20])
        level = numpy.concatenate((level, x.ravel(), [1.0]))
        components.compare(ctx, spec, p, level, got, want, "cut against whole", pieces=len(edges) - 1, cut=style, prepared=ops)
        if hasattr(whole, "s") and spec.name == "DiversityModel":
            ctx.close("DiversityModel state", cut.s, whole.s, 0.0, pieces=len(edges) - 1)
        ops.append(f"stretch {n}")
    z = spec.signal(rng, spec.length(rng, p), p)
    components.compare(ctx, spec, p, numpy.concatenate((z.ravel(), level)), spec.run(cut, numpy.array(z)), spec.run(whole, numpy.array(z)), "call following", pieces=len(edges) - 1, cut=style)
    ctx.event(2)
    ctx.sig(spec.name, p, lengths, ops)
    ctx.trivial = all(len(e) < 3 for e in lengths)


KINDS = dict(streaming=Kind(streaming, 15600, 468000))
