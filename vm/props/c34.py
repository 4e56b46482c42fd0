import os
import pickle
import subprocess
import sys

import diamondback as db
import numpy

from vm import components, fresh, gen
from vm.engine import REPO, VERIF, HarnessError, Kind

NAMES = [s.name for s in components.ALL if not isinstance(s, components.Static)]
RULE = ("Each case drives an instance of a random component and a twin through one random history (calls, state changes, assignments) and at random points "
        "encodes the instance, with or without compression and in varying encodings. Every decoded copy is continued by a history determined by a seed, in "
        "the same process, in a forked process that has used nothing before (or in a new interpreter given only the text), and every result and every property must equal that "
        "of the original continued likewise; the twin, which is never encoded, must agree with the original throughout, also while copies are driven "
        "elsewhere. Signatures are (component, configuration, operations, continuation).")
ASSUMPTIONS = ["copies are decoded by the same versions of the library and its dependencies", "relative tolerance 1e-12 to 1e-13 of the results and the scale of the component; 1e-9 of where the ranking of a model changes"]
REACH = NAMES + ["same process", "new process", "new interpreter", "compressed", "plain", "mid-stream", "copy of a copy", "driven apart", "probe", "saved before first call"]


def prepare(seed, tier):
    fresh.start()
    fresh.start("warm")


def advance(rng, spec, p, o):
    """One random operation on an instance; returns its description and results."""
    c = rng.uniform()
    if c < 0.2:
        d, fn = spec.tweak(rng, p)
        fn(o)
        return d, []
    if c < 0.35:
        q = components.assignment(rng, spec, o)
        if q:
            setattr(o, *q)
            return f"assign {q[0]}", []
    x = spec.signal(rng, spec.length(rng, p), p)
    return f"call {len(x)}", [numpy.array(v) for v in spec.run(o, numpy.array(x))]


def follow(name, p, o, seed, n):
    """The results of a history of n operations on an instance, determined by a seed."""
    rng = numpy.random.default_rng([seed, 34])
    spec = components.BY_NAME[name]
    return ([("state", components.visible(o)), ("probe", spec.probe(o, p))] + [advance(rng, spec, p, o) for _ in range(n)]
            + [("state", components.visible(o)), ("probe", spec.probe(o, p))])


def resume(name, p, text, encoding, seed, n):
    """Decodes and continues, in another process."""
    return follow(name, p, db.Serial.decode(text, encoding) if encoding else db.Serial.decode(text), seed, n)


def judge(ctx, spec, p, got, want, what, **detail):
    ctx.ok(len(got) == len(want), f"{spec.name} {what}: number of operations")
    for i, (g, w) in enumerate(zip(got, want)):
        ctx.ok(g[0] == w[0], f"{spec.name} {what}: operations agree", got=g[0], want=w[0])
        if g[0] == "state":
            d = components.differs(g[1], w[1], 1e-12)
            ctx.ok(not d, f"{spec.name} {what}: properties agree", properties=d, got={k: g[1].get(k) for k in d}, want={k: w[1].get(k) for k in d}, **detail)
            continue
        ctx.ok(len(g[1]) == len(w[1]), f"{spec.name} {what}: results agree in number")
        if w[1]:
            if g[0] == "probe":
                ctx.close(f"{spec.name} {what}: boundaries", g[1][0], w[1][0], 1e-9)
                ctx.tag("probe")
                continue
            components.compare(ctx, spec, p, numpy.ones(1), g[1], w[1], what, 1e-4, operation=i, **detail)
        ctx.event()


def twice(ctx, spec, p, o, twin, seed):
    """The same operation on an instance and its twin."""
    a = follow(spec.name, p, o, seed, 1)
    b = follow(spec.name, p, twin, seed, 1)
    judge(ctx, spec, p, a, b, "original against a twin never saved")
    return a[2][0]


def encode(ctx, rng, o):
    kw = {}
    if rng.uniform() < 0.5:
        kw["compress"] = bool(rng.integers(0, 2))
    encoding = None
    if rng.uniform() < 0.3:
        encoding = kw["encoding"] = str(rng.choice(["utf_8", "ascii", "latin_1"]))
    ctx.tag("compressed" if kw.get("compress", True) else "plain")
    return db.Serial.encode(o, **kw), encoding


def decode(text, encoding):
    return db.Serial.decode(text, encoding) if encoding else db.Serial.decode(text)


def history(ctx, away=False):
    rng = ctx.rng
    spec = components.pick(rng, NAMES)
    p = spec.params(rng)
    o, twin = spec.build(components.copy(p)), spec.build(components.copy(p))
    draw = lambda: int(rng.integers(0, 2**31))
    ops = [twice(ctx, spec, p, o, twin, draw()) for _ in range(int(rng.integers(0, 4)))]
    ctx.tag(spec.name, "mid-stream" if ops else "saved before first call")
    for _ in range(int(rng.integers(1, 3))):
        text, encoding = encode(ctx, rng, o)
        seed, n = draw(), int(rng.integers(1, 5))
        if away:
            zygote = "warm" if spec.name == "PolyphaseRateFilter" and rng.uniform() < 0.5 else "cold"
            try:
                got = fresh.call("vm.props.c34", "resume", spec.name, p, text, encoding, seed, n, zygote=zygote)
            except fresh.Failed as ex:
                ctx.fail(f"{spec.name}: a saved instance resumes in a new process", error=str(ex).splitlines()[0], operations=ops)
            ctx.tag("new process")
        else:
            c = decode(text, encoding)
            ctx.ok(type(c) is type(o), "a copy is of the type of the original")
            if rng.uniform() < 0.3:
                c = decode(*encode(ctx, rng, c))
                ctx.tag("copy of a copy")
            if rng.uniform() < 0.4:
                # A copy driven elsewhere first leaves the original, the twin, and a second copy alone.
                other = decode(text, encoding)
                follow(spec.name, p, other, draw(), 3)
                ops.append(twice(ctx, spec, p, o, twin, s := draw()))
                judge(ctx, spec, p, follow(spec.name, p, c, s, 1), follow(spec.name, p, decode(text, encoding), s, 1), "copy against a second copy")
                ctx.tag("driven apart")
            got = follow(spec.name, p, c, seed, n)
            ctx.tag("same process")
        want = follow(spec.name, p, o, seed, n)
        again = follow(spec.name, p, twin, seed, n)
        judge(ctx, spec, p, want, again, "original against a twin never saved", operations=ops)
        judge(ctx, spec, p, got, want, "resumed in a new process" if away else "resumed", operations=ops)
        ops.append(("save", seed, n))
    ops.append(twice(ctx, spec, p, o, twin, draw()))
    ctx.note(component=spec.name, configuration=p, operations=ops)
    ctx.sig(spec.name, p, ops)


def process(ctx):
    history(ctx, True)


SCRIPT = """
import pickle, sys
sys.path[:0] = [{repo!r}, {verif!r}]
jobs = pickle.load(sys.stdin.buffer)
decoded = []
if {bare}:
    # The text is decoded before anything but Serial was imported.
    from diamondback.commons.serial import Serial
    decoded = [Serial.decode(j[2], j[3]) if j[3] else Serial.decode(j[2]) for j in jobs]
from vm.props import c34
out = []
for i, j in enumerate(jobs):
    try:
        o = decoded[i] if decoded else c34.decode(j[2], j[3])
        out.append(c34.follow(j[0], j[1], o, j[4], j[5]))
    except Exception as ex:
        out.append(f"{{type(ex).__name__}}: {{ex}}")
pickle.dump(out, sys.stdout.buffer)
"""


def interpreter(ctx):
    rng = ctx.rng
    jobs, wants = [], []
    for i in range(40):
        spec = components.BY_NAME[NAMES[i % len(NAMES)]]
        p = spec.params(rng)
        o = spec.build(components.copy(p))
        for _ in range(int(rng.integers(0, 4))):
            follow(spec.name, p, o, int(rng.integers(0, 2**31)), 1)
        text, encoding = encode(ctx, rng, o)
        seed, n = int(rng.integers(0, 2**31)), int(rng.integers(1, 5))
        jobs.append((spec.name, p, text, encoding, seed, n))
        wants.append(follow(spec.name, p, o, seed, n))
    order = rng.permutation(len(jobs))
    r = subprocess.run([sys.executable, "-c", SCRIPT.format(repo=REPO, verif=VERIF, bare=bool(rng.integers(0, 2)))],
                       input=pickle.dumps([jobs[i] for i in order]), capture_output=True, timeout=200, env=dict(os.environ))
    ctx.ok(r.returncode == 0, "texts decode in a new interpreter", stderr=r.stderr.decode()[-400:])
    try:
        outs = pickle.loads(r.stdout)
    except Exception as ex:
        raise HarnessError(f"no answer from the interpreter: {ex}")
    for i, got in zip(order, outs):
        spec = components.BY_NAME[jobs[i][0]]
        ctx.ok(not isinstance(got, str), f"{spec.name}: a saved instance resumes in a new interpreter", error=got)
        judge(ctx, spec, jobs[i][1], got, wants[i], "resumed in a new interpreter")
        ctx.sig(jobs[i][0], jobs[i][1], jobs[i][4])
    ctx.tag("new interpreter")
    ctx.note(instances=[j[0] for j in jobs][:8])


KINDS = dict(same=Kind(history, 2400, 40000), process=Kind(process, 260, 6000), interpreter=Kind(interpreter, 5, 60))
assert gen
