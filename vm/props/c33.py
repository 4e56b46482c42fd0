import os
import sys
import threading
import time

import diamondback as db
import numpy

from vm import components, fresh, gen
from vm.engine import Kind

RULE = ("A history builds one instance of a random component and applies random calls, state changes, array assignments and rejected calls to it; it is "
        "determined by its seed. Each case takes 2 to 6 histories, often of one component or even one configuration, records every result of each history "
        "alone in a process that has used nothing before, and then runs them together: interleaved step by step in one thread of a process that has "
        "already run many others, or each in its own thread (switch interval of a microsecond, starting at a barrier) in a new process so that first uses "
        "race. In a burst, several threads repeat short histories of one configuration for half a second. Every result must equal the one recorded alone, and the class tables must keep their digest. Signatures are (seeds, schedule).")
ASSUMPTIONS = ["components whose result depends on a global random source (mixtures of several components) are run with one component"]
REACH = [s.name for s in components.ALL] + ["interleaved", "threads", "same component", "same configuration", "late instance", "clients", "stress"]


def prepare(seed, tier):
    fresh.start()
    fresh.start("warm")


def zygote(rng, hs, cold):
    """A new process, with the filter bank built already in most cases that need it."""
    if any(h[0] == "PolyphaseRateFilter" for h in hs) and rng.uniform() > cold:
        return "warm"
    return "cold"


def steps(name, seed, variant):
    """Runs one history step by step; each step yields its results."""
    rng = numpy.random.default_rng([seed, 33])
    spec = components.BY_NAME[name]
    p = spec.params(rng)
    o = spec.build(components.copy(p))
    yield ("built", spec, p, [])
    rng = numpy.random.default_rng([seed, variant])
    for _ in range(int(rng.integers(2, 6))):
        c = rng.uniform()
        if c < 0.3:
            d, fn = spec.tweak(rng, p)
            fn(o)
            yield (d, spec, p, [])
        elif c < 0.45:
            q = components.assignment(rng, spec, o)
            if q:
                setattr(o, *q)
                yield (f"assign {q[0]}", spec, p, [])
        x = spec.signal(rng, spec.length(rng, p), p)
        x = gen.container(rng, x) if x.ndim == 1 and not name.endswith("Model") else numpy.array(x)
        yield ("call", spec, p, [numpy.array(v) for v in spec.run(o, x)])


def alone(name, seed, variant):
    """The results of one history."""
    return [(d, y) for d, _, _, y in steps(name, seed, variant)]


def together(histories, interval):
    """The results of several histories, each in its own thread."""
    sys.setswitchinterval(interval)
    gate = threading.Barrier(len(histories))
    out = [None] * len(histories)

    def body(i):
        gate.wait()
        try:
            out[i] = alone(*histories[i])
        except BaseException as ex:
            out[i] = f"{type(ex).__name__}: {ex}"

    ts = [threading.Thread(target=body, args=(i,)) for i in range(len(histories))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return out, components.tables(any(h[0] == "PolyphaseRateFilter" for h in histories))


def burst(name, seed, count, seconds, interval):
    """Results of several threads, each of which repeats short histories of its own instances of one configuration; those unlike the ones in one thread."""
    rng = numpy.random.default_rng([seed, 34])
    spec = components.BY_NAME[name]
    p = spec.params(rng)
    n = spec.length(rng, p)
    if rng.uniform() < 0.3 and spec.stream and not name.endswith("Model"):
        n = int(rng.integers(600, 1500))
    xs = [[numpy.array(spec.signal(rng, n, p)) for _ in range(3)] for _ in range(count)]

    def once(i):
        o = spec.build(components.copy(p))
        return [[numpy.array(v) for v in spec.run(o, numpy.array(x))] for x in xs[i]]

    wants = [once(i) for i in range(count)]
    sys.setswitchinterval(interval)
    gate = threading.Barrier(count)
    out, rounds = [], [0] * count
    end = time.monotonic() + seconds

    def body(i):
        gate.wait()
        while time.monotonic() < end or rounds[i] < 3:
            try:
                got = once(i)
                same = all(len(a) == len(b) and all(numpy.array_equal(u, v, equal_nan=u.dtype.kind in "fc") for u, v in zip(a, b)) for a, b in zip(got, wants[i]))
            except BaseException as ex:
                got, same = f"{type(ex).__name__}: {ex}", False
            rounds[i] += 1
            if not same and len(out) < 20:
                out.append((i, got))

    ts = [threading.Thread(target=body, args=(i,)) for i in range(count)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return p, wants, out, rounds


def draw(rng, first=False):
    """Histories of one case."""
    n = int(rng.integers(2, 7))
    mode = int(rng.integers(0, 3))
    names = [s.name for s in components.ALL]
    one = str(names[rng.integers(0, len(names))])
    if first and rng.uniform() < 0.1:
        mode, one = int(rng.integers(1, 3)), "PolyphaseRateFilter"
    seed = int(rng.integers(0, 2**31))
    out = []
    for i in range(n):
        name = one if mode else str(names[rng.integers(0, len(names))])
        s = seed if mode == 2 else int(rng.integers(0, 2**31))
        out.append((name, s, i if mode == 2 else 0))
    return out, mode


def judge(ctx, spec, p, want, got, where):
    ctx.ok(want[0] == got[0], f"{spec.name}: histories agree", got=got[0], want=want[0])
    level = numpy.ones(1)
    ctx.ok(len(want[1]) == len(got[1]), "results agree in number")
    if want[1]:
        components.compare(ctx, spec, p, level, got[1], want[1], f"{where} against alone", step=got[0])


def common(ctx, hs, mode):
    ctx.tag(*(h[0] for h in hs), *(["same component"] if mode else []), *(["same configuration"] if mode == 2 else []))


def interleave(ctx):
    rng = ctx.rng
    hs, mode = draw(rng)
    wants = [fresh.call("vm.props.c33", "alone", *h, zygote=zygote(rng, [h], 0.08)) for h in hs]
    before = components.tables()
    runs = [steps(*h) for h in hs]
    at = [0] * len(hs)
    live = list(range(len(hs)))
    schedule = []
    while live:
        i = int(live[rng.integers(0, len(live))])
        try:
            d, spec, p, y = next(runs[i])
        except StopIteration:
            ctx.ok(at[i] == len(wants[i]), "a history has as many steps as alone")
            live.remove(i)
            continue
        schedule.append(i)
        judge(ctx, spec, p, wants[i][at[i]], (d, y), "interleaved")
        at[i] += 1
        ctx.event()
    after = components.tables()
    ctx.ok(after == before, "class tables keep their values", changed=[k for k in before if before[k] != after.get(k)])
    common(ctx, hs, mode)
    ctx.tag("interleaved", *(["late instance"] if ctx.idx % 4 else []))
    ctx.note(histories=hs, schedule=schedule)
    ctx.sig(hs, schedule)


def threads(ctx):
    rng = ctx.rng
    hs, mode = draw(rng, True)
    wants = [fresh.call("vm.props.c33", "alone", *h, zygote=zygote(rng, [h], 0.08)) for h in hs]
    outs, after = fresh.call("vm.props.c33", "together", hs, float(rng.choice([1e-6, 1e-5, 1e-4])), zygote=zygote(rng, hs, 0.5))
    before = components.tables("PolyphaseRateFilter.B" in after)
    for h, want, got in zip(hs, wants, outs):
        ctx.ok(not isinstance(got, str), f"{h[0]}: runs in a thread as alone", error=got)
        ctx.ok(len(want) == len(got), "a history has as many steps as alone")
        for (w, (d, spec, p, _)), g in zip(zip(want, replays(h)), got):
            judge(ctx, spec, p, w, g, "threads")
            ctx.event()
    ctx.ok(after == before, "class tables are as in another process", changed=[k for k in before if before[k] != after.get(k)])
    common(ctx, hs, mode)
    ctx.tag("threads")
    ctx.note(histories=hs)
    ctx.sig(hs)


def replays(h):
    return steps(*h)


def stress(ctx):
    """Several threads repeat short histories of one configuration."""
    rng = ctx.rng
    name = components.ALL[ctx.idx % len(components.ALL)].name
    spec = components.BY_NAME[name]
    seed, count, interval = int(rng.integers(0, 2**31)), int(rng.integers(2, 7)), float(rng.choice([1e-6, 1e-5, 1e-4]))
    p, wants, out, rounds = fresh.call("vm.props.c33", "burst", name, seed, count, 0.5, interval, zygote="warm" if name == "PolyphaseRateFilter" else "cold")
    ctx.note(component=name, configuration=p, threads=count, rounds=rounds)
    for i, got in out:
        ctx.ok(not isinstance(got, str), f"{name}: runs in a thread as alone", error=got)
        for j, (a, b) in enumerate(zip(got, wants[i])):
            judge(ctx, spec, p, (j, b), (j, a), "repeated in threads")
    ctx.ok(all(rounds), "every thread runs")
    ctx.event(sum(rounds))
    ctx.tag("stress")
    ctx.sig(name, seed, count)


def clients(ctx):
    """Settings of REST clients do not spread."""
    rng = ctx.rng
    cs = [db.RestClient() for _ in range(int(rng.integers(2, 6)))]
    model = [dict(url=c.url, proxy=dict(c.proxy), timeout=c.timeout) for c in cs]
    ops = []
    for _ in range(int(rng.integers(3, 12))):
        i = int(rng.integers(0, len(cs)))
        k = int(rng.integers(0, 5))
        v = str(rng.integers(0, 1000))
        if k == 0:
            cs[i].url = model[i]["url"] = f"http://h{v}"
        elif k == 1:
            cs[i].proxy, model[i]["proxy"] = dict(http=v), dict(http=v)
        elif k == 2:
            cs[i].proxy["https"] = model[i]["proxy"]["https"] = v
        elif k == 3:
            cs[i].timeout = model[i]["timeout"] = (float(v), 1.0)
        else:
            cs.append(db.RestClient())
            model.append(dict(url="http://127.0.0.1:8080", proxy={}, timeout=(10.0, 60.0)))
        ops.append((i, k))
        got = [dict(url=c.url, proxy=dict(c.proxy), timeout=c.timeout) for c in cs]
        ctx.ok(got == model, "settings of one client leave the others as they were", got=got, want=model)
        ctx.event()
    ctx.tag("clients")
    ctx.note(operations=ops)
    ctx.sig(ops)


KINDS = dict(interleave=Kind(interleave, 320, 8000), threads=Kind(threads, 180, 5000), clients=Kind(clients, 60, 400), stress=Kind(stress, 84, 840))
assert os.name == "posix"
