import io
import itertools
import json
import os
import re
import subprocess
import sys
import threading
import time

from loguru import logger

from diamondback import Log
from vm.engine import REPO, Kind

RULE = ("Each case runs writer, redirector and level threads against Log, with random delays injected into the streams and around every call Log makes of "
        "its logging backend, or between the lines Log itself executes, and a very short thread switch interval, records the logical start and end of every operation, and checks the streams "
        "offline: each entry exactly once, whole, in thread order, and in a stream admissible for its interval. Signatures are the order in which operations "
        "started and ended (the interleaving observed).")
ASSUMPTIONS = ["threads share the interpreter lock; interleavings are those reached by the injected delays and thread switches, counted in distinct_nontrivial",
               "a run that has not finished after 60 s counts as deadlocked"]
REACH = ("overlap of writes", "overlap of redirections", "write during redirection", "levels changed", "several streams", "one stream", "exception entries", "delays injected",
         "certain entry", "certain suppression", "either way", "first write race", "first write races with redirection", "torn writes offered", "preempted between lines")
LEVELS = dict(Critical=50, Error=40, Warning=30, Success=25, Info=20, Debug=10, Trace=5)
LINE = re.compile(r"^\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d\.\d\d[+-]\d\d:\d\d ([A-Z]+) (.*)$")


class Slow:
    """A stream that gives other threads a chance between the pieces of one write."""

    def __init__(self, rng, pace):
        self.parts, self.seed, self.pace = [], int(rng.integers(1, 2**31)), pace

    def write(self, s):
        self.seed = (self.seed * 1103515245 + 12345) % 2**31
        k = 1 + self.seed % max(1, len(s) - 1)
        if self.seed % 3 == 0 and self.pace:
            self.parts.append(s[:k])
            time.sleep(self.pace)
            self.parts.append(s[k:])
        else:
            self.parts.append(s)
        return len(s)

    def flush(self):
        pass

    def getvalue(self):
        return "".join(self.parts)


class Delays:
    """Pauses before and after each call Log makes of the backend: at random, and always at one point chosen for the case."""

    def __init__(self, rng, pace):
        self.seed, self.pace, self.count = int(rng.integers(1, 2**31)), pace, 0
        self.saved = {}
        self.hot = [None, "+add", "-add", "-add", "+remove", "-remove", "+log", "-log", "+level"][rng.integers(0, 9)]
        self.linger = 2e-4 if self.hot and self.hot[1:] in ("log", "level") else float(rng.choice([1e-3, 4e-3]))

    def pause(self, point):
        self.seed = (self.seed * 1103515245 + 12345) % 2**31
        if point == self.hot:
            self.count += 1
            time.sleep(self.linger)
        elif self.seed % 4 == 0:
            self.count += 1
            time.sleep(self.pace * (self.seed % 7) / 7.0)

    def __enter__(self):
        for name in ("add", "remove", "log", "level"):
            fn = getattr(logger, name)

            def call(*a, _fn=fn, _name=name, **k):
                self.pause("+" + _name)
                try:
                    return _fn(*a, **k)
                finally:
                    self.pause("-" + _name)

            setattr(logger, name, call)
            self.saved[name] = fn
        return self

    def __exit__(self, *_):
        for name in self.saved:
            delattr(logger, name)


class Preempt:
    """Pauses between the lines Log executes, in every thread but the main one: at random, or always for a while at one of them."""

    FILE = os.path.join(REPO, "diamondback", "commons", "log.py")

    def __init__(self, rng):
        self.seed, self.count, self.rate = int(rng.integers(1, 2**31)), 0, int(rng.choice([3, 10, 30]))
        self.offset, self.pace = int(rng.integers(0, 40)), float(rng.choice([1e-5, 2e-4, 1e-3]))

    def line(self, frame, event, _):
        if event != "call":
            self.seed = (self.seed * 1103515245 + 12345) % 2**31
            # A point of a function is hot when its place among the lines executed is the one chosen.
            if (self.seed >> 8) % self.rate == 0 or (frame.f_lineno - frame.f_code.co_firstlineno) % 40 == self.offset and self.count < 400:
                self.count += 1
                time.sleep(self.pace)
        return self.line

    def __call__(self, frame, event, arg):
        return self.line if frame.f_code.co_filename == self.FILE else None


def schedule(ctx, preempt=None):
    rng = ctx.rng
    pace = float(rng.choice([0.0, 1e-4, 1e-3]))
    streams = [Slow(rng, pace) for _ in range(int(rng.choice([1, 2, 3, 5])))]
    nw, nr, nl = int(rng.integers(2, 9)), int(rng.choice([0, 1, 1, 2, 3])), int(rng.choice([0, 0, 1, 2]))
    per = int(rng.integers(5, 30))
    floor = list(LEVELS)[rng.integers(1, 6)]
    spread = [v for v in LEVELS if abs(list(LEVELS).index(v) - list(LEVELS).index(floor)) <= 1]
    Log.level(floor)
    Log.stream(streams[0])
    clock = itertools.count()
    trace, failures = [], []
    gate = threading.Barrier(nw + nr + nl)
    plans = []

    def body(name, plan):
        try:
            gate.wait(30)
            sys.settrace(preempt)
            for kind, arg, payload, rest in plan:
                a = next(clock)
                if kind == "write":
                    Log.write(arg, payload)
                elif kind == "stream":
                    Log.stream(streams[arg])
                else:
                    Log.level(arg)
                b = next(clock)
                trace.append((kind, arg, payload, a, b, name))
                if rest:
                    time.sleep(rest)
        except Exception as ex:
            failures.append(f"{name}: {type(ex).__name__} {ex}")
        finally:
            sys.settrace(None)

    def rest():
        return float(rng.choice([0.0, 0.0, 0.0, pace]))

    for i in range(nw):
        plan = []
        for j in range(per):
            v = list(LEVELS)[rng.integers(0, 7)]
            payload = f"w{i}n{j} " + "x" * int(rng.integers(0, 60)) + f" end{j}"
            if rng.uniform() < 0.1:
                payload = ValueError(payload)
                ctx.tag("exception entries")
            plan.append(("write", v, payload, rest()))
        plans.append((f"writer {i}", plan))
    for i in range(nr):
        plans.append((f"redirector {i}", [("stream", int(rng.integers(0, len(streams))), None, rest()) for _ in range(int(rng.integers(2, 12)))]))
    for i in range(nl):
        plans.append((f"level {i}", [("level", spread[rng.integers(0, len(spread))], None, rest()) for _ in range(int(rng.integers(2, 12)))]))
    switch = sys.getswitchinterval()
    threads = [threading.Thread(target=body, args=p, daemon=True) for p in plans]
    t0 = time.monotonic()
    try:
        sys.setswitchinterval(float(rng.choice([1e-6, 1e-5, 1e-3])))
        with Delays(rng, pace) as delays:
            for t in threads:
                t.start()
            for t in threads:
                t.join(max(0.1, 60.0 - (time.monotonic() - t0)))
            ctx.ok(not any(t.is_alive() for t in threads), "every call returns (no deadlock)", waiting=[t.name for t in threads if t.is_alive()])
    finally:
        sys.setswitchinterval(switch)
    ctx.ok(not failures, "no call raises because of concurrency", failures=failures[:3])
    Log.stream(io.StringIO())
    if delays.count or pace:
        ctx.tag("delays injected")
    if preempt and preempt.count:
        ctx.tag("preempted between lines")
    check(ctx, streams, floor, spread if nl else [floor], trace)
    trace.sort(key=lambda e: e[3])
    order = sorted([(e[3], e[5], "+") for e in trace] + [(e[4], e[5], "-") for e in trace])
    ctx.sig("".join(f"{n[0]}{n.split()[1]}{s}" for _, n, s in order))
    ctx.tag("several streams" if len(streams) > 1 else "one stream", *(["levels changed"] if nl else []), "torn writes offered")
    ctx.note(writers=nw, redirectors=nr, level_threads=nl, streams=len(streams), entries=nw * per, pace=pace, injected_pauses=delays.count)


def lines(ctx):
    """The same with pauses between the lines Log executes."""
    schedule(ctx, Preempt(ctx.rng))


def check(ctx, streams, floor, levels, trace):
    """The offline checker over the recorded operations and the contents of the streams."""
    writes = [e for e in trace if e[0] == "write"]
    moves = [("stream", 0, None, -2, -1, "main")] + [e for e in trace if e[0] == "stream"]
    ctx.event(len(trace))
    text = lambda p: f"Exception = {type(p).__name__} {p}" if isinstance(p, Exception) else p
    known = {text(e[2]): e for e in writes}
    ctx.ok(len(known) == len(writes), "harness: entries are distinct")
    where = {}
    last = {}
    for k, s in enumerate(streams):
        body = s.getvalue()
        ctx.ok(not body or body.endswith("\n"), "stream ends with a whole line", tail=body[-80:])
        for line in body.splitlines():
            ctx.checks += 1
            m = LINE.match(line)
            if not m or m.group(2) not in known:
                ctx.fail("a line is not an entry (torn, interleaved or foreign)", line=line[:200])
            e = known[m.group(2)]
            ctx.ok(m.group(1) == e[1].upper(), "entry carries its level", line=line[:120], level=e[1])
            ctx.ok(m.group(2) not in where, "entry appears once", line=line[:120], streams=(where.get(m.group(2)), k))
            where[m.group(2)] = k
            ctx.ok(last.get((k, e[5]), -1) < e[3], "entries of a thread keep their order within a stream", line=line[:120], thread=e[5])
            last[(k, e[5])] = e[3]
    low, high = min(LEVELS[v] for v in levels), max(LEVELS[v] for v in levels)
    changes = [("level", floor, None, -2, -1, "main")] + [e for e in trace if e[0] == "level"]
    for e in writes:
        n = LEVELS[e[1]]
        # Levels possibly in force during the call: those not certainly replaced before it began, nor begun after it ended.
        force = [c for c in changes if c[3] < e[4] and not any(d[3] > c[4] and d[4] < e[3] for d in changes)]
        lo, hi = min(LEVELS[c[1]] for c in force), max(LEVELS[c[1]] for c in force)
        t = text(e[2])
        if n >= hi:
            ctx.ok(t in where, "an entry at or above every level in force appears", entry=t[:60], level=e[1], thread=e[5])
            ctx.tag("certain entry")
        elif n < lo:
            ctx.ok(t not in where, "an entry below every level in force does not appear", entry=t[:60], level=e[1])
            ctx.tag("certain suppression")
        else:
            ctx.tag("either way")
        if t in where:
            force = {c[1] for c in moves if c[3] < e[4] and not any(d[3] > c[4] and d[4] < e[3] for d in moves)}
            ctx.ok(where[t] in force, "an entry begun after a redirection returned appears in the new stream", entry=t[:60], found=where[t], admissible=sorted(force))
    overlap = lambda a, b: any(u[3] < v[4] and v[3] < u[4] for u in a for v in b if u is not v)
    ctx.tag(*(["overlap of writes"] if overlap(writes[:60], writes[:60]) else []), *(["overlap of redirections"] if overlap(moves, moves) else []),
            *(["write during redirection"] if overlap(writes, moves[1:]) else []))
    assert low <= high


SCRIPT = """
import io, itertools, json, sys, threading, time
sys.path.insert(0, {repo!r})
from diamondback import Log
from loguru import logger
def slow(fn, before, after):
    def call(*a, **k):
        time.sleep(before)
        v = fn(*a, **k)
        time.sleep(after)
        return v
    return call
logger.add = slow(logger.add, {pace}, {rest})
logger.remove = slow(logger.remove, {pace}, {rest})
sys.setswitchinterval(1e-6)
gate = threading.Barrier({n} + {moves})
clock = itertools.count()
trace = []
streams = [io.StringIO() for _ in range({moves})]
def body(i):
    gate.wait()
    for j in range({m}):
        a = next(clock)
        Log.write("Info", f"w{{i}}n{{j}}")
        trace.append((f"w{{i}}n{{j}}", a, next(clock)))
        time.sleep({pause})
def move(i):
    gate.wait()
    time.sleep({late})
    a = next(clock)
    Log.stream(streams[i])
    trace.append((i, a, next(clock)))
threads = [threading.Thread(target=body, args=(i,)) for i in range({n})] + [threading.Thread(target=move, args=(i,)) for i in range({moves})]
for t in threads: t.start()
for t in threads: t.join()
sys.stdout.flush()
print("TRACE" + json.dumps(dict(trace=trace, streams=[s.getvalue() for s in streams])))
"""


def first(ctx):
    """The very first entries of a process, written by several threads at once, while others may redirect."""
    rng = ctx.rng
    n, m, moves = int(rng.integers(1, 8)), int(rng.integers(1, 6)), int(rng.choice([0, 1, 1, 2]))
    pace, rest = (float(rng.choice([0.0, 0.005, 0.02])) for _ in range(2))
    script = SCRIPT.format(repo=REPO, n=n, m=m, moves=moves, pace=pace, rest=rest, late=float(rng.choice([0.0, 0.002, 0.01, 0.03])), pause=float(rng.choice([0.0, 0.005])))
    r = subprocess.run([sys.executable, "-c", script], capture_output=True, timeout=120, env=dict(os.environ))
    ctx.ok(r.returncode == 0, "process completes", stderr=r.stderr.decode()[-300:])
    ctx.ok(not r.stderr, "nothing appears elsewhere", stderr=r.stderr.decode()[-300:])
    out, _, rec = r.stdout.decode().partition("TRACE")
    rec = json.loads(rec)
    texts = [out] + rec["streams"]
    where, order = {}, []
    for k, body in enumerate(texts):
        for line in body.splitlines():
            v = LINE.match(line)
            ctx.ok(v, "every line is an entry", line=line)
            ctx.ok(v.group(2) not in where, "each first entry appears exactly once", entry=v.group(2), streams=(where.get(v.group(2)), k))
            where[v.group(2)] = k
            order.append((k, v.group(2)))
    writes = {e[0]: e for e in rec["trace"] if isinstance(e[0], str)}
    changes = [(0, -2, -1)] + [(e[0] + 1, e[1], e[2]) for e in rec["trace"] if not isinstance(e[0], str)]
    ctx.event(len(where))
    ctx.ok(sorted(where) == sorted(writes), "each first entry appears exactly once", missing=sorted(set(writes) - set(where)))
    for w, (_, a, b) in writes.items():
        force = {c[0] for c in changes if c[1] < b and not any(d[1] > c[2] and d[2] < a for d in changes)}
        ctx.ok(where[w] in force, "an entry begun after a redirection returned appears in the new stream", entry=w, found=where[w], admissible=sorted(force))
    for k in range(len(texts)):
        for i in range(n):
            own = [int(w.split("n")[1]) for s, w in order if s == k and w.startswith(f"w{i}n")]
            ctx.ok(own == sorted(own), "entries of a thread keep their order", thread=i, got=own)
    ctx.tag("first write race", *(["first write races with redirection"] if moves else []))
    ctx.note(threads=n, entries=m, redirections=moves)
    ctx.sig(order)


KINDS = dict(schedule=Kind(schedule, 320, 6000), lines=Kind(lines, 160, 4000), first=Kind(first, 60, 400))
