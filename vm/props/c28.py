import datetime
import io
import os
import re
import subprocess
import sys
import tempfile

import numpy

from diamondback import Log
from vm.engine import REPO, Kind

RULE = ("Each case runs a random single-threaded sequence of level, stream and write operations (hostile messages, exceptions with random tracebacks, rejected "
        "levels and streams) with standard output and error captured, and matches the whole content of every stream entry by entry with the expected log. "
        "Fresh cases do so from the first operation of a new process. Signatures are the sequence of operations.")
ASSUMPTIONS = ["streams are text streams that are not terminals", "the time of an entry may differ by 0.05 s from the clock around the call"]
LEVELS = dict(Critical=50, Error=40, Warning=30, Success=25, Info=20, Debug=10, Trace=5)
STAMP = re.compile(r"(\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d\.\d\d[+-]\d\d:\d\d) ")
REACH = ("exception of several arguments", "written", "suppressed", "at the level", "redirected", "same stream again", "file", "memory", "custom stream", "false stream", "standard output", "standard error", "braces", "newline", "markup", "percent",
         "unicode", "empty message", "exception", "exception outside its handler", "nested exception", "deep traceback", "very deep traceback", "case", "rejected level", "rejected stream", "rejected write", "failing stream",
         "fresh process", "long message", "very long message", "random message", "space at the ends") + tuple(f"level {k}" for k in LEVELS)


class Custom:
    """A stream of another kind: write and nothing else."""

    def __init__(self):
        self.text = ""

    def write(self, s):
        self.text += s
        return len(s)

    def getvalue(self):
        return self.text


class Lines(list):
    """A stream that is also a list of what was written, and so false while empty."""

    def write(self, s):
        self.append(s)

    def getvalue(self):
        return "".join(self)


class File:
    """A file that is read back in full."""

    def __init__(self, path, mode):
        self.path = path
        self.file = open(path, mode, encoding="utf-8", newline="")

    def getvalue(self):
        self.file.flush()
        with open(self.path, encoding="utf-8", newline="") as f:
            return f.read()


def message(ctx):
    rng = ctx.rng
    v, tags = [("plain entry", ()), ("{} {0} {name} {{x}} {level} {message}", ("braces",)), ("%s %d %(x)s 100%", ("percent",)), ("<red>x</red> </level> <lvl>", ("markup",)),
               ("first\nsecond\n", ("newline",)), ("tab\there\r\nend", ("newline",)), ("\u00e9\u4e2d\U0001f600", ("unicode",)), ("", ("empty message",)),
               ("x" * 3000, ("long message",)), (" leading and trailing ", ()), ("2026-01-01T00:00:00.00+00:00 INFO fake", ()), ("\\n \\x1b[31m", ()), ("{", ("braces",)),
               ("}", ("braces",)), ("{!r:>10}", ("braces",))][rng.integers(0, 15)]
    if rng.uniform() < 0.03:
        n = int(10.0 ** rng.uniform(3.0, 5.5))
        v, tags = "".join(chr(c) for c in rng.integers(33, 127, n)).replace("\\", "/"), ("very long message",)
    elif rng.uniform() < 0.2:
        v, tags = "".join(chr(c) for c in rng.integers(32, 0x2000, int(rng.integers(1, 40))) if chr(c).isprintable()), ("random message",)
    v += f" #{ctx.idx}.{rng.integers(0, 10**9)}" if v and rng.uniform() < 0.8 else ""
    if rng.uniform() < 0.15:
        v = " " * int(rng.integers(0, 3)) + v * int(rng.integers(1, 8)) + str(rng.choice([" ", "   ", "\n", " \n\n", "\t", "\r\n", ".", "\0"]))
        tags = tags + ("space at the ends",)
    return v, tags


class Failure(Exception):
    pass


def thrower(depth, ex):
    if depth:
        thrower(depth - 1, ex)
    raise ex


def frames(ex):
    t, out = ex.__traceback__, []
    while t:
        out.append((os.path.basename(t.tb_frame.f_code.co_filename), t.tb_lineno))
        t = t.tb_next
    return out


def exception(ctx, level):
    """Writes an exception; returns the expected message."""
    rng = ctx.rng
    pool = ["text", "", "{brace} %s <red>", "a\nb", 7, None, 2.5, ("x",), b"b", {"k": 1}]
    args = [pool[i] for i in rng.integers(0, len(pool), int(rng.integers(0, 7)))] if rng.uniform() < 0.4 else [pool[rng.integers(0, 4)]]
    kind = [ValueError, KeyError, Failure, ZeroDivisionError, RuntimeError, OSError][rng.integers(0, 6)]
    ex = kind(*args[:2] if kind is OSError else args)
    if len(args) > 2:
        ctx.tag("exception of several arguments")
    depth = int(rng.integers(0, 5)) if rng.uniform() < 0.85 else int(rng.integers(5, 80))
    how = rng.integers(0, 4)
    ctx.tag("exception", *(["deep traceback"] if depth > 2 else []), *(["very deep traceback"] if depth > 20 else []))
    if how == 0:
        Log.write(level, ex)
        ctx.tag("exception outside its handler")
        return f"Exception = {type(ex).__name__} {ex}"
    try:
        thrower(depth, ex)
    except Exception as e:
        text = f"Exception = {type(ex).__name__} {ex}" + "".join(f" @ File = {f} Line = {n}" for f, n in frames(e))
        if how == 1:
            Log.write(level, e)
            return text
        if how == 2:
            try:
                thrower(1, IndexError("other"))
            except IndexError:
                Log.write(level, e)
            ctx.tag("nested exception")
            return text
    Log.write(level, ex)
    ctx.tag("exception outside its handler")
    return text


def match(ctx, name, content, entries):
    """content is the entries (level, message, before, after), one after the other and nothing else."""
    at = 0
    for i, (level, text, before, after) in enumerate(entries):
        ctx.checks += 1
        m = STAMP.match(content, at)
        want = f"{level.upper()} {text}\n"
        if not m:
            ctx.fail(f"{name}: entry {i} of {len(entries)} is missing or malformed", at=at, content=content[at : at + 120], expected=want[:120])
        when = datetime.datetime.fromisoformat(m.group(1))
        ctx.ok(before - datetime.timedelta(seconds=0.05) <= when <= after + datetime.timedelta(seconds=0.05), f"{name}: time of entry {i}", got=m.group(1), clock=str(before))
        if not content.startswith(want, m.end()):
            ctx.fail(f"{name}: entry {i} differs", got=content[m.end() : m.end() + 160], expected=want[:160])
        at = m.end() + len(want)
    ctx.ok(at == len(content), f"{name}: content beyond the {len(entries)} expected entries", extra=content[at : at + 200])


def now():
    return datetime.datetime.now(datetime.timezone.utc)


def cased(rng, s):
    return [s, s.upper(), s.lower(), s.swapcase()][rng.integers(0, 4)]


def history(ctx):
    rng = ctx.rng
    out, err = sys.stdout, sys.stderr
    with tempfile.TemporaryDirectory(prefix="verif-log-") as folder:
        streams = {"standard output": io.StringIO(), "standard error": io.StringIO(), "memory": io.StringIO(), "custom stream": Custom(), "false stream": Lines(),
                   "file": File(os.path.join(folder, "a.log"), "w"), "second file": File(os.path.join(folder, "b.log"), "a")}
        sink = lambda n: sys.stdout if n == "standard output" else sys.stderr if n == "standard error" else streams[n].file if "file" in n else streams[n]
        want = {n: [] for n in streams}
        sys.stdout, sys.stderr = streams["standard output"], streams["standard error"]
        log = []
        try:
            names = list(streams)
            current = names[rng.integers(0, len(names))]
            Log.stream(sink(current))
            level = list(LEVELS)[rng.integers(0, 7)]
            Log.level(level)
            for _ in range(int(rng.integers(5, 40))):
                k = rng.uniform()
                if k < 0.1:
                    level = list(LEVELS)[rng.integers(0, 7)]
                    Log.level(cased(rng, level))
                    ctx.tag("case")
                    log.append(("level", level))
                elif k < 0.2:
                    new = current if rng.uniform() < 0.2 else names[rng.integers(0, len(names))]
                    ctx.tag("same stream again" if new == current else "redirected")
                    current = new
                    Log.stream(sink(current))
                    log.append(("stream", current))
                elif k < 0.24:
                    bad = str(rng.choice(["", "Verbose", "Infos", "10", " info", "None"]))
                    ctx.raises(ValueError, f"level {bad!r}", Log.level, bad)
                    ctx.tag("rejected level")
                elif k < 0.28:
                    bad = [None, 0, "", object(), []][rng.integers(0, 5)]
                    ctx.raises(ValueError, f"stream {bad!r}", Log.stream, bad)
                    ctx.tag("rejected stream")
                elif k < 0.31:
                    bad = str(rng.choice(["", "Verbose", "Infos", "10", " info"]))
                    ctx.raises(ValueError, f"write at {bad!r}", Log.write, bad, "must not appear")
                    ctx.tag("rejected write")
                elif k < 0.33:
                    try:
                        Log.stream(type("Odd", (), {"write": None})())
                        Log.stream(sink(current))
                    except Exception:
                        pass
                    ctx.tag("failing stream")
                else:
                    v = list(LEVELS)[rng.integers(0, 7)]
                    before = now()
                    if rng.uniform() < 0.2:
                        text = exception(ctx, cased(rng, v))
                    else:
                        text, tags = message(ctx)
                        Log.write(cased(rng, v), text)
                        ctx.tag(*tags)
                    ctx.event()
                    ctx.tag(f"level {v}")
                    if LEVELS[v] >= LEVELS[level]:
                        want[current].append((v, text, before, now()))
                        ctx.tag("written", current, *(["at the level"] if v == level else []))
                    else:
                        ctx.tag("suppressed")
                    log.append((v, text[:20]))
            for n in names:
                match(ctx, n, streams[n].getvalue(), want[n])
        finally:
            Log.stream(io.StringIO())
            sys.stdout, sys.stderr = out, err
            for n in streams:
                if "file" in n:
                    streams[n].file.close()
    ctx.note(operations=len(log), written=sum(map(len, want.values())), first=log[:4])
    ctx.sig(log)


SCRIPT = """
import io, sys
sys.path.insert(0, {repo!r})
from diamondback import Log
for op, arg, text in {ops!r}:
    if op == "level":
        Log.level(arg)
    elif op == "stream":
        Log.stream(sys.stderr if arg == "err" else sys.stdout)
    else:
        Log.write(arg, text)
"""


def fresh(ctx):
    """The defaults: level Info, standard output, nothing elsewhere."""
    rng = ctx.rng
    ops, level, current = [], "Info", "out"
    want = {"out": [], "err": []}
    before = now()
    for i in range(int(rng.integers(2, 9))):
        k = rng.uniform() if i else 0.9
        if k < 0.15:
            level = list(LEVELS)[rng.integers(0, 7)]
            ops.append(("level", level, ""))
        elif k < 0.3:
            current = str(rng.choice(["out", "err"]))
            ops.append(("stream", current, ""))
        else:
            v = list(LEVELS)[rng.integers(0, 7)]
            text = f"entry {i} {{x}}"
            ops.append(("write", cased(rng, v), text))
            if LEVELS[v] >= LEVELS[level]:
                want[current].append([v, text])
    if rng.uniform() < 0.5:
        ops.insert(0, ("level", "Info", ""))
    r = subprocess.run([sys.executable, "-c", SCRIPT.format(repo=REPO, ops=ops)], capture_output=True, timeout=120, env=dict(os.environ))
    ctx.ok(r.returncode == 0, "fresh process completes", stderr=r.stderr.decode()[-300:])
    after = now()
    ctx.event(len(ops))
    for n, content in (("out", r.stdout), ("err", r.stderr)):
        match(ctx, f"standard {n} of a fresh process", content.decode("utf-8"), [(v, t, before, after) for v, t in want[n]])
    ctx.tag("fresh process")
    ctx.note(operations=ops)
    ctx.sig(ops)


KINDS = dict(history=Kind(history, 400, 8000), fresh=Kind(fresh, 16, 160))
