"""Runs the workloads of one property under its monitors and reports what they observed.

A property module defines KINDS: an ordered mapping of workload name to Kind.
A workload is a function of a Ctx; it drives the real code and hands what it
observed to the oracle methods of the Ctx, which raise Violation.  Every random
choice of case i of a workload comes from Ctx.rng, seeded by (VERIF_SEED,
property, workload, i), so a case is replayed by those four values alone.
"""

import concurrent.futures
import ctypes
import dataclasses
import importlib
import json
import multiprocessing
import os
import re
import resource
import signal
import sys
import time
import traceback
import warnings
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

import numpy  # noqa: E402


class Violation(Exception):
    """The monitored code broke the property."""


class HarnessError(Exception):
    """The monitors could not reach a verdict."""


class Stop(BaseException):
    """The CPU time limit of one case was reached."""


@dataclasses.dataclass
class Kind:
    run: object
    quick: int
    thorough: int
    cpu: float = 150.0  # CPU seconds one case may take before it counts as not returning
    isolated: bool = False  # run in the main process, one at a time (threads, servers)


def plain(x, depth=0):
    """A short JSON rendering of a value."""
    if isinstance(x, numpy.ndarray):
        if x.size > 6 or depth > 1:
            return f"{x.dtype}{list(x.shape)} {numpy.array2string(x.ravel()[:4], precision=4, floatmode='maxprec')}..."
        return plain(x.tolist(), depth + 1)
    if isinstance(x, numpy.generic):
        return plain(x.item())
    if isinstance(x, complex):
        return f"{x:.6g}"
    if isinstance(x, float):
        return float(f"{x:.9g}") if numpy.isfinite(x) else str(x)
    if isinstance(x, (bool, int, type(None))):
        return x
    if isinstance(x, dict):
        return {str(k): plain(v, depth + 1) for k, v in list(x.items())[:16]}
    if isinstance(x, (list, tuple)):
        return [plain(v, depth + 1) for v in list(x)[:10]] + (["..."] if len(x) > 10 else [])
    s = str(x)
    return s if len(s) <= 160 else s[:157] + "..."


class Ctx:
    """One case: its random source, its log of observations, and its oracles."""

    def __init__(self, prop, kind, idx, seed, tier):
        self.prop, self.kind, self.idx, self.seed, self.tier = prop, kind, idx, seed, tier
        self.rng = numpy.random.default_rng([seed, zlib.crc32(prop.encode()), zlib.crc32(kind.encode()), idx])
        self.events = 0
        self.checks = 0
        self.trivial = False
        self.info = {}
        self.tags = set()
        self.sigs = []

    # Recording.

    def note(self, **info):
        self.info.update(info)

    def tag(self, *tags):
        self.tags.update(str(t) for t in tags)

    def sig(self, *parts):
        """Identity of what this case did; equal signatures count once."""
        self.sigs.append(zlib.crc32(repr([plain(p) for p in parts]).encode()))

    def event(self, n=1):
        self.events += int(n)

    # Oracles.

    def fail(self, what, **detail):
        raise Violation(what + (" " + json.dumps(plain(detail)) if detail else ""))

    def ok(self, cond, what, **detail):
        self.checks += 1
        if not cond:
            self.fail(what, **detail)

    def close(self, what, got, want, tol, **detail):
        """got equals want to within tol (absolute, scalar or array), shape and finiteness included."""
        self.checks += 1
        try:
            g = numpy.asarray(got)
            if g.dtype == object:
                g = g.astype(complex)
        except Exception as ex:
            self.fail(f"{what}: result is not numeric ({ex})", got=repr(got)[:100], **detail)
        w = numpy.asarray(want)
        if g.shape != w.shape:
            self.fail(f"{what}: shape {g.shape} expected {w.shape}", **detail)
        if not g.size:
            return
        if g.dtype.kind not in "bifuc":
            self.fail(f"{what}: result type {g.dtype}", **detail)
        if not numpy.iscomplexobj(w) and numpy.iscomplexobj(g) and (numpy.abs(g.imag) > tol).any():
            self.fail(f"{what}: unexpected imaginary part", got=g, want=w, **detail)
        with numpy.errstate(all="ignore"):
            e = numpy.abs(g - w)
        bad = ~(e <= tol)
        if bad.any():
            ii = numpy.unravel_index(int(numpy.argmax(bad)), bad.shape)
            jj = tuple(int(v) for v in ii)
            t = numpy.broadcast_to(numpy.asarray(tol), e.shape)[ii]
            self.fail(f"{what}: differs at {jj}", got=g[ii], want=w[ii], error=float(e[ii]), tolerance=float(t),
                      different=int(bad.sum()), size=int(bad.size), **detail)

    def raises(self, exc, what, fn, *args, **kw):
        """fn must raise exc."""
        self.checks += 1
        self.event()
        try:
            y = fn(*args, **kw)
        except exc:
            return
        except Exception as ex:
            self.fail(f"{what}: raised {type(ex).__name__} {ex} expected {exc}")
        self.fail(f"{what}: accepted, returned {repr(y)[:120]}")


def _alarm(*_):
    raise Stop()


def run_case(mod, prop, kind, idx, seed, tier):
    """Runs one case and returns a verdict record."""
    k = mod.KINDS[kind]
    ctx = Ctx(prop, kind, idx, seed, tier)
    v, err = None, None
    main = signal.getsignal(signal.SIGPROF) is not None
    try:
        signal.signal(signal.SIGPROF, _alarm)
        signal.setitimer(signal.ITIMER_PROF, k.cpu)
    except ValueError:
        main = False
    try:
        with warnings.catch_warnings(record=True):
            warnings.simplefilter("always")
            with numpy.errstate(all="warn"):
                k.run(ctx)
    except Violation as ex:
        v = str(ex)
    except Stop:
        v = f"a call did not return within {k.cpu} s of CPU time"
    except (HarnessError, MemoryError) as ex:
        err = f"{type(ex).__name__} {ex}"
    except Exception as ex:
        tb = traceback.format_exc()
        if isinstance(ex, OSError) and f"{REPO}/diamondback" not in tb:
            err = tb
        else:
            at = [f for f in traceback.extract_tb(ex.__traceback__)][-3:]
            v = f"unexpected {type(ex).__name__}: {str(ex)[:200]} at " + " < ".join(
                f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in reversed(at))
    finally:
        if main:
            signal.setitimer(signal.ITIMER_PROF, 0.0)
    return dict(kind=kind, idx=idx, violation=v, error=err, events=ctx.events, checks=ctx.checks, info=ctx.info,
                tags=sorted(ctx.tags), sigs=ctx.sigs, trivial=ctx.trivial)


def _work(job):
    prop, kind, lo, hi, seed, tier, deadline = job
    mod = load(prop)
    out = []
    for idx in range(lo, hi):
        if time.time() > deadline:
            break
        out.append(run_case(mod, prop, kind, idx, seed, tier))
        if out[-1]["violation"]:
            break
    return out


def _init(parent):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # PR_SET_PDEATHSIG
    if os.getppid() != parent:
        os._exit(0)


def load(prop):
    return importlib.import_module(f"vm.props.{prop.lower()}")


def known(prop):
    """Known findings of a property: [(pattern, text)]."""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) case=(\S+) match=/(.*)/ (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def main(argv):
    prop = argv[0].upper()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    replay = None
    if len(argv) > 2 and argv[1] == "--replay":
        replay = json.load(open(argv[2]))
        seed, tier = replay["seed"], replay["tier"]
    import diamondback

    where = os.path.dirname(os.path.abspath(diamondback.__file__))
    if where != os.path.join(REPO, "diamondback"):
        print(f"ERROR diamondback imported from {where}, expected {REPO}/diamondback")
        return 2
    mod = load(prop)
    if replay:
        r = run_case(mod, prop, replay["kind"], replay["idx"], seed, tier)
        print(json.dumps(r, indent=1, default=str))
        return 1 if r["violation"] else 0
    t0 = time.time()
    budget = float(os.environ.get("VERIF_BUDGET", "150" if tier == "quick" else "780"))
    deadline = t0 + budget
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    jobs, records = [], []
    for name, k in mod.KINDS.items():
        n = max(1, int((k.quick if tier == "quick" else k.thorough) * scale))
        if k.isolated:
            continue
        size = max(1, min(64, n // 24))
        jobs += [(prop, name, lo, min(lo + size, n), seed, tier, deadline) for lo in range(0, n, size)]
    # Interleave the workloads so that a deadline cuts each of them alike.
    jobs.sort(key=lambda j: j[2] / max(1, int((getattr(mod.KINDS[j[1]], tier)) * scale)))
    if hasattr(mod, "prepare"):
        mod.prepare(seed, tier)
    if jobs:
        n = int(os.environ.get("VERIF_JOBS", str(min(8, os.cpu_count() or 1))))
        with concurrent.futures.ProcessPoolExecutor(n, multiprocessing.get_context("fork"), _init, (os.getpid(),)) as pool:
            for future in concurrent.futures.as_completed([pool.submit(_work, j) for j in jobs]):
                out = future.result()
                records += out
                if any(r["violation"] for r in out):
                    workers = list(pool._processes.values())
                    pool.shutdown(wait=False, cancel_futures=True)
                    for w in workers:
                        w.kill()
                    break
    for name, k in mod.KINDS.items():
        if k.isolated:
            n = max(1, int((k.quick if tier == "quick" else k.thorough) * scale))
            for idx in range(n):
                if time.time() > deadline:
                    break
                r = run_case(mod, prop, name, idx, seed, tier)
                records.append(r)
                if r["violation"]:
                    break
    return report(mod, prop, seed, tier, records, time.time() - t0)


def report(mod, prop, seed, tier, records, wall):
    errors = [r for r in records if r["error"]]
    found, listed = [], {}
    for r in sorted((r for r in records if r["violation"]), key=lambda r: (list(mod.KINDS).index(r["kind"]), r["idx"])):
        for case, pattern, text in known(prop):
            if case in (r["kind"], "*") and pattern.search(r["violation"]):
                listed[text] = listed.get(text, 0) + 1
                break
        else:
            found.append(r)
    kinds = {}
    sigs = set()
    tags = {}
    for r in records:
        c = kinds.setdefault(r["kind"], dict(cases=0, events=0, oracle_checks=0))
        c["cases"] += 1
        c["events"] += r["events"]
        c["oracle_checks"] += r["checks"]
        if not r["trivial"]:
            sigs.update((r["kind"], s) for s in r["sigs"])
        for t in r["tags"]:
            tags[t] = tags.get(t, 0) + 1
    samples = []
    for name in mod.KINDS:
        rs = [r for r in records if r["kind"] == name and r["info"] and not r["violation"]]
        for r in rs[:: max(1, len(rs) // 3)][:3]:
            samples.append(dict(workload=name, case=r["idx"], events=r["events"], oracle_checks=r["checks"], **plain(r["info"])))
    silent = [n for n in mod.KINDS if not kinds.get(n, {}).get("oracle_checks")]
    missing = [t for t in getattr(mod, "REACH", ()) if t not in tags]
    coverage = dict(
        evaluations=len(records),
        distinct_nontrivial=len(sigs),
        rule=mod.RULE,
        samples=samples,
        events_observed=sum(c["events"] for c in kinds.values()),
        oracle_checks=sum(c["oracle_checks"] for c in kinds.values()),
        workloads=kinds,
        situations_reached=dict(sorted(tags.items())),
        peak_memory_mb=resource.getrusage(resource.RUSAGE_SELF).ru_maxrss // 1024,
    )
    evidence = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=coverage,
                    assumptions=list(getattr(mod, "ASSUMPTIONS", ())), wall_s=round(wall, 3), violations=len(found))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)
    for text, n in listed.items():
        print(f"KNOWN-FINDING: property={prop} {text}")
    print(f"{prop} {tier} seed={seed}: {len(records)} cases, {len(sigs)} distinct, {coverage['events_observed']} events, "
          f"{coverage['oracle_checks']} oracle checks, {wall:.1f} s")
    if found:
        r = found[0]
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        path = os.path.join(VERIF, "replay", f"{prop}-{r['kind']}-{r['idx']}-{seed}.json")
        with open(path, "w") as f:
            json.dump(dict(property=prop, kind=r["kind"], idx=r["idx"], seed=seed, tier=tier, violation=r["violation"],
                           info=plain(r["info"]), command=f"bash check.sh {prop} --replay {path}"), f, indent=1, default=str)
        for r in found[:5]:
            print(f"  {r['kind']}[{r['idx']}]: {r['violation'][:600]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        print("ERROR no verdict:", errors[0]["kind"], errors[0]["idx"], errors[0]["error"])
        return 2
    if silent or missing:
        print(f"ERROR no verdict: monitors saw nothing in {silent} and never reached {missing}")
        return 2
    return 0
