#!/opt/venv/bin/python
"""Plants the changes listed in tools/bugs*.py, each in a scratch worktree of /repo, and keeps in seeded/ those confirmed.

    plant.py [--no-check] [ID ...]

A change is confirmed when it applies to HEAD, replaces a line of the original tree, passes the stable tests, and its
demonstration exits 0 on the clean tree and nonzero with the change.  Whether the check of its property reports it is
recorded in tools/caught.tsv, whatever the answer.
"""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("PLANT_REPO", "/repo")
ORIGINAL = "37dcbe9"
PY = "/opt/venv/bin/python"
DEMO = '#!/bin/bash\n# Runs with cwd at the repository.\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" OMP_NUM_THREADS=1\nexec timeout 240 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def run(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", HOME="/root")
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout, stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def plant(bug, check=True):
    ident = bug["id"]
    tree = tempfile.mkdtemp(prefix="plant-%s-" % ident, dir="/tmp/pb")
    os.rmdir(tree)
    try:
        subprocess.run(["git", "-C", R, "worktree", "add", "-q", "--detach", tree, "HEAD"], check=True, capture_output=True)
        for file, old, new in bug["edits"]:
            path = os.path.join(tree, file)
            text = open(path).read()
            if text.count(old) != bug.get("times", 1):
                return ident, "EDIT %d matches in %s: %r" % (text.count(old), file, old[:60]), ""
            open(path, "w").write(text.replace(old, new))
        _, diff = run(["git", "diff"], tree)
        # a removed line must be of the original tree
        ok, probe = False, False
        for file in {e[0] for e in bug["edits"]}:
            _, blame = run(["git", "blame", "-s", "HEAD", "--", file], tree)
            blame = [b.split(")", 1)[0] + "|" for b in blame.splitlines()]
            orig = {i + 1 for i, b in enumerate(blame) if b.lstrip("^").startswith(ORIGINAL)}
            _, d0 = run(["git", "diff", "-U0", "--", file], tree)
            import re
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", d0, re.M):
                a, n = int(m[1]), int(m[2] or 1)
                if any(k in orig for k in range(a, a + n)):
                    ok = True
        if not ok:
            probe = True  # an insertion only: run the checks, keep nothing in seeded/
        work = os.path.join("/tmp/pb", "demo-" + ident)
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        open(os.path.join(work, "demo.py"), "w").write(bug["demo"].lstrip("\n"))
        open(os.path.join(work, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(work, "demo.sh"), 0o755)
        rc, out = run(["bash", work + "/demo.sh"], R)
        if rc:
            return ident, "DEMO-FAILS-CLEAN", out[-600:]
        rc, out = run(["bash", work + "/demo.sh"], tree)
        if not rc:
            return ident, "DEMO-PASSES-PATCHED", out[-600:]
        rc, out = run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--ignore=tests/unit/commons/test_rest_client.py", "tests"], tree, {"PYTHONPATH": tree})
        if rc:
            return ident, "TESTS-FAIL", out[-600:]
        where = os.path.join(V, "seeded", ident)
        shutil.rmtree(where, ignore_errors=True)
        if not probe:
            shutil.copytree(work, where)
            open(os.path.join(where, "patch.diff"), "w").write(diff)
        shutil.rmtree(work)
        probe or json.dump(dict(property=bug["property"], needs=bug["needs"], what_it_breaks=bug["breaks"]), open(os.path.join(where, "meta.json"), "w"), indent=1)
        verdict = []
        if check:
            for prop in [bug["property"]] + bug.get("also", []):
                rc, out = run(["bash", V + "/check.sh", prop], V, {"VERIF_REPO": tree, "VERIF_SEED": "1", "VERIF_TIER": "quick", "VERIF_JOBS": "4", "VERIF_EVIDENCE": "/tmp/pb/evidence", "VERIF_REPLAY": "/tmp/pb/replay"})
                verdict.append("%s:%s" % (prop, {0: "missed", 1: "caught"}.get(rc, "rc%d" % rc)))
                if rc == 1 and ("VIOLATION property=%s" % prop) not in out:
                    verdict[-1] = prop + ":noline"
        return ident, "OK " + " ".join(verdict) + (" probe" if probe else ""), ""
    finally:
        subprocess.run(["git", "-C", R, "worktree", "remove", "--force", tree], capture_output=True)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    bugs = []
    for f in sorted(glob.glob(os.path.join(V, "tools", "bugs*.py"))):
        spec = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        bugs += m.BUGS
    assert len({b["id"] for b in bugs}) == len(bugs), "duplicate id"
    os.makedirs("/tmp/pb", exist_ok=True)
    if args:
        bugs = [b for b in bugs if b["id"] in args or b["property"] in args]
    table = os.path.join(V, "tools", "caught.tsv")
    known = dict(l.rstrip("\n").split("\t", 1) for l in open(table)) if os.path.exists(table) else {}
    with ThreadPoolExecutor(int(os.environ.get("PLANT_JOBS", "2"))) as pool:
        for ident, status, detail in pool.map(lambda b: plant(b, "--no-check" not in sys.argv), bugs):
            print(ident, status, flush=True)
            if detail:
                print("   ", detail.replace("\n", "\n    "))
            if status.startswith("OK") and "--no-check" not in sys.argv:
                known[ident] = status[3:]
    open(table, "w").writelines("%s\t%s\n" % kv for kv in sorted(known.items()))


main()
