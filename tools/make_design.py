"""Writes /verif/DESIGN.md: the head, one section per property from its module, and the table of planted bugs."""
import importlib, json, os, sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = ["/repo", here]
sys.dont_write_bytecode = True
out = [open(os.path.join(here, "tools", "design_head.md")).read(), "\n## Properties\n\nCase counts are quick / thorough; `Not judged` states trust and bounds. "
       "A quick run of all 36 checks takes about eight minutes on 8 cores, none more than 45 s; thorough runs stop at 780 s each.\n"]
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)
    m = importlib.import_module("vm.props." + p["id"].lower())
    counts = ", ".join(f"{k} {v.quick}/{v.thorough}" for k, v in m.KINDS.items())
    out.append(f"### {p['id']} {p['title']}\n\n* Monitor and oracle: {m.RULE}\n* Trust and bounds: {'; '.join(m.ASSUMPTIONS)}.\n* Cases: {counts}.\n"
               f"* Must reach: {', '.join(getattr(m, 'REACH', ())) or 'every workload compares something'}.\n* Beyond the tests: {p['why_tests_cant']}\n")
out.append("## Planted bugs and the checks that report them\n\n| change | property | needs | reported by |\n|---|---|---|---|")
caught = {}
for line in open(os.path.join(here, "tools", "caught.tsv")):
    k, v = line.rstrip("\n").split("\t", 1)
    caught[k] = v
for k in sorted(os.listdir(os.path.join(here, "seeded"))):
    meta = json.load(open(os.path.join(here, "seeded", k, "meta.json")))
    v = [w.split(":") for w in caught.get(k, "").split()]
    say = ", ".join(a for a, b in v if b == "caught") or "none"
    miss = ", ".join(a for a, b in v if b != "caught")
    out.append(f"| {k} | {meta['property']} | {meta['needs'].replace('|', '/')} | {say}{' (not by ' + miss + ')' if miss else ''} |")
open(os.path.join(here, "DESIGN.md"), "w").write("\n".join(out) + "\n")
