#!/usr/bin/env python3
"""Writes DESIGN.md (run by hand, after the checks were run on the unchanged tree)."""
import json, sys, textwrap, importlib, subprocess
from pathlib import Path
ROOT = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT)); sys.dont_write_bytecode = True
P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, why=why, mech=mech, technique=technique, note=note, na=na, qtext=qtext))
exec((ROOT / "tools" / "proptable.py").read_text())
exec((ROOT / "tools" / "design_text.py").read_text())
w = lambda s: "\n".join(textwrap.wrap(s, 150))
out = [HEAD, "\n## 2. Properties\n"]
K = json.loads((ROOT / "known_findings.json").read_text())["findings"]
seeds = []
for d in sorted([*(ROOT / "seeded").iterdir(), *(ROOT / "planted").iterdir()], key=lambda d: d.name):
    m = json.loads((d / "meta.json").read_text()); m["id"] = d.name; seeds.append(m)
for p in P:
    f = ROOT / "checks" / f"{p['id'].lower()}.py"
    out.append(f"### {p['id']} {p['title']}\n")
    if p["na"]:
        out.append(f"**Not applicable.** {p['na']}\n"); continue
    mod = importlib.import_module(f"checks.{p['id'].lower()}")
    ev = json.loads((ROOT / "evidence" / f"{p['id']}.json").read_text())
    c = ev["coverage"]; c = c[0] if isinstance(c, list) else c
    out.append("*Property.* " + p["statement"] + "\n")
    out.append("*Quantified over* " + p["qtext"] + ". *Why tests cannot settle it:* " + p["why"] + "\n")
    out.append("*Deciding method* (" + p["technique"] + "). " + mod.EXPLANATION + "\n")
    out.append("*Rules* (the oracle):\n")
    for r, t in c["rules"].items():
        out.append(f"* `{r}`: {t}")
    out.append("")
    out.append("*Analysed on the current tree:* " + ", ".join(f"{k.replace('_', ' ')} {v}" for k, v in c["analysed"].items()) + f"; {c['self_tests']} self-tests; {ev['wall_s']:.0f} s.\n")
    if mod.ASSUMPTIONS:
        out.append("*Assumptions:* " + "; ".join(mod.ASSUMPTIONS) + ".\n")
    out.append("*Bounds and limits:* " + UNDECIDED.get(p["id"], "none beyond the assumptions.") + "\n")
    s = [m["id"] for m in seeds if m["property"] == p["id"]]
    n = sum(1 for k in K if k["property"] == p["id"] and k["status"] == "known"); x = sum(1 for k in K if k["property"] == p["id"] and k["status"] == "fixed")
    out.append(f"*Planted bugs:* {', '.join(s) or 'none'}. *Known findings:* {n}. *Repaired defects:* {x}.\n")
out.append(DECISIONS)
out.append("## 4. Known findings\n\nGenuine defects that were recorded rather than repaired (construct, then what fails); full text in `known_findings.json`.\n")
for k in K:
    if k["status"] == "known":
        out.append(f"* **{k['property']}** `{k['key']}`: {k['what']}")
out.append("\n## 5. Repaired defects\n\nOne `fix:` commit each in /repo; the check that found it reports it again if it returns.\n")
log = dict(l.split(" ", 1) for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines())
for k in K:
    if k["status"] == "fixed":
        out.append(f"* **{k['property']}** {k.get('commit', '')} {k['what']}")
out.append("\n## 6. Planted bugs\n\nEach was written from a property's text and the code, and confirmed in a scratch copy: demonstration 0 without and non-zero with the change, build and stable tests unaffected. "
           "`check` is the check that reports it.\n\n| id | check | what breaks | needs | history |\n|---|---|---|---|---|")
for m in seeds:
    out.append(f"| {m['id']} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {HISTORY.get(m['id'], 'caught')} |")
out.append("\n" + TAIL)
(ROOT / "DESIGN.md").write_text("\n".join(out))
