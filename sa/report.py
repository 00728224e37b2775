"""Findings, known-findings handling, evidence and exit codes."""
import json
import os
import sys
import time
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
KNOWN = VERIF / "known_findings.json"


class Finding:
    def __init__(self, rule, construct, loc, message):
        self.rule, self.construct, self.loc, self.message = rule, construct, loc, message

    @property
    def key(self):
        return f"{self.rule}|{self.construct}"


class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.findings = []
        self.counts = {}
        self.rules = {}
        self.samples = {}
        self.floor_errors = []
        self.selftests = 0
        self.notes = []

    def rule(self, name, text):
        self.rules[name] = text

    def add(self, rule, construct, loc, message):
        f = Finding(rule, construct, loc, message)
        if not any(x.key == f.key for x in self.findings):
            self.findings.append(f)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, name, text, limit=8):
        s = self.samples.setdefault(name, [])
        if len(s) < limit:
            s.append(text)

    def floor(self, name, minimum):
        """the analysis must have looked at a non-trivial number of instances"""
        if self.counts.get(name, 0) < minimum:
            self.floor_errors.append(f"{name}: analysed {self.counts.get(name, 0)}, expected at least {minimum}")

    def finish(self, explanation, assumptions=()):
        known = {}
        if KNOWN.exists():
            for e in json.loads(KNOWN.read_text())["findings"]:
                if e["property"] == self.pid and e.get("status") == "known":
                    known[e["key"]] = e
        new = [f for f in self.findings if f.key not in known]
        old = [f for f in self.findings if f.key in known]
        outdir = VERIF / "evidence"
        outdir.mkdir(exist_ok=True)
        replay = outdir / f"{self.pid}.findings.txt"
        lines = []
        for f in new:
            lines.append(f"[{f.rule}] {f.loc}: {f.message}\n    construct: {f.construct}")
        replay.write_text("\n".join(lines) + ("\n" if lines else ""))
        cov = {
            "explanation": explanation,
            "rules": self.rules,
            "analysed": self.counts,
            "samples": [f"{k}: {x}" for k, v in sorted(self.samples.items()) for x in v] + [f"rule {k}: {v}" for k, v in sorted(self.rules.items())],
            "self_tests": self.selftests,
            "known_findings_present": [f.key for f in old],
            "notes": self.notes,
        }
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": cov,
            "assumptions": list(assumptions),
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(new),
        }
        (outdir / f"{self.pid}.json").write_text(json.dumps(ev, indent=1, sort_keys=True) + "\n")
        print(f"{self.pid} analysed: " + ", ".join(f"{k}={v}" for k, v in sorted(self.counts.items())))
        for f in old:
            print(f"KNOWN-FINDING: property={self.pid} [{f.rule}] {f.loc}: {f.message}")
        for f in new:
            print(f"  [{f.rule}] {f.loc}: {f.message}   <{f.construct}>")
        if new:
            print(f"VIOLATION property={self.pid} replay={replay}")
            return 1
        if self.floor_errors:
            for e in self.floor_errors:
                print(f"ANALYSIS-BROKEN property={self.pid} {e}")
            return 3
        print(f"OK property={self.pid} ({cov['self_tests']} self-tests, {len(self.rules)} rules, {ev['wall_s']} s)")
        return 0
