#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]: run one static check on the source in /repo (see DESIGN.md)."""
import argparse
import importlib
import os
import sys
import textwrap
import traceback
import warnings

warnings.filterwarnings("ignore", category=SyntaxWarning)
if os.environ.get("PYTHONHASHSEED") != "0":        # the order of sets is the same in every run
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from sa.model import Repo, AnchorMissing          # noqa: E402
from sa.report import Report                      # noqa: E402


def selftest(mod, rep):
    """known-bad (and known-good) miniature packages: every rule must still fire where it should, and only there"""
    for name, files, expected in getattr(mod, "SELFTESTS", ()):
        files = {k: textwrap.dedent(v) for k, v in files.items()}
        mini = Report(rep.pid, rep.tier)
        mod.run(Repo(files=files), mini)
        got = {(f.rule, f.construct) for f in mini.findings}
        if got != set(expected):
            rep.floor_errors.append(f"self-test {name}: expected {sorted(expected)}, got {sorted(got)}")
        rep.selftests += 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--selftest", action="store_true", help="import every check and parse the package")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    if a.selftest or not a.property:
        names = sorted(p[:-3] for p in os.listdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
                       if p.startswith("p") and p[1:3].isdigit() and p.endswith(".py"))
        for n in names:
            importlib.import_module(f"checks.{n}")
        repo = Repo()
        print(f"{len(names)} checks, {len(repo.modules)} modules, {len(repo.classes)} classes, {len(repo.funcs)} functions")
        return 0
    mod = importlib.import_module(f"checks.{a.property.lower()}")
    rep = Report(a.property, a.tier)
    try:
        repo = Repo()
        mod.run(repo, rep)
        selftest(mod, rep)
    except AnchorMissing as e:
        print(f"ANALYSIS-BROKEN property={a.property}: anchor not found: {e}")
        return 3
    except Exception:
        traceback.print_exc()
        print(f"ANALYSIS-BROKEN property={a.property}: the analysis failed on this source")
        return 3
    return rep.finish(mod.EXPLANATION, getattr(mod, "ASSUMPTIONS", ()))


if __name__ == "__main__":
    sys.exit(main())
