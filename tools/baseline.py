"""python3 tools/baseline.py: record the functions and constants of /repo in sa/baseline.json (see sa/inline.py)"""
import json
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent.parent))
from sa import inline          # noqa: E402
inline.baseline = lambda: None
from sa.model import Repo      # noqa: E402

inline.BASELINE.write_text(json.dumps(sorted(inline.described(Repo().modules)), indent=0) + "\n")
