"""Writes MANIFEST.json from the table of lib/props.py (run by hand; the output is committed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import props
NOTE = ("TLC checks the TLA+ model named in the evidence exhaustively within its bounds (in exact rational arithmetic) and decides, "
        "against the same definitions, every recorded call of the real code: generated histories (seeded) and, where the evidence says so, "
        "all behaviours TLC enumerated; floating-point rounding is excused only up to stated tolerances.")
checks = []
for pid in sorted(props.PROPS):
    checks.append({"property": pid, "quick_cmd": "python3 run.py %s quick" % pid, "thorough_cmd": "python3 run.py %s thorough" % pid,
                   "technique": "TLA+ specification checked with TLC; recorded traces of the real code validated against it by TLC",
                   "level": "model_checking", "level_note": NOTE})
json.dump({"version": 1, "setup_cmd": "python3 run.py setup",
           "hooks": {"guard": "GALS_VERIF_TRACE", "enable": "-DGALS_VERIF_TRACE -I/verif/harness when compiling applications/advection/main.cc (lib/engine.py)",
                     "source_commits": os.popen("git -C /repo log --format=%h --grep '^hook:'").read().split()},
           "checks": checks, "not_applicable": [],
           "notes": "Specification: spec/*.tla (TLA+, TLC). Driver: harness/. Generators and runner: lib/, run.py."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
