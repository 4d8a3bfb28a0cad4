"""Write MANIFEST.json from the check modules that exist."""
import importlib, json, os, pathlib, sys
HERE = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(HERE)); sys.path.insert(0, "/repo/src")
PY = "/opt/venv/bin/python"
props = [json.loads(l) for l in (HERE / "properties.jsonl").read_text().splitlines() if l.strip()]
TECH = {
    "exploration": "bounded exhaustive exploration of the real code (every configuration and basis input of a finite space) against an explicit reference model",
    "model_checking": "explicit-state model checking: all operation histories up to a depth on the real objects, every step compared with a reference model",
    "fault_enumeration": "exhaustive fault injection: an exception at every tensor operation of every call history, follow-up calls compared with fresh objects",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if not (HERE / "mc" / "checks" / f"{i.lower()}.py").exists():
        na.append(dict(property=i, reason="check not built yet (work in progress)")); continue
    m = importlib.import_module(f"mc.checks.{i.lower()}")
    checks.append(dict(
        property=i,
        quick_cmd=f"VERIF_TIER=quick {PY} run.py {i}",
        thorough_cmd=f"VERIF_TIER=thorough {PY} run.py {i}",
        evidence_file=f"evidence/{i}.json",
        technique=getattr(m, "TECHNIQUE", TECH[m.LEVEL]),
        level=m.LEVEL,
        level_note=getattr(m, "NOTE", None) or (
            "Exhaustive within the stated bounds: " + " ".join(m.RULE.split())
            + " Assumes: " + "; ".join(m.ASSUMPTIONS) + "."),
    ))
man = dict(version=1, setup_cmd=f"{PY} tools/crosscheck_ref.py", checks=checks, not_applicable=na,
           notes="No hooks in /repo. Checks import ptwt from /repo/src; see DESIGN.md. Fixed and known findings: KNOWN_FINDINGS.json")
(HERE / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
print(len(checks), "checks,", len(na), "open")
