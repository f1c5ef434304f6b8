"""writes MANIFEST.json: every property with a contracts module is claimed"""
import json
import importlib
import sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
NOTE = ("Deductive: pyded (a weakest-precondition style symbolic executor over the AST of /repo's current source) generates the "
        "obligations of the sidecar contracts in contracts/, z3 discharges them, for all inputs and all loop iterations. "
        "Trusted: pyded and its library axioms, listed in the evidence file. A bounded search on the real code (replay/) runs "
        "alongside to give failing inputs; it is never counted as proof. ")
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for p in props:
    i = p["id"]
    if (V / "contracts" / f"{i.lower()}.py").exists():
        m = importlib.import_module("contracts." + i.lower())
        checks.append(dict(property=i, quick_cmd=f"python3-vt check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3-vt check.py {i}",
                           evidence_file=f"evidence/{i}.json",
                           technique="contract-based deductive verification (sidecar contracts, symbolic VC generation on the real Python source, z3)",
                           level=getattr(m, "LEVEL", "proof"),
                           level_note=NOTE + getattr(m, "NOTE", "") + ("Bounded only, not proved: " + m.BOUNDED + "." if hasattr(m, "BOUNDED") else "")))
    else:
        na.append(dict(property=i, reason="contracts for this property are not finished yet; no check is claimed"))
json.dump(dict(version=1, setup_cmd="python3-vt -c 'import z3'", checks=checks, not_applicable=na,
               notes="No hooks: /repo carries only fix: commits. See DESIGN.md."), open(V / "MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
