"""addreg.py PROPERTY SUB NOTE < case.json: adds a (shrunk) case to the regression corpus."""
import json
import sys
from pathlib import Path

prop, sub, note = sys.argv[1:4]
p = Path(__file__).resolve().parent.parent / "regressions" / f"{prop}.json"
data = json.loads(p.read_text()) if p.exists() else []
case = json.load(sys.stdin)
if not any(d["sub"] == sub and d["case"] == case for d in data):
    data.append({"sub": sub, "case": case, "note": note})
    p.write_text(json.dumps(data, indent=1, sort_keys=False) + "\n")
print(len(data))
