"""Writes MANIFEST.json for the checks that exist."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent

TECH = {
    "C01": "property-based testing against an independent tensor reference (generated circuits + enumerated placements)",
    "C02": "property-based testing: differential against rho = U|0><0|U^dagger from an independent reference",
    "C03": "property-based testing of generated measured/conditioned circuits against a replaying reference model",
    "C04": "property-based testing: support, metamorphic and seeded-frequency oracles on generated states",
    "C05": "property-based testing against textbook definitions over generated parameters and contexts",
    "C06": "property-based testing: differential against an independent dense product, with edits between calls",
    "C07": "exhaustive small placements + generated ones against an independent construction",
    "C08": "property-based testing: generated (parametric) circuits wrapped and compared with the inlined reference",
    "C09": "property-based testing of generated binding histories against a symbolic reference model",
    "C10": "property-based testing: metamorphic, template application versus inlined operations",
    "C11": "stateful model-based testing of context histories with injected failures",
    "C12": "stateful model-based testing of register edits",
    "C13": "stateful property-based testing of set_state histories against an explicit model",
    "C14": "stateful model-based testing against a Python list model",
    "C15": "stateful model-based testing against a list of named variables",
    "C16": "stateful property-based testing, including full exhaustion of identifier spaces",
    "C17": "property-based testing: generated circuits exported and read by an independent OpenQASM interpreter",
    "C18": "property-based round-trip testing, text and bitcode",
    "C19": "property-based testing: generated circuits compiled and read by an independent QIR text parser",
    "C20": "grammar-based generation of QIR programs, compared with the generating model",
    "C21": "stateful property-based testing of module histories against a fresh-module reference",
    "C22": "property-based testing over generated class hierarchies",
    "C23": "generated programs: random kernels generated, compiled and compared with dense linear algebra",
    "C24": "property-based testing of operation construction, comparison and re-application",
    "C25": "property-based testing of generated QIR instructions against a model of their kind, and an independent QIR reader",
    "C26": "property-based testing of copying generated circuits, with edits and simulation of either afterwards",
    "C27": "differential property-based testing: generated histories run in fresh processes with and without unrelated steps",
}
NOTE = {
    "*": "Search over generated cases with shrinking; no violation found within the stated number of cases is not a proof. Trusts NumPy, Hypothesis and the reference model in checks/.",
}


def main():
    props = [json.loads(x) for x in (V / "properties.jsonl").read_text().splitlines()]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if (V / "checks" / f"{i.lower()}.py").exists():
            checks.append(
                {
                    "property": i,
                    "quick_cmd": f"./run.sh {i} quick",
                    "thorough_cmd": f"./run.sh {i} thorough",
                    "evidence_file": f"evidence/{i}.json",
                    "technique": TECH[i],
                    "level": "exploration",
                    "level_note": NOTE.get(i, NOTE["*"]),
                }
            )
        else:
            na.append({"property": i, "reason": "check not built yet"})
    man = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -m vf.build",
        "checks": checks,
        "not_applicable": na,
        "notes": "No hooks: the checks use the public API only. Extensions are rebuilt from /repo's "
        "working tree into the git-ignored .build/ directory.",
    }
    (V / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
    print(len(checks), "checks,", len(na), "not claimed")


main()
