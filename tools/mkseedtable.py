"""Rewrites the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json."""
import glob
import json
import os

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {"matrix-shared": "none, on purpose (see above)"}
NOTE = {
    "mp-inherit": "after `deep`",
    "gen-controls-many": "after kernels got up to five controls",
    "eval-len": "after `circuit` evaluated with too few rows",
    "mp-swallow": "after properties raised other exceptions too",
    "sim-state-reuse": "after states read earlier were compared again",
    "exit-reset-first": "after a parametric template joined the histories",
    "qasm-creg-count": "after circuits without qubits were generated",
    "exit-functions": "after `history` binds circuits again in between",
    "get-first-register": "after the lookup sub",
    "loader-digit": "after the sub with up to 130 qubits",
    "reset-return": "after `set_return` joined the histories",
    "unitary-labels": "after labels were drawn equal",
    "sorted-str": "after `two-digits` (12-13 qubits)",
    "opset-trace": "after `completeness` got more ways of being wrong",
    "params-by-name": "after `many-variables`",
    "many-samples": "after the sub of the same name",
    "op-target-cache": "after `rounds`",
    "qasm-op-cache": "after `edited`",
    "state-keep-dm": "after `edited`",
    "from-qir-class": "after subclasses were loaded too",
    "loader-default-circuit": "after default arguments were used too",
    "exit-leftover": "after values of template variables joined the histories",
    "sim-subclass": "after measurements without bits",
    "reset-name": "after other module names",
    "qubits-precedence": "after that form of call",
    "extend-check-once": "after `extend-all`",
    "loader-ret-outside": "after helper functions were defined in programs",
    "params-list-only": "after parameters were given as registers",
    "mp-wrapped-sig": "after wrappers did more than they wrap",
    "custom-cache-id": "after `again`",
    "unitary-complex-eye": "after lowering the tolerance to 1e-10",
    "sample-qubits-neg": "after qubits were sampled twice",
    "qir-meas-block": "after instructions could be put into either block",
}
rows = []
for f in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    m, i = json.load(open(f)), os.path.basename(os.path.dirname(f))
    by = MISSED.get(i, m["property"] + (", " + NOTE[i] if i in NOTE else ""))
    rows.append((m["property"], f"| {i} | {m['what_it_breaks']} | {by} |"))
table = "\n".join(["| planted bug | what it breaks | caught by |", "|---|---|---|"] + [r for _, r in sorted(rows)])
p = os.path.join(root, "DESIGN.md")
t = open(p).read()
a, b = "<!-- seeds -->\n", "\n<!-- /seeds -->"
i, j = t.index(a) + len(a), t.index(b)
open(p, "w").write(t[:i] + table + t[j:])
print(len(rows))
