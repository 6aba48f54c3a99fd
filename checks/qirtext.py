"""An independent reader of QIR text (LLVM IR of the base profile), and QIR names of operations."""

from __future__ import annotations

import re
import struct

from vf.core import fail, require

# operation: (function name, needs an external declaration)
QIS = {
    "X": ("x", False), "Y": ("y", False), "Z": ("z", False), "Hadamard": ("h", False),
    "S": ("s", False), "T": ("t", False), "RX": ("rx", False), "RY": ("ry", False),
    "RZ": ("rz", False), "CX": ("cnot", False), "CZ": ("cz", False),
    "Rotation": ("rot", True), "CY": ("cy", True), "SWAP": ("swap", True),
    "CHadamard": ("ch", True), "CRX": ("crx", True), "CRY": ("cry", True), "CRZ": ("crz", True),
    "CRotation": ("crot", True), "CSWAP": ("cswap", True), "CCX": ("ccnot", True),
}
BASE = [g for g in QIS if not QIS[g][1]]
EXTERNAL = [g for g in QIS if QIS[g][1]]


def qis(name):
    return f"__quantum__qis__{name}__body"


def split_args(text):
    out, depth, cur = [], 0, ""
    for ch in text:
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
            continue
        depth += (ch in "([{") - (ch in ")]}")
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def parse_value(text):
    """(type, value) of a constant operand."""
    t = text.replace(" writeonly", "").replace(" nonnull", "").replace(" noundef", "")
    m = re.fullmatch(r"double\s+(\S+)", t)
    if m:
        v = m.group(1)
        if v.startswith("0x"):
            return "double", struct.unpack(">d", bytes.fromhex(v[2:].rjust(16, "0")))[0]
        return "double", float(v)
    m = re.fullmatch(r"%(Qubit|Result)\*\s+null", t)
    if m:
        return m.group(1), 0
    m = re.fullmatch(r"%(Qubit|Result)\*\s+inttoptr \(i64 (\d+) to %(Qubit|Result)\*\)", t)
    if m and m.group(1) == m.group(3):
        return m.group(1), int(m.group(2))
    m = re.fullmatch(r"i8\*\s+null", t)
    if m:
        return "i8*", None
    m = re.fullmatch(r"(i64|i32|i1)\s+(-?\d+|true|false)", t)
    if m:
        return m.group(1), {"true": 1, "false": 0}.get(m.group(2)) if m.group(2)[0] in "tf" else int(m.group(2))
    fail(f"operand {text!r} is not understood")


def parse_type(text):
    t = re.sub(r"\s+(writeonly|readonly|nonnull|noundef)\b", "", text.strip())
    return {"double": "double", "%Qubit*": "Qubit", "%Result*": "Result"}.get(t, t)


class Qir:
    def __init__(self, text, void=True):
        self.void = void  # functions return nothing
        self.declared = {}
        self.returns = {}
        self.calls = []  # (function, [(type, value)]) in order of execution
        self.blocks = {}  # label: [(kind, ...)]
        self.order = []
        self.flags = {}
        self.attrs = {}
        self.entry = None
        self.ret = None  # the returned value
        self.sequence = []  # labels in order of execution
        self._parse(text)
        self._run()

    def _parse(self, text):
        cur = None
        inside = False
        groups = {}
        main_group = None
        for raw in text.split("\n"):
            line = raw.split(" ;")[0].rstrip() if not raw.startswith(";") else ""
            s = line.strip()
            if not s:
                continue
            if inside:
                if s == "}":
                    inside = False
                    continue
                m = re.fullmatch(r"([-\w.$]+):", s)
                if m:
                    cur = m.group(1)
                    require(cur not in self.blocks, lambda: f"block {cur} occurs twice")
                    self.blocks[cur] = []
                    self.order.append(cur)
                    continue
                m = re.fullmatch(r"(?:%\w+ = )?call (\S+) @([\w.]+)\((.*)\)(?: #\d+)?", s)
                if m:
                    args = [parse_value(a) for a in split_args(m.group(3))]
                    self.blocks[cur].append(("call", m.group(2), args))
                    continue
                m = re.fullmatch(r"br label %([-\w.$]+)", s)
                if m:
                    self.blocks[cur].append(("br", m.group(1)))
                    continue
                if s == "ret void":
                    self.blocks[cur].append(("ret", "void"))
                    continue
                m = re.fullmatch(r"ret (%Result\* .*)", s)
                if m:
                    self.blocks[cur].append(("ret", parse_value(m.group(1))))
                    continue
                fail(f"instruction {s!r} is not understood")
            m = re.match(r"declare (\S+) @([\w.]+)\((.*)\)(?: #\d+)?$", s)
            if m:
                name = m.group(2)
                require(name not in self.declared, lambda: f"{name} is declared twice")
                self.returns[name] = parse_type(m.group(1))
                require(not self.void or m.group(1) == "void", lambda: f"{name} returns {m.group(1)}")
                self.declared[name] = [parse_type(a) for a in split_args(m.group(3))]
                continue
            m = re.match(r"define void @(\w+)\(\)(?: #(\d+))? \{$", s)
            if m:
                require(self.entry is None, "two functions are defined")
                self.entry, main_group = m.group(1), m.group(2)
                inside = True
                continue
            m = re.match(r"attributes #(\d+) = \{(.*)\}$", s)
            if m:
                groups[m.group(1)] = dict(
                    (a, b) for a, b in re.findall(r'"([^"]*)"(?:="([^"]*)")?', m.group(2))
                )
                continue
            m = re.match(r'!\d+ = !\{i32 \d+, !"(\w+)", i\d+ (\w+)\}$', s)
            if m:
                self.flags[m.group(1)] = m.group(2)
                continue
            if re.match(r"(source_filename|%\w+ = type opaque|!llvm\.module\.flags|target )", s):
                continue
            fail(f"line {s!r} is not understood")
        require(self.entry is not None, "no function is defined")
        self.attrs = groups.get(main_group, {})

    def _run(self):
        label, seen = self.order[0], set()
        while True:
            require(label not in seen, lambda: f"block {label} is executed twice")
            seen.add(label)
            self.sequence.append(label)
            require(label in self.blocks, lambda: f"no block {label}")
            nxt = None
            for i, ins in enumerate(self.blocks[label]):
                if ins[0] == "call":
                    self.calls.append((ins[1], ins[2]))
                else:
                    require(
                        i == len(self.blocks[label]) - 1, lambda: f"{label}: instructions after end"
                    )
                    nxt = ins
            require(nxt is not None, lambda: f"block {label} does not end")
            if nxt[0] == "ret":
                self.ret = nxt[1]
                break
            label = nxt[1]
        require(seen == set(self.blocks), lambda: f"blocks {set(self.blocks) - seen} are not reached")

    def check_declarations(self):
        for name, args in self.calls:
            require(name in self.declared, lambda: f"{name} is called but not declared")
            types = [t for t, _ in args]
            require(
                types == self.declared[name],
                lambda: f"{name} is declared with {self.declared[name]}, called with {types}",
            )

    def quantum(self):
        """The calls of quantum instructions."""
        return [(n, a) for n, a in self.calls if "__qis__" in n]

    def outputs(self):
        return [a for n, a in self.calls if n == "__quantum__rt__result_record_output"]


def same_value(a, b):
    """Equality of operands with exact floating point values (also signed zeros)."""
    return a[0] == b[0] and (
        a[1] == b[1] and (a[0] != "double" or struct.pack("d", a[1]) == struct.pack("d", b[1]))
    )


def same_calls(a, b):
    return len(a) == len(b) and all(
        n == m and len(x) == len(y) and all(same_value(p, q) for p, q in zip(x, y))
        for (n, x), (m, y) in zip(a, b)
    )


def expected_call(gate, params, qubits):
    return (
        qis(QIS[gate][0]),
        [("double", float(p)) for p in params] + [("Qubit", i) for i in qubits],
    )
