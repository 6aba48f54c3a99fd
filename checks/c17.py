"""C17: OpenQASM export describes the same circuit."""

import ast
import re

import numpy as np
from hypothesis import strategies as st

from checks import lib, world
from vf.core import Check, fail, require

check = Check(
    "C17",
    rule=(
        "random circuits over random register layouts and labels, exported with all options and "
        "read by an independent OpenQASM 2.0 reader; non-trivial: several registers and at least "
        "one multi-qubit and one parametric gate"
    ),
    assumptions=[
        "register labels are OpenQASM identifiers if they are to be used in the export",
        "crx, cry, swap and cswap may be standard gates, as in current versions of qelib1.inc; "
        "operations made from circuits are to be declared by the user, as documented",
    ],
)

# ------------------------------------------------------------------------------------------- #
# independent reader

NUM = r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?"
ID = r"[a-z][A-Za-z0-9_]*"

STD = {  # name: (parameters, matrix of the parameters); first qubit most significant
    "id": (0, lambda: np.eye(2)),
    "x": (0, lambda: lib.ref_matrix("X", [])),
    "y": (0, lambda: lib.ref_matrix("Y", [])),
    "z": (0, lambda: lib.ref_matrix("Z", [])),
    "h": (0, lambda: lib.ref_matrix("Hadamard", [])),
    "s": (0, lambda: np.diag([1, 1j])),
    "sdg": (0, lambda: np.diag([1, -1j])),
    "t": (0, lambda: np.diag([1, np.exp(0.25j * np.pi)])),
    "tdg": (0, lambda: np.diag([1, np.exp(-0.25j * np.pi)])),
    "rx": (1, lib.rx),
    "ry": (1, lib.ry),
    "rz": (1, lib.rz),
    "u1": (1, lambda a: np.diag([1, np.exp(1j * a)])),
    "cx": (0, lambda: lib.controlled(lib.ref_matrix("X", []), 1)),
    "cy": (0, lambda: lib.controlled(lib.ref_matrix("Y", []), 1)),
    "cz": (0, lambda: lib.controlled(lib.ref_matrix("Z", []), 1)),
    "ch": (0, lambda: lib.controlled(lib.ref_matrix("Hadamard", []), 1)),
    "crx": (1, lambda a: lib.controlled(lib.rx(a), 1)),
    "cry": (1, lambda a: lib.controlled(lib.ry(a), 1)),
    "crz": (1, lambda a: lib.controlled(lib.rz(a), 1)),
    "ccx": (0, lambda: lib.controlled(lib.ref_matrix("X", []), 2)),
    "swap": (0, lambda: lib.SWAP_M),
    "cswap": (0, lambda: lib.controlled(lib.SWAP_M, 1)),
}
# gates declared by the library, their meaning and formal sizes
DECLARED = {
    "swap": (0, 2, lambda: lib.SWAP_M),
    "cswap": (0, 3, lambda: lib.controlled(lib.SWAP_M, 1)),
    "rot": (3, 1, lib.rot),
    "crot": (3, 2, lambda *p: lib.controlled(lib.rot(*p), 1)),
}


def _args(text):
    return [a.strip() for a in text.split(",")] if text.strip() else []


def _number(text, env=None):
    if env is not None:
        # an expression in the formal parameters, as in OpenQASM 2.0
        node = ast.parse(text, mode="eval")
        for x in ast.walk(node):
            require(
                isinstance(x, (ast.Expression, ast.BinOp, ast.UnaryOp, ast.Constant, ast.Name,
                               ast.operator, ast.unaryop, ast.Load)),
                lambda: f"expression {text!r}",
            )
            if isinstance(x, ast.Name):
                require(x.id in env or x.id == "pi", lambda: f"{text!r}: unknown {x.id}")
        return float(eval(compile(node, "", "eval"), {"__builtins__": {}, "pi": np.pi, **env}))
    require(re.fullmatch(NUM, text), lambda: f"parameter {text!r} is no number")
    return float(text)


class Program:
    def __init__(self, text):
        self.decls = []  # (name, formal parameters, formal qubits, [(gate, args, qubits)])
        self.unimplemented = 0
        self.regs = {}
        self.cregs = {}
        self.stmts = []  # (gate, [params], [(register, index)], position)
        lines = text.split("\n")
        require(lines[0] == "OPENQASM 2.0;", lambda: f"first line {lines[0]!r}")
        require('include "qelib1.inc";' in lines, "qelib1.inc is not included")
        comments = [x for x in lines if x.startswith("//")]
        self.unimplemented = sum("not implemented" in x for x in comments)
        require(text.startswith('OPENQASM 2.0;\ninclude "qelib1.inc";'), "header")
        body = "\n".join(x for x in lines if not x.startswith("//")).strip()
        body = body[len('OPENQASM 2.0;\ninclude "qelib1.inc";'):]
        pos = 0
        while True:
            body = body.lstrip()
            if not body:
                break
            m = re.match(r"gate\s[^{}]*\{[^{}]*\}", body)
            if m:
                self.gate(m.group(0))
                body = body[m.end():]
                continue
            require(";" in body, lambda: f"statement without semicolon: {body!r}")
            stmt, body = body.split(";", 1)
            self.statement(stmt.strip(), pos)
            pos += 1

    def gate(self, text):
        m = re.fullmatch(rf"gate\s+({ID})\s*(?:\(([^)]*)\))?\s*([^{{]*)\{{([^}}]*)\}}", text, re.S)
        require(m, lambda: f"gate declaration {text!r}")
        name, params, qubits, inner = m.groups()
        require(name not in [d[0] for d in self.decls], lambda: f"{name} is declared twice")
        require(not self.stmts, "a gate is declared after statements")
        stmts = []
        require(not inner.strip() or inner.strip().endswith(";"), lambda: f"declaration {text!r}")
        for s in inner.split(";"):
            if s.strip():
                mm = re.fullmatch(rf"({ID})\s*(?:\(([^)]*)\))?\s+(.+)", s.strip())
                require(mm, lambda: f"statement {s!r} in declaration of {name}")
                stmts.append((mm.group(1), _args(mm.group(2) or ""), _args(mm.group(3))))
        self.decls.append((name, _args(params or ""), _args(qubits), stmts))

    def statement(self, text, pos):
        m = re.fullmatch(rf"(qreg|creg)\s+({ID})\[(\d+)\]", text)
        if m:
            kind, name, size = m.groups()
            require(
                name not in self.regs and name not in self.cregs,
                lambda: f"register {name} is declared twice",
            )
            require(not self.stmts, "a register is declared after statements")
            (self.regs if kind == "qreg" else self.cregs)[name] = int(size)
            return
        m = re.fullmatch(rf"({ID})\s*(?:\(([^)]*)\))?\s+(.+)", text)
        require(m, lambda: f"statement {text!r}")
        name, params, qubits = m.groups()
        qs = []
        for a in _args(qubits):
            mm = re.fullmatch(rf"({ID})\[(\d+)\]", a)
            require(mm, lambda: f"argument {a!r} of {text!r}")
            reg, i = mm.group(1), int(mm.group(2))
            require(
                reg in self.regs and i < self.regs[reg],
                lambda: f"{text!r}: no qubit {a} in registers {self.regs}",
            )
            qs.append((reg, i))
        require(len(set(qs)) == len(qs), lambda: f"{text!r} uses a qubit twice")
        self.stmts.append((name, [_number(p) for p in _args(params or "")], qs))

    def flat(self):
        return [(r, i) for r, n in self.regs.items() for i in range(n)]


def decl_matrix(decl, values):
    """The matrix a declaration defines.  Its formal arguments may be missing: None is returned in
    addition then, with "q[0]", "q[1]", ... read as the qubits."""
    name, params, qubits, stmts = decl
    require(len(params) == len(values), lambda: f"{name} declared with parameters {params}")
    valid = bool(qubits)
    formal = qubits
    if not qubits:
        used = sorted({q for s in stmts for q in s[2]})
        formal = [f"q[{i}]" for i in range(DECLARED[name][1])]
        require(all(u in formal for u in used), lambda: f"{name}: arguments {used}")
    n = len(formal)
    u = np.eye(2**n, dtype=complex)
    env = dict(zip(params, values))
    for g, args, qs in stmts:
        require(g in STD, lambda: f"{name} is declared by the undefined gate {g}")
        require(all(q in formal for q in qs), lambda: f"{name}: {g} on {qs}")
        np_, fn = STD[g]
        require(len(args) == np_, lambda: f"{name}: {g} with parameters {args}")
        m = fn(*[_number(a, env) for a in args])
        u = lib.full_unitary(np.asarray(m, dtype=complex), [formal.index(q) for q in qs], n) @ u
    return u, valid


# ------------------------------------------------------------------------------------------- #
# expected statements

QNAME = {
    "Identity": "id", "X": "x", "Y": "y", "Z": "z", "Hadamard": "h", "S": "s", "T": "t",
    "RX": "rx", "RY": "ry", "RZ": "rz", "Rotation": "rot", "CX": "cx", "CY": "cy", "CZ": "cz",
    "CHadamard": "ch", "CRX": "crx", "CRY": "cry", "CRZ": "crz", "CRotation": "crot",
    "SWAP": "swap", "CSWAP": "cswap", "CCX": "ccx",
    "K1": "kone", "KP": "kpar", "K2": "ktwo", "K2P": "ktwopar", "KN": "customoperation",
}
CUSTOM = {"K1": 1, "KP": 1, "K2": 2, "K2P": 2, "KN": 2}
CUSTOM_PARAMS = {"K1": 0, "KP": 2, "K2": 0, "K2P": 2, "KN": 0}
_cache = {}


def custom(kind):
    import dwave.gate.operations as ops
    from dwave.gate.circuit import Circuit, ParametricCircuit

    if kind in ("K1", "KP"):
        return lib.user_op_class(kind, (0.1, 0.2, 0.3, 0.4) if kind == "K1" else ())[0]
    if kind not in _cache:
        c = ParametricCircuit(2) if kind == "K2P" else Circuit(2)
        with c.context as regs:
            if kind == "K2P":
                ops.RX(regs.p[1], regs.q[0])
                ops.RY(regs.p[0], regs.q[1])
            ops.CX(regs.q[1], regs.q[0])
        _cache[kind] = ops.create_operation(c, **({} if kind == "KN" else
                                                  {"name": {"K2": "KTwo", "K2P": "KTwoPar"}[kind]}))
    return _cache[kind]


def _numbers():
    return st.one_of(
        lib.angles(),
        st.floats(allow_nan=False, allow_infinity=False),
        st.sampled_from([1e-300, 1e22, 123456789.123456789, 0.1 + 0.2, -0.0, 1 / 3]),
    )


GATES = [g for g in lib.GATE_POOL]


def gate_plan(n):
    usable = [g for g in GATES if lib.gate_arity(g) <= n]

    def mk(g):
        k = CUSTOM_PARAMS[g] if g in CUSTOM else lib.gate_params(g)
        return st.fixed_dictionaries(
            {
                "g": st.just(g),
                "p": st.lists(_numbers(), min_size=k, max_size=k),
                "q": lib.distinct(n, CUSTOM[g] if g in CUSTOM else lib.gate_arity(g)),
                "h": st.integers(0, 4),
                "np": st.sampled_from([0, 0, 0, 1]),
            }
        )

    return st.sampled_from(usable + [k for k in CUSTOM if CUSTOM[k] <= n]).flatmap(mk)


LABELS = st.one_of(
    st.none(),
    st.sampled_from(["ra", "rb", "apple", "q", "q1", "reg_2", "qreg0", "aB9"]),
)
ANY = st.one_of(LABELS, st.sampled_from(["", "A b", "1x", 0, 1, 5, ("t", 1), -1, 2.5, "ü"]))


def layouts(labels):
    reg = st.tuples(st.integers(0, 3), labels).map(
        lambda t: [t[0], list(t[1]) if isinstance(t[1], tuple) else t[1]])
    return st.fixed_dictionaries(
        {
            "init": st.one_of(st.none(), st.integers(1, 3)),
            "regs": st.lists(reg, max_size=4),
            "ones": st.lists(st.integers(0, 4), max_size=3),
            "cinit": st.one_of(st.none(), st.integers(1, 3)),
            "cregs": st.lists(st.integers(0, 3), max_size=3),
        }
    ).filter(lambda d: _nq(d) > 0 or d["cinit"] is not None or d["cregs"])


def _nq(d):
    return (d["init"] or 0) + sum(r[0] for r in d["regs"]) + len(d["ones"])


def cases():
    def mk(use_labels):
        return layouts(LABELS if use_labels else ANY).flatmap(
            lambda d: st.fixed_dictionaries(
                {
                    "layout": st.just(d),
                    "ops": st.lists(gate_plan(_nq(d)), max_size=10)
                    if _nq(d) else st.just([]),
                    "labels": st.just(use_labels),
                    "defs": st.booleans(),
                    "explicit": st.booleans(),
                }
            )
        )

    return st.booleans().flatmap(mk)


def build_circuit(layout):
    """The circuit and its registers as [(label, size)] and classical sizes, in order."""
    from dwave.gate.circuit import Circuit

    kw = {}
    if layout["init"] is not None:
        kw["num_qubits"] = layout["init"]
    if layout["cinit"] is not None:
        kw["num_bits"] = layout["cinit"]
    c = Circuit(**kw)
    for size, label in layout["regs"]:
        if isinstance(label, list):
            label = tuple(label)
        if label is None:
            c.add_qregister(size)
        elif label not in c.qregisters:
            c.add_qregister(size, label)
    for r in layout["ones"]:
        labels = list(c.qregisters)
        if labels:
            c.add_qubit(qreg_label=labels[r % len(labels)])
        else:
            c.add_qubit()
    for size in layout["cregs"]:
        c.add_cregister(size)
    return c


def make(plan, q):
    g = plan["g"]
    p = [np.float64(x) for x in plan["p"]] if plan["np"] else plan["p"]
    if g in CUSTOM:
        cls = custom(g)
        qs = tuple(q[i] for i in plan["q"])
        return cls(list(p), qubits=qs) if p else cls(qubits=qs)
    return lib.make_op({**plan, "p": p}, q, plan["h"])


def canonical(g):
    return lib.ALIASES.get(g, g)


@check.sub("circuit", cases, quick=6000, thorough=120000)
def circuit(case, ctx):

    c = build_circuit(case["layout"])
    flat = [(label, i) for label, reg in c.qregisters.items() for i in range(len(reg))]
    qubits = [x for reg in c.qregisters.values() for x in reg]
    for k in CUSTOM:
        custom(k)
    # repeated labels may leave fewer or no qubits
    plans = [{**p, "q": [i % len(qubits) for i in p["q"]]} for p in case["ops"] if qubits]
    plans = [p for p in plans if len(set(p["q"])) == len(p["q"])]
    with c.context:
        for p in plans:
            make(p, qubits)
    before = list(c.circuit)
    kw = {}
    if case["labels"] or case["explicit"]:
        kw["reg_labels"] = case["labels"]
    if case["defs"] or case["explicit"]:
        kw["gate_definitions"] = case["defs"]
    text = c.to_qasm(**kw)
    require(c.to_qasm(**kw) == text, "exporting again gives something else")
    require(c.to_qasm(version="2.0", **kw) == text, "explicit version")
    require(c.circuit == before, "exporting changed the circuit")
    prog = Program(text)
    # registers
    sizes = [len(r) for r in c.qregisters.values()]
    if case["labels"]:
        names = list(c.qregisters)
        cnames = list(c.cregisters)
    else:
        names = ["q"] if len(sizes) == 1 else [f"q{i}" for i in range(len(sizes))]
        nc = len(c.cregisters)
        cnames = ["c"] if nc == 1 else [f"c{i}" for i in range(nc)]
    require(
        list(prog.regs.items()) == list(zip(names, sizes)),
        lambda: f"quantum registers {prog.regs}, expected {list(zip(names, sizes))}",
    )
    csizes = [len(r) for r in c.cregisters.values()]
    require(
        list(prog.cregs.items()) == list(zip(cnames, csizes)),
        lambda: f"classical registers {prog.cregs}, expected {list(zip(cnames, csizes))}",
    )
    # statements
    regnames = dict(zip(c.qregisters, names))
    want = []
    for p in plans:
        g = canonical(p["g"])
        want.append(
            (QNAME[g], [float(x) for x in p["p"]],
             [(regnames[flat[i][0]], flat[i][1]) for i in p["q"]])
        )
    require(
        len(prog.stmts) == len(want),
        lambda: f"{len(prog.stmts)} statements, expected {len(want)}:\n{text}",
    )
    for got, exp in zip(prog.stmts, want):
        require(got == exp, lambda: f"statement {got}, expected {exp}")
    # meaning
    if 0 < len(qubits) <= 5 and not any(p["g"] in CUSTOM for p in plans):
        n = len(qubits)
        pos = {f: i for i, f in enumerate(prog.flat())}
        u = np.eye(2**n, dtype=complex)
        for g, params, qs in prog.stmts:
            if g in STD:
                m = STD[g][1](*params)
            else:
                m = DECLARED[g][2](*params)
            u = lib.full_unitary(np.asarray(m, dtype=complex), [pos[q] for q in qs], n) @ u
        ref = lib.ref_unitary(n, plans)
        require(lib.close(u, ref, 1e-6), "the exported program has another unitary")
    # declarations
    used = {s[0] for s in prog.stmts}
    declared = [d[0] for d in prog.decls]
    if not case["defs"]:
        require(not declared and not prog.unimplemented, "declarations were not asked for")
    else:
        require(
            set(declared) <= used, lambda: f"declared {declared}, but only {sorted(used)} is used"
        )
        for name in used & {"rot", "swap", "cswap", "crot"}:
            if name not in declared:
                fail(f"{name} is used but not declared")
        rng = np.random.default_rng(3)
        for d in prog.decls:
            require(d[0] in DECLARED, lambda: f"unknown gate {d[0]} declared")
            npar, nq, fn = DECLARED[d[0]]
            vals = [float(x) for x in rng.uniform(-3, 3, size=npar)]
            m, valid = decl_matrix(d, vals)
            require(
                m.shape[0] == 2**nq and _phase_equal(m, fn(*vals)),
                lambda: f"the declaration of {d[0]} defines another gate: {d}",
            )
            if not valid:
                require(d[0] == "rot", lambda: f"declaration of {d[0]} without arguments")
                ctx.known("C17-rot-decl", "the OpenQASM declaration of Rotation has no qubit")
    ctx.nontrivial(
        sum(s > 0 for s in sizes) > 1
        and any(len(p["q"]) > 1 for p in plans)
        and any(p["p"] for p in plans)
    )
    for p in plans:
        ctx.label(canonical(p["g"]))


def _phase_equal(a, b):
    i = np.unravel_index(np.argmax(np.abs(b)), b.shape)
    if abs(a[i]) < 1e-6:
        return False
    ph = b[i] / a[i]
    return abs(abs(ph) - 1) < 1e-9 and lib.close(a * ph, b, 1e-9)


# ------------------------------------------------------------------------------------------- #


def op_cases():
    return gate_plan(4).flatmap(
        lambda p: st.fixed_dictionaries(
            {
                "plan": st.just(p),
                "mode": st.sampled_from(["none", "qubits", "mapping"]),
                "map": st.lists(
                    st.tuples(st.sampled_from(["q", "r", "ab1"]), st.integers(0, 12)).map(list),
                    min_size=4, max_size=4, unique_by=tuple,
                ),
            }
        )
    )


@check.sub(
    "long",
    lambda: st.fixed_dictionaries(
        {"regs": st.integers(1, 25), "cregs": st.integers(0, 15), "k": st.integers(5, 150),
         "labels": st.booleans(), "defs": st.booleans(), "seed": st.integers(0, 2**32 - 1)}
    ),
    quick=120,
    thorough=2500,
)
def long(case, ctx):
    """Dozens of registers, more than a hundred qubits and operations."""
    import random

    r = random.Random(case["seed"])
    layout = {
        "init": r.choice([None, 1, 14]),
        "regs": [[r.choice([0, 1, 2, 3, 12]), r.choice([None, f"r{i}"])]
                 for i in range(case["regs"])],
        "ones": [r.randrange(30) for _ in range(r.randrange(4))],
        "cinit": r.choice([None, 1, 14]),
        "cregs": [r.choice([0, 1, 2, 12]) for _ in range(case["cregs"])],
    }
    n = _nq(layout)
    pool = GATES + list(CUSTOM)
    plans = []
    while n and len(plans) < case["k"]:
        g = r.choice(pool)
        arity = CUSTOM[g] if g in CUSTOM else lib.gate_arity(g)
        count = CUSTOM_PARAMS[g] if g in CUSTOM else lib.gate_params(g)
        if arity > n:
            if n < 3:
                pool = [x for x in pool if x != g]
            continue
        plans.append({"g": g, "p": [round(r.uniform(-7, 7), 4) for _ in range(count)],
                      "q": r.sample(range(n), arity), "h": r.randrange(5), "np": 0})
    circuit(
        {"layout": layout, "ops": plans, "labels": case["labels"], "defs": case["defs"],
         "explicit": True}, ctx,
    )


@check.sub("operation", op_cases, quick=3000, thorough=60000)
def operation(case, ctx):
    from dwave.gate.primitives import Qubit

    p = case["plan"]
    g = canonical(p["g"])
    qubits = [Qubit(str(i)) for i in range(4)]
    if case["mode"] == "none":
        cls = custom(g) if g in CUSTOM else lib.gate_class(g, p["p"])
        op = cls(list(p["p"])) if p["p"] else cls()
        got = op.to_qasm()
        require(got == op.to_qasm(None), "explicit empty mapping")
        tail = None
    else:
        op = make(p, qubits)
        if case["mode"] == "qubits":
            got = op.to_qasm()
            tail = [("q", i) for i in range(len(p["q"]))]
        else:
            mapping = {q: tuple(m) for q, m in zip(qubits, case["map"])}
            got = op.to_qasm(mapping)
            require(got == op.to_qasm(mapping=mapping), "mapping by name")
            tail = [tuple(case["map"][i]) for i in p["q"]]
    m = re.fullmatch(rf"({ID})(?:\(([^)]*)\))?(?: (.*))?", got)
    require(m, lambda: f"statement {got!r}")
    name, params, rest = m.groups()
    require(name == QNAME[g], lambda: f"{got!r}: expected {QNAME[g]}")
    pars = [_number(x) for x in _args(params or "")]
    require(pars == [float(x) for x in p["p"]], lambda: f"{got!r}: expected {p['p']}")
    if tail is None:
        require(not rest, lambda: f"{got!r} has qubits")
    else:
        want = ", ".join(f"{r}[{i}]" for r, i in tail)
        require(
            [a.replace(" ", "") for a in _args(rest or "")] == want.split(", "),
            lambda: f"{got!r}: expected qubits {want}",
        )
    ctx.nontrivial(len(p["q"]) > 1 or bool(p["p"]))


# ------------------------------------------------------------------------------------------- #

BAD = ["measurement", "conditional", "parametric", "version", "userop", "usercontrolled", "barrier",
       "cond-measurement"]


@check.sub(
    "rejected",
    lambda: st.fixed_dictionaries(
        {
            "bad": st.sampled_from(BAD),
            "n": st.integers(2, 4),
            "at": st.integers(0, 5),
            "ops": st.integers(2, 4).flatmap(lambda n: st.lists(gate_plan(2), max_size=4)),
            "version": st.sampled_from(["3.0", "1.0", "2", "", "2.1"]),
            "defs": st.booleans(),
            "labels": st.booleans(),
            "p": st.lists(lib.angles(), min_size=4, max_size=4),
        }
    ),
    quick=1500,
    thorough=30000,
)
def rejected(case, ctx):
    import dwave.gate.operations as ops
    from dwave.gate.circuit import Circuit, CircuitError, ParametricCircuit

    bad = case["bad"]
    n = case["n"]
    kw = {"gate_definitions": case["defs"], "reg_labels": case["labels"]}
    c = ParametricCircuit(n, n) if bad == "parametric" else Circuit(n, n)
    for k in CUSTOM:
        custom(k)
    user = lib.user_op_class("CU" if bad == "usercontrolled" else "U", tuple(case["p"]))[0]
    at = case["at"] % (len(case["ops"]) + 1)

    def insert(regs):
        if bad == "measurement":
            ops.Measurement(regs.q[0]) | regs.c[0]
        elif bad == "cond-measurement":
            ops.Measurement(regs.q[0]).conditional(regs.c[1])
        elif bad == "conditional":
            ops.X(regs.q[0]).conditional(regs.c[1])
        elif bad == "userop":
            user(regs.q[1])
        elif bad == "usercontrolled":
            user(qubits=(regs.q[1], regs.q[0]))
        elif bad == "barrier":
            ops.Barrier(tuple(regs.q))
        elif bad == "parametric":
            ops.RX(regs.p[0], regs.q[0])

    with c.context as regs:
        for i, p in enumerate(case["ops"]):
            if i == at:
                insert(regs)
            make(p, regs.q)
        if at == len(case["ops"]):
            insert(regs)
    if bad == "parametric":
        lib.expect_raises(CircuitError, lambda: c.to_qasm(), "parametric circuit")
    elif bad == "version":
        text = c.to_qasm(**kw)
        lib.expect_raises(
            NotImplementedError, lambda: c.to_qasm(version=case["version"], **kw), "version"
        )
        require(c.to_qasm(**kw) == text, "export after a rejected one")
    else:
        lib.expect_raises(NotImplementedError, lambda: c.to_qasm(**kw), f"export with {bad}")
    ctx.nontrivial(len(case["ops"]) > 0)


EDITED = ["qasm", "qasm-labels", "qasm-defs"]


@check.sub("edited", lambda: world.edited_cases(EDITED, plain=True), quick=1000, thorough=20000)
def edited(case, ctx):
    """As a circuit with the same content that is built at once, after any edits and reads."""
    world.check_edited(case, ctx, EDITED)
