"""C26: copies of circuits and operations are equivalent and independent."""

import copy
import pickle

import numpy as np
from hypothesis import strategies as st

from checks import c10, lib, world
from vf.core import Check, fail, require

check = Check(
    "C26",
    rule=(
        "random circuits (gates, custom operations, variables, measurements, conditionals, several "
        "registers, states, bit values) copied by deepcopy or pickle, after which "
        "either of them is edited and simulated; non-trivial: the circuit has measurements or "
        "conditionals or variables, and something is edited after copying"
    ),
    assumptions=[
        "only circuits of importable operations are pickled",
        "copies are made outside of contexts",
    ],
)


def edits():
    return st.lists(
        st.one_of(
            st.builds(lambda p: {"k": "gate", "p": p}, lib.gate_plans(1, ["X", "RY", "T", "S"])),
            st.builds(lambda i: {"k": "remove", "i": i}, st.integers(0, 9)),
            st.builds(lambda i: {"k": "qubit", "i": i}, st.integers(0, 3)),
            st.builds(lambda i: {"k": "bit", "i": i}, st.integers(0, 3)),
            st.builds(lambda i, v: {"k": "value", "i": i, "v": v}, st.integers(0, 9),
                      st.sampled_from([None, 0, 1])),
            st.builds(lambda s: {"k": "state", "s": s}, st.integers(0, 2**32 - 1)),
            st.builds(lambda s: {"k": "simulate", "s": s}, st.integers(0, 2**32 - 1)),
            st.builds(lambda k: {"k": "reset", "keep": k}, st.booleans()),
            st.builds(lambda i, v: {"k": "param", "i": i, "v": v}, st.integers(0, 9),
                      st.sampled_from([0.25, 2.0])),
            st.builds(lambda i, v: {"k": "var", "i": i, "v": v}, st.integers(0, 9),
                      st.sampled_from([None, 0.75, 0])),
            st.builds(lambda i: {"k": "label", "i": i}, st.integers(0, 9)),
            st.builds(lambda i: {"k": "cond", "i": i}, st.integers(0, 9)),
            st.builds(lambda w: {"k": "lock", "w": w}, st.booleans()),
        ),
        max_size=5,
    )


def _variables(op):
    from dwave.gate.primitives import Variable

    return [v for v in getattr(op, "parameters", []) if isinstance(v, Variable)]


def _state(c):
    from dwave.gate.circuit import CircuitError

    try:
        return c.state
    except CircuitError:  # mixed
        return c.density_matrix


def describe(c):
    """Everything that can be observed about a circuit, without the identity of its objects."""
    from dwave.gate.primitives import Variable

    qs, bs = list(c.qubits), list(c.bits)

    def param(p):
        return ("var", p.name, p.value) if isinstance(p, Variable) else ("num", complex(p))

    def array(a):
        return None if a is None else (a.shape, np.asarray(a).tolist())

    return (
        type(c).__name__,
        [(k, [(q.label, q.id) for q in r], r.frozen) for k, r in c.qregisters.items()],
        [(k, [(b.label, b.id, b.value) for b in r], r.frozen) for k, r in c.cregisters.items()],
        [
            (
                type(o).__name__, type(o).__module__,
                None if o.qubits is None else [qs.index(q) for q in o.qubits],
                [qs.index(q) for q in getattr(o, "control", None) or []],
                [qs.index(q) for q in getattr(o, "target", None) or []],
                [param(p) for p in getattr(o, "parameters", [])],
                None if getattr(o, "bits", None) is None else [bs.index(b) for b in o.bits],
                sorted(bs.index(b) for b in o._cond or []),
                array(getattr(o, "state", None)),
            )
            for o in c.circuit
        ],
        c.is_locked(), c.num_parameters, c.parametric,
        [param(v) for v in lib.params_of(c)],
        array(_state(c)),
    )


def consistent(c, what):
    """The operations use the very qubits, bits and variables of their circuit."""
    qs, bs = list(c.qubits), list(c.bits)
    flat = [q for r in c.qregisters.values() for q in r]
    require(
        len(flat) == len(qs) and all(a is b for a, b in zip(flat, qs)),
        f"{what}: the qubits are not those of the registers",
    )
    flat = [b for r in c.cregisters.values() for b in r]
    require(
        len(flat) == len(bs) and all(a is b for a, b in zip(flat, bs)),
        f"{what}: the bits are not those of the registers",
    )
    vs = list(lib.params_of(c))
    for o in c.circuit:
        for q in (*o.qubits, *(getattr(o, "control", None) or ()), *(getattr(o, "target", None) or ())):
            require(any(q is x for x in qs), lambda: f"{what}: {o} has a foreign qubit")
        for b in (*(getattr(o, "bits", None) or ()), *(o._cond or ())):
            require(any(b is x for x in bs), lambda: f"{what}: {o} has a foreign bit")
        for v in _variables(o):
            require(any(v is x for x in vs), lambda: f"{what}: {o} has a foreign variable")
    for r in (c.qubits, c.bits, *c.qregisters.values(), *c.cregisters.values()):
        for i, x in enumerate(r):
            require(x in r and r.index(x) == i and r[i] is x, f"{what}: {x!r} not found in its register")


def separate(a, b):
    """No mutable object is shared."""
    from dwave.gate.circuit import Circuit

    def parts(c):
        yield from (c, c.circuit, c.qregisters, c.cregisters, c.context)
        yield from c.qregisters.values()
        yield from c.cregisters.values()
        yield from c.bits
        yield from c.qubits
        yield from lib.params_of(c)
        yield from c.circuit
        for o in c.circuit:
            if hasattr(o, "parameters"):
                yield o.parameters
        if (x := _state(c)) is not None:
            yield x

    require(isinstance(a, Circuit) and isinstance(b, Circuit), f"{a!r} or {b!r} is no circuit")
    mine = {id(x): x for x in parts(a)}
    for x in parts(b):
        require(id(x) not in mine, lambda: f"the copy shares {x!r} with the original")


def _edit(c, s):
    from dwave.gate.simulator import simulate

    k = s["k"]
    n = c.num_qubits
    if k == "gate":
        if n:
            c.unlock()
            with c.context as regs:
                lib.make_op({**s["p"], "q": [0]}, [regs.q[n - 1]], 1)
            c.unlock()
    elif k == "remove":
        if c.circuit:
            del c.circuit[s["i"] % len(c.circuit)]
    elif k == "qubit":
        labels = list(c.qregisters)
        c.add_qubit(qreg_label=labels[s["i"] % len(labels)] if labels else None)
    elif k == "bit":
        labels = list(c.cregisters)
        c.add_bit(creg_label=labels[s["i"] % len(labels)] if labels else None)
    elif k == "value":
        if c.num_bits:
            b = c.bits[s["i"] % c.num_bits]
            b.reset() if s["v"] is None else b.set(s["v"], force=True)
    elif k == "state":
        psi = np.random.default_rng(s["s"]).normal(size=(1 << n, 2)) @ [1, 1j]
        c.set_state(psi, force=True, normalize=True)
    elif k == "simulate":
        lib.outcome(lambda: simulate(c, rng_seed=s["s"]))
    elif k == "reset":
        c.reset(keep_registers=s["keep"])
    elif k == "param":
        par = [o for o in c.circuit if hasattr(o, "parameters")]
        if par:
            o = par[s["i"] % len(par)]
            o.parameters[s["i"] % len(o.parameters)] = s["v"]
    elif k == "var":
        reg = lib.params_of(c)
        if len(reg):
            v = reg[s["i"] % len(reg)]
            v.reset() if s["v"] is None else v.set(s["v"])
    elif k == "label":
        if n:
            c.qubits[s["i"] % n].label = "changed"
    elif k == "cond":
        if c.circuit and c.num_bits:
            c.circuit[s["i"] % len(c.circuit)].conditional(c.bits[s["i"] % c.num_bits])
    elif k == "lock":
        c.lock() if s["w"] else c.unlock()
    else:
        fail(k)


def _circuit(t, variables, pre):
    """The circuit of a template, with variables in some of its operations."""

    c, q, b = c10._build(t)
    if t["cls"] == "ParametricCircuit" and variables:
        c.unlock()
        import dwave.gate.operations as ops

        with c.context as regs:
            for v in variables:
                if v["g"] == "RX":
                    ops.RX(regs.p[v["i"]], regs.q[0])
                else:
                    ops.Rotation([regs.p[v["i"]], 0.5, regs.p[v["j"]]], regs.q[len(q) - 1])
    for s in pre:
        if s["k"] not in ("reset", "qubit") and (s["k"] != "gate" or t["cls"] == "Circuit"):
            _edit(c, s)
    return c


def _copy(c, how):
    if how == "deepcopy":
        return copy.deepcopy(c)
    return pickle.loads(pickle.dumps(c, protocol=how))


BUILTIN_MODULES = ("dwave.gate.operations.operations", "dwave.gate.operations.base")


@check.sub(
    "circuits",
    lambda: st.fixed_dictionaries(
        {
            "t": c10.templates(0),
            "vars": st.lists(
                st.fixed_dictionaries(
                    {"g": st.sampled_from(["RX", "Rotation"]), "i": st.integers(0, 2),
                     "j": st.integers(0, 3)}
                ),
                max_size=3,
            ),
            "pre": edits(),
            "how": st.sampled_from(["deepcopy", "deepcopy", 2, 4, 5, "twice"]),
            "edits": edits(),
            "which": st.sampled_from(["copy", "original"]),
            "seed": st.integers(0, 2**32 - 1),
        }
    ),
    quick=2500,
    thorough=50000,
)
def circuits(case, ctx):
    from dwave.gate.circuit import CircuitContext
    from dwave.gate.simulator import simulate

    c = _circuit(case["t"], case["vars"], case["pre"])
    before = describe(c)
    how = case["how"]
    if how not in ("deepcopy", "twice") and any(
        type(o).__module__ not in BUILTIN_MODULES or "<locals>" in type(o).__qualname__
        for o in c.circuit
    ):
        how = "deepcopy"
    ctx.label(str(how))
    d = copy.deepcopy(copy.deepcopy(c)) if how == "twice" else _copy(c, how)
    require(CircuitContext.active_context is None, "copying activated a context")
    require(describe(c) == before, "copying changed the original")
    got = describe(d)
    require(got == before, lambda: f"the copy differs: {got}, original: {before}")
    consistent(d, "copy")
    separate(c, d)
    changed, kept = (d, c) if case["which"] == "copy" else (c, d)
    for s in case["edits"]:
        _edit(changed, s)
        require(describe(kept) == before, lambda: f"{s} of the {case['which']} changed the other one")
    ctx.nontrivial(
        bool(case["edits"]) and any(
            s["k"] == "m" or s["cond"] for s in case["t"]["steps"]
        ) or bool(c.num_parameters)
    )
    if not case["edits"]:
        a = lib.outcome(lambda: simulate(c, rng_seed=case["seed"]))
        b = lib.outcome(lambda: simulate(d, rng_seed=case["seed"]))
        require(a[0] == b[0], lambda: f"simulation: {a}, copy: {b}")
        if a[0] == "ok":
            x, y = describe(c), describe(d)
            require(x == y, lambda: f"after simulation: {x}, copy: {y}")
            ctx.label("simulated")
    consistent(kept, "the other one")


@check.sub(
    "large",
    lambda: st.fixed_dictionaries(
        {
            "n": st.integers(4, 12), "nb": st.integers(0, 12), "k": st.integers(5, 60),
            "cls": st.sampled_from(["Circuit", "ParametricCircuit"]), "vars": st.integers(0, 30),
            "pre": edits(), "edits": edits(), "seed": st.integers(0, 2**32 - 1),
            "how": st.sampled_from(["deepcopy", 4, "twice"]),
            "which": st.sampled_from(["copy", "original"]),
        }
    ),
    quick=120,
    thorough=2500,
)
def large(case, ctx):
    """Circuits with many registers, operations, conditions and variables."""
    import random

    r = random.Random(case["seed"])
    big = [s for s in ("pre", "edits") if any(x["k"] in ("state", "simulate") for x in case[s])]
    n = min(case["n"], 6) if big else case["n"]  # states are described entry by entry
    t = c10.random_template(r, n, case["nb"], case["k"], case["cls"])
    if case["how"] == 4:  # only operations that can be imported
        t["steps"] = [s for s in t["steps"] if s["k"] != "g" or s["plan"]["g"] in lib.GATE_POOL]
    circuits(
        {
            **case, "t": t,
            "vars": [{"g": r.choice(["RX", "Rotation"]), "i": r.randrange(25),
                      "j": r.randrange(25)} for _ in range(case["vars"])],
            "edits": case["edits"] or [{"k": "lock", "w": True}],  # without simulating
        },
        ctx,
    )


@check.sub(
    "operations",
    lambda: st.fixed_dictionaries(
        {
            "t": c10.templates(1),
            "how": st.sampled_from(["deepcopy", "copy", 4]),
            "i": st.integers(0, 9),
        }
    ),
    quick=800,
    thorough=10000,
)
def operations(case, ctx):
    """Copied operations are equal, have the same matrix, and are not applied by copying."""
    c, q, b = c10._build(case["t"])
    c.unlock()
    op = c.circuit[case["i"] % len(c.circuit)]
    before = describe(c)
    pickled = case["how"] == 4 and type(op).__module__ in BUILTIN_MODULES and (
        "<locals>" not in type(op).__qualname__
    )
    with c.context:
        if pickled:
            new = pickle.loads(pickle.dumps(op))
        else:
            new = copy.copy(op) if case["how"] == "copy" else copy.deepcopy(op)
    c.unlock()
    if before[4]:
        c.lock()
    require(describe(c) == before, "copying an operation changed the circuit")
    require(new is not op and type(new) is type(op), lambda: f"{new!r} is no copy of {op!r}")
    require(new == op and op == new and not new != op, lambda: f"{new!r} differs from {op!r}")
    require(new.num_qubits == op.num_qubits, "number of qubits differs")
    require([x.id for x in new.qubits] == [x.id for x in op.qubits], "qubits differ")
    if op.matrix is not None:
        ctx.nontrivial()
        require(np.array_equal(new.matrix, op.matrix), "matrix differs")
    if hasattr(op, "parameters") and case["how"] != "copy":
        new.parameters[0] = 17.5
        require(describe(c) == before, "the copy shares its parameters")


EDITED = ["copy", "pickle"]


@check.sub("edited-circuits", lambda: world.edited_cases(EDITED), quick=1000, thorough=20000)
def edited_circuits(case, ctx):
    """As a circuit with the same content that is built at once, after any edits and reads."""
    world.check_edited(case, ctx, EDITED)
