"""C06: the unitary built from a circuit is the ordered product of its gates."""

import copy

import numpy as np
from hypothesis import strategies as st

from checks import lib, world
from vf.core import Check, fail, require

check = Check(
    "C06",
    rule=(
        "random circuits of supported operations over random register layouts, with edits between "
        "calls; non-trivial: at least two operations that do not commute, one of them controlled "
        "with its qubits not adjacent and ascending, or an edit that changes the unitary"
    ),
    assumptions=["qubit 0 is the most significant", "tolerance 1e-10 per entry"],
)

SUPPORTED = (
    [g for g in lib.BUILTIN if lib.gate_arity(g) == 1 or lib.is_controlled(g)]
    + ["CNOT", "Phase", "CX", "CRotation", "CRX", "CRY", "CRZ", "CCU", "CCRY", "CU", "CCU", "CCRY"]
    + lib.USER_POOL
)


def _snapshot(circuit):
    return (
        [
            (id(op), op.qubits, list(getattr(op, "parameters", [])), getattr(op, "control", None))
            for op in circuit.circuit
        ],
        [list(r) for r in circuit.qregisters.values()],
        [list(r) for r in circuit.cregisters.values()],
        circuit.is_locked(),
    )


def _noncommuting(n, plans):
    mats = [lib.full_unitary(lib.gate_ref(p["g"], p["p"]), p["q"], n) for p in plans[:6]]
    return any(
        not lib.close(a @ b, b @ a) for i, a in enumerate(mats) for b in mats[i + 1:]
    )


def _scattered(plans):
    return any(
        lib.is_controlled(p["g"]) and p["q"] != list(range(p["q"][0], p["q"][0] + len(p["q"])))
        for p in plans
    )


def _check(circuit, n, plans, what):
    from dwave.gate.tools import build_unitary

    before = _snapshot(circuit)
    got = build_unitary(circuit)
    require(_snapshot(circuit) == before, f"{what}: building the unitary changed the circuit")
    want = lib.ref_unitary(n, plans)
    require(
        lib.close(got, want), lambda: f"{what}: {lib.show(got)}, expected {lib.show(want)}"
    )
    return got


@check.sub(
    "product",
    lambda: st.fixed_dictionaries(
        {
            "c": lib.circuits(4, 7, SUPPORTED, min_ops=1),
            "context": st.sampled_from([None, None, "other", "own"]),
        }
    ),
    quick=2500,
    thorough=40000,
)
def product(case, ctx):
    from dwave.gate.circuit import Circuit
    from dwave.gate.simulator import simulate

    c = case["c"]
    circuit, q, _ = lib.new_circuit(c["qs"])
    n = len(q)
    lib.apply_ops(circuit, q, c["ops"])
    if case["context"] == "other":
        other = Circuit(n)
        with other.context:
            _check(circuit, n, c["ops"], "within another context")
        require(len(other.circuit) == 0, "operations were applied to another circuit")
    elif case["context"] == "own":
        circuit.unlock()
        with circuit.context:
            _check(circuit, n, c["ops"], "within the circuit's own context")
    u = _check(circuit, n, c["ops"], "circuit")
    ctx.nontrivial(_noncommuting(n, c["ops"]) and (_scattered(c["ops"]) or n == 1))
    simulate(circuit)
    require(lib.close(circuit.state, u[:, 0]), "simulation and unitary disagree")


@check.sub(
    "large",
    lambda: lib.circuits(7, 4, [g for g in SUPPORTED if lib.gate_arity(g) > 1], min_qubits=5,
                         min_ops=1),
    quick=250,
    thorough=4000,
)
def large(case, ctx):
    circuit, q, _ = lib.new_circuit(case["qs"])
    lib.apply_ops(circuit, q, case["ops"])
    ctx.nontrivial(_scattered(case["ops"]))
    _check(circuit, len(q), case["ops"], "circuit")


@check.sub(
    "many-controls",
    lambda: st.integers(3, 6).flatmap(
        lambda nc: st.integers(nc + 1, 8).flatmap(
            lambda n: st.fixed_dictionaries(
                {
                    "n": st.just(n),
                    "nc": st.just(nc),
                    "t": st.sampled_from(["X", "Hadamard", "S", "RY", "Rotation", "U"]),
                    "p": st.lists(lib.angles(), min_size=4, max_size=4),
                    "q": st.lists(lib.distinct(n, nc + 1), min_size=1, max_size=3),
                    "r": st.integers(0, 2**16),
                }
            )
        )
    ),
    quick=150,
    thorough=3000,
)
def many_controls(case, ctx):
    """Operations with three to six controls, anywhere in the circuit."""
    n, nc, t = case["n"], case["nc"], case["t"]
    p = case["p"][: lib.gate_params(t)]
    cls = lib.many_controlled(nc, t, p)
    circuit, q, _ = lib.new_circuit(lib.random_registers(case["r"], n))
    with circuit.context:
        for at in case["q"]:
            args = [[q[i] for i in at[:-1]], q[at[-1]]]
            cls(*args) if t in ("X", "Hadamard", "S", "U") else cls(p, *args)
    want = np.eye(2**n)
    for at in case["q"]:
        want = lib.full_unitary(lib.controlled(lib.gate_ref(t, p), nc), at, n) @ want
    ctx.nontrivial(any(at != sorted(at) for at in case["q"]))
    from dwave.gate.tools import build_unitary

    got = build_unitary(circuit)
    require(lib.close(got, want), lambda: f"{lib.show(got)}, expected {lib.show(want)}")


@check.sub(
    "long",
    lambda: st.fixed_dictionaries(
        {"n": st.integers(2, 6), "k": st.integers(8, 120), "seed": st.integers(0, 2**32 - 1)}
    ),
    quick=80,
    thorough=1500,
)
def long(case, ctx):
    """Circuits with up to 120 operations and several registers."""
    plans = lib.random_plans(case["seed"], case["n"], case["k"], SUPPORTED)
    circuit, q, _ = lib.new_circuit(lib.random_registers(case["seed"], case["n"]))
    lib.apply_ops(circuit, q, plans)
    ctx.nontrivial(_scattered(plans))
    _check(circuit, case["n"], plans, "circuit")


EDITS = ["append", "remove", "param", "qubits", "scribble", "again", "clear", "copy", "extend"]


def _edits():
    return st.lists(
        st.fixed_dictionaries(
            {
                "e": st.sampled_from(EDITS),
                "i": st.integers(0, 9),
                "v": lib.angles(),
                "o": lib.gate_plans(3, SUPPORTED, how=True),
                "q": lib.distinct(3, 3),
            }
        ),
        min_size=1, max_size=5,
    )


@check.sub(
    "edits",
    lambda: st.fixed_dictionaries(
        {
            "ops": st.lists(lib.gate_plans(3, SUPPORTED), max_size=4),
            "edits": _edits(),
            "layout": st.sampled_from([[["init", 3]], [["reg", 1], ["reg", 2]],
                                       [["reg", 2], ["reg", 0], ["one", 2]]]),
        }
    ),
    quick=1500,
    thorough=25000,
)
def edits(case, ctx):
    """The unitary reflects the circuit as it is now."""
    circuit, q, _ = lib.new_circuit(case["layout"])
    plans = [dict(p) for p in case["ops"]]
    lib.apply_ops(circuit, q, plans)
    last = _check(circuit, 3, plans, "initial")
    ref = last.copy()
    changed = False
    for k, e in enumerate(case["edits"]):
        kind, i = e["e"], e["i"]
        if kind in ("append", "extend"):
            p = dict(e["o"])
            lib.gate_class(p["g"], p["p"])
            circuit.unlock()
            if kind == "append":
                lib.apply_ops(circuit, q, [p])
            else:
                circuit.extend([lib.make_op(p, q, 1)])
            plans.append(p)
        elif kind == "remove" and plans:
            j = i % len(plans)
            op = circuit.circuit[j]
            first = next(x for x, o in enumerate(circuit.circuit) if o == op)
            circuit.remove(op)
            del plans[first]
        elif kind == "param" and plans:
            j = i % len(plans)
            op = circuit.circuit[j]
            if hasattr(op, "parameters"):
                m = i % len(op.parameters)
                op.parameters[m] = e["v"]
                plans[j] = dict(plans[j], p=[e["v"] if x == m else v
                                             for x, v in enumerate(plans[j]["p"])])
        elif kind == "qubits" and plans:
            j = i % len(plans)
            a = lib.gate_arity(plans[j]["g"])
            circuit.circuit[j].qubits = tuple(q[x] for x in e["q"][:a])
            plans[j] = dict(plans[j], q=e["q"][:a])
        elif kind == "scribble":
            last[:] = 7  # the returned array is the caller's
        elif kind == "clear":
            circuit.reset()
            plans = []
        elif kind == "copy":
            _check(copy.deepcopy(circuit), 3, plans, "deep copy")
            continue
        last = _check(circuit, 3, plans, f"after edit {k} ({kind})")
        changed |= not lib.close(last, ref)
    ctx.nontrivial(changed)


@check.sub(
    "unsupported",
    lambda: st.fixed_dictionaries(
        {
            "n": st.integers(1, 4),
            "before": st.lists(st.tuples(st.sampled_from(["X", "Hadamard"]), st.integers(0, 3)),
                               max_size=2),
            "bad": st.sampled_from(["SWAP", "CSWAP", "CCX", "K2", "Measurement", "nomatrix",
                                    "barrier", "conditional", "conditional-cx"]),
            "q": lib.distinct(4, 4),
            "at": st.integers(0, 2),
        }
    ),
    quick=600,
    thorough=5000,
)
def unsupported(case, ctx):
    """Either the unitary is right or there is an error; never a wrong unitary."""
    import dwave.gate.operations as ops
    from dwave.gate.circuit import Circuit
    from dwave.gate.tools import build_unitary

    n, bad = case["n"], case["bad"]
    size = {"SWAP": 2, "CSWAP": 3, "CCX": 3, "K2": 2,
            "conditional-cx": 2}.get(bad, 1)
    if n < size:
        return
    circuit = Circuit(n, n)
    q = [i for i in case["q"] if i < n][:size]
    ref = None

    class NoMatrix(ops.Operation):
        _num_qubits = 1

    if bad in ("SWAP", "CSWAP", "CCX"):
        cls, ref = getattr(ops, bad), lib.ref_matrix(bad)
    elif bad == "K2":
        sub = Circuit(2)
        with sub.context as r:
            ops.Hadamard(r.q[1])
            ops.CX(r.q[1], r.q[0])
        cls = ops.create_operation(sub, "K2")
        ref = lib.full_unitary(lib.ref_matrix("CX"), [1, 0], 2) @ lib.full_unitary(
            lib.ref_matrix("Hadamard"), [1], 2
        )
    elif bad == "barrier":
        cls, ref = ops.Barrier, np.eye(2)
    elif bad.startswith("conditional"):
        # applied or not depending on the bits (set or not when building): no fixed unitary
        if case["at"] == 1:
            circuit.bits[0].set(case["q"][0] % 2)

        def cls(qubits):
            gate = (ops.CX if bad == "conditional-cx" else ops.Y)(qubits=qubits)
            return gate.conditional(circuit.bits[: 1 + case["q"][1] % 2])
    else:
        cls = NoMatrix if bad == "nomatrix" else ops.Measurement
    with circuit.context as r:
        seq = []
        for k, (g, i) in enumerate(case["before"]):
            if k == case["at"]:
                cls(qubits=tuple(r.q[x] for x in q))
                seq.append((ref, q))
            getattr(ops, g)(r.q[i % n])
            seq.append((lib.ref_matrix(g), [i % n]))
        if case["at"] >= len(case["before"]):
            cls(qubits=tuple(r.q[x] for x in q))
            seq.append((ref, q))
    before = _snapshot(circuit)
    ctx.nontrivial(n > 1)
    ctx.label(bad)
    kind, res = lib.outcome(lambda: build_unitary(circuit))
    require(_snapshot(circuit) == before, "building the unitary changed the circuit")
    if kind == "ok":
        if ref is None:
            fail(f"{bad} has no unitary, but {lib.show(res)} was built")
        want = np.eye(2**n)
        for m, at in seq:
            want = lib.full_unitary(m, at, n) @ want
        require(lib.close(res, want), lambda: f"wrong unitary for a circuit with {bad}: "
                f"{lib.show(res)}, expected {lib.show(want)}")


@check.sub("empty", fixed=lambda: [{"n": n} for n in range(0, 8)])
def empty(case, ctx):
    from dwave.gate.circuit import Circuit
    from dwave.gate.tools import build_unitary

    ctx.nontrivial(case["n"] > 0)
    require(lib.close(build_unitary(Circuit(case["n"])), np.eye(2 ** case["n"])), "not identity")
    require(lib.close(build_unitary(Circuit()), np.eye(1)), "not identity")


EDITED = ["unitary"]


@check.sub("edited-circuits", lambda: world.edited_cases(EDITED), quick=1000, thorough=20000)
def edited_circuits(case, ctx):
    """As a circuit with the same content that is built at once, after any edits and reads."""
    world.check_edited(case, ctx, EDITED)
