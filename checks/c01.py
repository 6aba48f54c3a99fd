"""C01: state-vector simulation equals the product of the gate unitaries."""

import numpy as np
from hypothesis import strategies as st

from checks import lib, world
from vf.core import Check, require

check = Check(
    "C01",
    rule=(
        "random circuits (registers built in different ways, built-in and user-defined gates, all "
        "call forms) simulated and compared entry by entry with an independent tensor-network "
        "reference, in both endiannesses; non-trivial: at least one multi-qubit gate and a "
        "reference state with at least two non-zero amplitudes, or an enumerated placement case"
    ),
    assumptions=["tolerance 1e-10 per amplitude", "numpy's tensordot is correct"],
)


def _run(case, ctx):
    from dwave.gate.simulator import simulate

    circuit, q, _ = lib.new_circuit(case["qs"])
    n = len(q)
    lib.apply_ops(circuit, q, case["ops"])
    ref = lib.ref_evolve(n, case["ops"])
    multi = any(len(p["q"]) > 1 for p in case["ops"])
    ctx.nontrivial(multi and int(np.sum(np.abs(ref) > 1e-6)) >= 2)
    ctx.label(f"n={n}")
    if any(p["g"] in lib.USER_QUBITS for p in case["ops"]):
        ctx.label("user-defined gate")
    if len(circuit.qregisters) > 1:
        ctx.label("several registers")
    order = [False, True, None] if not case.get("rev") else [True, None, False]
    kept = []
    for le in order:
        if le is None:
            simulate(circuit)  # big-endian is the default
        else:
            simulate(circuit, little_endian=le)
        want = lib.to_vec(ref, bool(le))
        got = circuit.state
        require(
            lib.close(got, want),
            lambda: f"little_endian={le}: got {lib.show(got)}, expected {lib.show(want)}",
        )
        kept.append((got, got.copy()))
        require(
            all(np.array_equal(a, b) for a, b in kept), "simulating changed a state read earlier"
        )
    require(len(circuit.circuit) == len(case["ops"]), "simulation changed the operation list")


@check.sub(
    "random-circuits",
    lambda: st.builds(
        lambda c, rev: {**c, "rev": rev},
        lib.circuits(6, 14, lib.GATE_POOL + lib.USER_POOL),
        st.booleans(),
    ),
    quick=5000,
    thorough=120000,
)
def random_circuits(case, ctx):
    _run(case, ctx)


@check.sub(
    "wide-circuits",
    lambda: lib.circuits(12, 10, lib.GATE_POOL, min_qubits=7),
    quick=500,
    thorough=8000,
)
def wide_circuits(case, ctx):
    _run(case, ctx)


@check.sub(
    "long-circuits",
    lambda: st.fixed_dictionaries(
        {"n": st.integers(2, 12), "k": st.integers(15, 300), "seed": st.integers(0, 2**32 - 1),
         "rev": st.booleans()}
    ),
    quick=120,
    thorough=3000,
)
def long_circuits(case, ctx):
    """Hundreds of operations, and up to a dozen registers."""
    plans = lib.random_plans(case["seed"], case["n"], case["k"], lib.GATE_POOL + lib.USER_POOL)
    qs = lib.random_registers(case["seed"], case["n"])
    _run({"qs": qs, "ops": plans, "rev": case["rev"]}, ctx)


@check.sub(
    "huge-circuits",
    lambda: st.builds(
        lambda c, le, seed: {**c, "le": le, "seed": seed},
        lib.circuits(18, 8, lib.GATE_POOL + ["CU", "CCU", "CCRY"], min_qubits=13, min_ops=1),
        st.booleans(),
        st.integers(0, 7),
    ),
    quick=90,
    thorough=1500,
)
def huge_circuits(case, ctx):
    """State vectors whose indices do not fit into 16 bits, all amplitudes non-zero."""
    import dwave.gate.operations as ops
    from dwave.gate.simulator import simulate

    circuit, q, _ = lib.new_circuit(case["qs"])
    n = len(q)
    prep = [{"g": "RY", "p": [0.4 + 0.13 * ((i * 5 + case["seed"]) % 17)], "q": [i]} for i in range(n)]
    with circuit.context:
        for p in prep:
            ops.RY(p["p"], q[p["q"][0]])
    circuit.unlock()
    lib.apply_ops(circuit, q, case["ops"])
    amps = np.ones(1)
    for p in prep:
        amps = np.kron(amps, [np.cos(p["p"][0] / 2), np.sin(p["p"][0] / 2)])
    ref = lib.ref_evolve(n, case["ops"], amps.astype(complex).reshape((2,) * n))
    ctx.nontrivial(any(len(p["q"]) > 1 for p in case["ops"]))
    ctx.label(f"n={n}")
    simulate(circuit, little_endian=case["le"])
    want = lib.to_vec(ref, case["le"])
    got = circuit.state
    require(got.shape == want.shape, lambda: f"shape {got.shape}, expected {want.shape}")
    d = np.abs(got - want)
    k = int(d.argmax())
    require(d[k] <= 1e-9, lambda: f"amplitude {k} is {got[k]}, expected {want[k]}")


def _placements():
    """Every gate on every ordered choice of qubits of small circuits, after a generic state."""
    import itertools

    cases = []
    for n in (1, 2, 3, 4):
        for g in lib.BUILTIN + lib.USER_POOL:
            k = lib.gate_arity(g)
            if k > n:
                continue
            for qs in itertools.permutations(range(n), k):
                p = [0.3 + 0.41 * i for i in range(lib.gate_params(g))]
                cases.append({"n": n, "g": g, "q": list(qs), "p": p})
    return cases


@check.sub("every-placement", fixed=_placements)
def every_placement(case, ctx):
    n = case["n"]
    prep = [
        {"g": "Rotation", "p": [0.2 + i, 0.7 + 0.3 * i, 1.1 - 0.2 * i], "q": [i], "h": 0}
        for i in range(n)
    ]
    if n > 1:
        prep += [{"g": "CX", "p": [], "q": [i, i + 1], "h": 0} for i in range(n - 1)]
    prep += [{"g": "RY", "p": [0.5 + 0.1 * i], "q": [i], "h": 0} for i in range(n)]
    main = {"g": case["g"], "p": case["p"], "q": case["q"], "h": 0}
    _run({"qs": [["init", n]], "ops": prep + [main]}, ctx)
    ctx.nontrivial()


@check.sub(
    "barriers",
    lambda: lib.circuits(5, 8, lib.GATE_POOL, min_ops=1).flatmap(
        lambda c: st.lists(
            st.tuples(
                st.integers(0, len(c["ops"])),
                lib.distinct(lib.plan_total(c["qs"]), lib.plan_total(c["qs"])),
                st.integers(1, lib.plan_total(c["qs"])),
            ),
            min_size=1,
            max_size=4,
        ).map(lambda b: {**c, "barriers": b})
    ),
    quick=500,
    thorough=10000,
)
def barriers(case, ctx):
    """Barriers anywhere, on any qubits, have no effect on the state."""
    import dwave.gate.operations as ops
    from dwave.gate.simulator import simulate

    circuit, q, _ = lib.new_circuit(case["qs"])
    with circuit.context:
        for i, p in enumerate(case["ops"] + [None]):
            for pos, qs, k in case["barriers"]:
                if pos == i:
                    ops.Barrier([q[x] for x in qs[:k]])
            if p is not None:
                lib.make_op(p, q, p["h"] % 5)
    ref = lib.ref_evolve(len(q), case["ops"])
    ctx.nontrivial(int(np.sum(np.abs(ref) > 1e-6)) >= 2)
    for le in (False, True):
        simulate(circuit, little_endian=le)
        want = lib.to_vec(ref, le)
        require(lib.close(circuit.state, want), lambda: f"{lib.show(circuit.state)} != {lib.show(want)}")
    require(len(circuit.circuit) == len(case["ops"]) + len(case["barriers"]), "operations lost")


def _unsupported(kind):
    """Operations which the simulator does not support."""
    import dwave.gate.operations as ops
    from dwave.gate.circuit import Circuit
    from dwave.gate.mixedproperty import mixedproperty

    if kind == "two-qubit":

        class TwoQubit(ops.Operation):
            _num_qubits = 2

            @mixedproperty
            def matrix(cls):
                return np.eye(4, dtype=complex)[[0, 1, 3, 2]]

        return TwoQubit, 2
    if kind == "custom-two-qubit":
        sub = Circuit(2)
        with sub.context as r:
            ops.Hadamard(r.q[0])
            ops.CX(r.q[0], r.q[1])
        return ops.create_operation(sub, name="Bell"), 2
    if kind == "CCCX":

        class CCCX(ops.ControlledOperation):
            _num_control = 3
            _num_target = 1
            _target_operation = ops.X

        return CCCX, 4
    if kind == "CCCRX":
        from dwave.gate.operations.base import ParametricControlledOperation

        class CCCRX(ParametricControlledOperation):
            _num_control = 3
            _num_target = 1
            _num_params = 1
            _target_operation = ops.RX

        return (lambda qubits: CCCRX([0.7], qubits=qubits)), 4
    raise KeyError(kind)


_UNSUPPORTED = {
    "two-qubit": np.eye(4, dtype=complex)[[0, 1, 3, 2]],
    "custom-two-qubit": lib.controlled(lib.ref_matrix("X"), 1)
    @ np.kron(lib.ref_matrix("Hadamard"), np.eye(2)),
    "CCCX": lib.controlled(lib.ref_matrix("X"), 3),
    "CCCRX": lib.controlled(lib.rx(0.7), 3),
}


@check.sub(
    "unsupported",
    lambda: st.fixed_dictionaries(
        {
            "kind": st.sampled_from(["two-qubit", "custom-two-qubit", "CCCX", "CCCRX"]),
            "n": st.integers(4, 5),
            "perm": st.permutations(list(range(5))),
            "mixed": st.booleans(),
            "le": st.booleans(),
            "x": st.lists(st.integers(0, 3), max_size=4),
        }
    ),
    quick=150,
    thorough=1500,
)
def unsupported(case, ctx):
    """... are reported, never silently skipped or half applied."""
    import dwave.gate.operations as ops
    from dwave.gate.circuit import Circuit
    from dwave.gate.simulator import simulate

    cls, k = _unsupported(case["kind"])
    circuit = Circuit(case["n"])
    qs = [i for i in case["perm"] if i < case["n"]][:k]
    with circuit.context as regs:
        for i in case["x"]:
            ops.X(regs.q[i])
        cls(qubits=[regs.q[i] for i in qs])
    ctx.nontrivial()
    kind, res = lib.outcome(
        lambda: simulate(circuit, mixed_state=case["mixed"], little_endian=case["le"])
    )
    if kind == "ok":  # then it has to be right
        s = lib.zero_state(case["n"])
        for i in case["x"]:
            s = lib.apply_tensor(s, lib.ref_matrix("X"), [i])
        s = lib.to_vec(lib.apply_tensor(s, _UNSUPPORTED[case["kind"]], qs), case["le"])
        got, want = circuit.density_matrix, np.outer(s, s.conj())
        require(
            lib.close(got, want),
            lambda: f"{case['kind']} accepted, but gives {lib.show(got)}, not {lib.show(want)}",
        )


@check.sub("no-qubits", fixed=lambda: [{"mixed": m, "le": b} for m in (0, 1) for b in (0, 1)])
def no_qubits(case, ctx):
    from dwave.gate.circuit import Circuit
    from dwave.gate.simulator import simulate

    circuit = Circuit()
    simulate(circuit, mixed_state=bool(case["mixed"]), little_endian=bool(case["le"]))
    require(circuit.state is None, "a circuit without qubits has a state")
    ctx.nontrivial()


def _rounds():
    edit = st.one_of(
        st.builds(lambda i, q: ["setq", i, q], st.integers(0, 9), lib.distinct(3, 3)),
        st.builds(lambda i, j, v: ["param", i, j, v], st.integers(0, 9), st.integers(0, 2), lib.angles()),
        st.builds(lambda i: ["remove", i], st.integers(0, 9)),
        st.builds(lambda p: ["append", p], lib.gate_plans(3, lib.GATE_POOL + lib.USER_POOL)),
    )
    return st.fixed_dictionaries(
        {
            "order": lib.distinct(3, 3),
            "ops": st.lists(lib.gate_plans(3, lib.GATE_POOL + lib.USER_POOL), min_size=1, max_size=5),
            "rounds": st.lists(
                st.tuples(st.lists(edit, max_size=3), st.integers(0, 1), st.integers(0, 2)).map(list),
                min_size=2, max_size=4,
            ),
        }
    )


@check.sub("rounds", _rounds, quick=1000, thorough=25000)
def rounds(case, ctx):
    """Two circuits share qubits, in another order, and operations; simulated and edited in turns."""
    import dwave.gate.operations as ops
    from dwave.gate.circuit import Circuit
    from dwave.gate.simulator import simulate

    n = 3
    one = Circuit(n)
    two = Circuit()
    order = case["order"]
    q = list(one.qubits)
    for i in order:
        two.add_qubit(q[i])
    plans = [{"g": "RY", "p": [0.5 + 0.6 * i], "q": [i]} for i in range(n)]
    held = []
    for p in case["ops"] + [e[1] for r in case["rounds"] for e in r[0] if e[0] == "append"]:
        lib.gate_class(p["g"], p["p"])  # made outside of the context
    with one.context:
        for p in plans:
            held.append(ops.RY(p["p"], q[p["q"][0]]))
        for p in case["ops"]:
            plans.append({"g": p["g"], "p": list(p["p"]), "q": list(p["q"])})
            held.append(lib.make_op(p, q, p.get("h", 0) % 5))
    held = list(one.circuit)
    two.extend(held)
    one.unlock()
    changed = 0
    for edits, which, mode in case["rounds"]:
        for e in edits:
            i = e[1] % len(held) if e[0] != "append" and held else None
            if e[0] == "setq" and held:
                at = e[2][: len(plans[i]["q"])]
                held[i].qubits = [q[j] for j in at]
                plans[i]["q"] = at
                changed += 1
            elif e[0] == "param" and held and getattr(held[i], "parameters", None):
                j = e[2] % len(held[i].parameters)
                held[i].parameters[j] = plans[i]["p"][j] = e[3]
                changed += 1
            elif e[0] == "remove" and held:
                del one.circuit[i], two.circuit[i], held[i], plans[i]
            elif e[0] == "append":
                with one.context:
                    op = lib.make_op(e[1], q, e[1].get("h", 0) % 5)
                one.unlock()
                two.append(op)
                held.append(op)
                plans.append({"g": e[1]["g"], "p": list(e[1]["p"]), "q": list(e[1]["q"])})
        for c, at in [((one, range(n)), (two, order))[which], ((two, order), (one, range(n)))[which]]:
            at = list(at)
            ref = lib.ref_evolve(n, [{**p, "q": [at.index(j) for j in p["q"]]} for p in plans])
            simulate(c, mixed_state=mode == 2, little_endian=mode == 1)
            want = lib.to_vec(ref, mode == 1)
            if mode == 2:
                got, want = c.density_matrix, np.outer(want, want.conj())
            else:
                got = c.state
            require(
                lib.close(got, want),
                lambda: f"{lib.show(got)}, expected {lib.show(want)} for {plans} with qubits {at}",
            )
    ctx.nontrivial(changed > 0)


EDITED = ["simulate", "little"]


@check.sub("edited", lambda: world.edited_cases(EDITED, edits=["simulate", "setq"] * 5), quick=1000, thorough=20000)
def edited(case, ctx):
    """As a circuit with the same content that is built at once, after any edits and reads."""
    world.check_edited(case, ctx, EDITED)
