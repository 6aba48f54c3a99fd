"""C05: gate matrices equal their definitions in every form of access."""


import numpy as np
from hypothesis import strategies as st

from checks import lib, world
from vf.core import Check, require

check = Check(
    "C05",
    rule=(
        "every gate and alias with random parameters, qubit orders and contexts (none, own circuit, "
        "frozen, unrelated circuit), compared with the textbook matrix; non-trivial: parameters "
        "away from multiples of pi/2, or a gate within a context with its qubits out of order"
    ),
    assumptions=["tolerance 1e-10 per entry", "decompositions list gates in order of application"],
)

CONST = [g for g in lib.BUILTIN if not lib.gate_params(g)]
ALL = lib.BUILTIN + sorted(lib.ALIASES) + lib.USER_POOL


def controlled_relative(u, ranks, num_control):
    """Controlled u on len(ranks) qubits, where ranks[i] is the position of qubit i."""
    n = len(ranks)
    return lib.full_unitary(lib.controlled(u, num_control), ranks, n)


def _same(got, want, what):
    require(isinstance(got, np.ndarray), lambda: f"{what}: {got!r} is no matrix")
    require(lib.close(got, want), lambda: f"{what}: {lib.show(got)}, expected {lib.show(want)}")
    k = got.shape[0]
    require(lib.close(got.conj().T @ got, np.eye(k)), f"{what} is not unitary")


@check.sub(
    "access",
    lambda: st.sampled_from(ALL).flatmap(
        lambda g: st.fixed_dictionaries(
            {
                "g": st.just(g),
                "p": st.lists(lib.angles(), min_size=lib.gate_params(g), max_size=lib.gate_params(g)),
                "h": st.integers(0, 4),
                "reads": st.permutations(["class", "bare", "qubits", "bare", "qubits"]),
            }
        )
    ),
    quick=6000,
    thorough=100000,
)
def access(case, ctx):
    """Class, instance without qubits, instance with qubits; outside of contexts."""
    from dwave.gate.primitives import Qubit

    g, p = case["g"], case["p"]
    want = lib.gate_ref(g, p)
    cls = lib.gate_class(g, p)
    args = lib.gate_args(g, p)
    k = lib.gate_arity(g)
    qubits = [Qubit(str(i)) for i in range(k)]
    bare = cls(args) if args else cls()
    withq = lib.make_op({"g": g, "p": p, "q": list(range(k))}, qubits, case["h"])
    ctx.nontrivial(any(abs((x / (np.pi / 2)) % 1) > 1e-3 for x in p))
    ctx.label(g)
    for r in case["reads"]:
        if r == "class":
            got = cls.matrix
            if args:  # the class of a parametric operation has no matrix
                require(got is None, lambda: f"{g}.matrix is {got!r}")
                continue
        else:
            op = bare if r == "bare" else withq
            before = (op.qubits, list(getattr(op, "parameters", [])))
            got = op.matrix
            require(
                (op.qubits, list(getattr(op, "parameters", []))) == before,
                "reading the matrix changed the operation",
            )
        _same(got, want, f"{g}({p}) via {r}")
    if lib.is_controlled(g):
        require(
            cls.num_qubits == k and cls.num_control == lib.num_control(g) and cls.num_target == 1,
            lambda: f"{g}: {cls.num_qubits} qubits, {cls.num_control} controls, {cls.num_target}",
        )
    require(cls.num_qubits == k and withq.num_qubits == k, f"{g}: wrong number of qubits")
    if args:
        require(cls.num_parameters == len(args) == bare.num_parameters, f"{g}: num_parameters")


@check.sub("aliases", fixed=lambda: [{"a": a} for a in sorted(lib.ALIASES)])
def aliases(case, ctx):
    import dwave.gate.operations as ops

    a = case["a"]
    require(
        getattr(ops, a) is getattr(ops, lib.ALIASES[a]), f"{a} is not {lib.ALIASES[a]}"
    )
    ctx.nontrivial()


@check.sub(
    "in-context",
    lambda: st.sampled_from(ALL + ["CX", "CRotation", "CCU", "CCRY", "CCX", "CSWAP"] * 2).flatmap(
        lambda g: st.integers(lib.gate_arity(g), 5).flatmap(
            lambda n: st.fixed_dictionaries(
                {
                    "g": st.just(g),
                    "n": st.just(n),
                    "p": st.lists(
                        lib.angles(), min_size=lib.gate_params(g), max_size=lib.gate_params(g)
                    ),
                    "q": lib.distinct(n, lib.gate_arity(g)),
                    "h": st.integers(0, 5),
                    "where": st.lists(
                        st.sampled_from(["inside", "frozen", "other", "outside", "second"]),
                        min_size=1, max_size=4,
                    ),
                    "split": st.integers(0, 3),
                    "parametric": st.booleans(),
                }
            )
        )
    ),
    quick=3500,
    thorough=50000,
)
def in_context(case, ctx):
    """Within a context, controlled operations order their qubits as the circuit does."""
    from dwave.gate.circuit import Circuit, ParametricCircuit

    g, p, n = case["g"], case["p"], case["n"]
    split = min(case["split"], n)
    steps = [["init", n]] if not split else [["reg", split], ["reg", n - split]]
    circuit, q, _ = lib.new_circuit(steps, cls=ParametricCircuit if case["parametric"] else Circuit)
    lib.gate_class(g, p)
    made = lib.apply_ops(circuit, q, [{"g": g, "p": p, "q": case["q"], "h": case["h"]}])
    op = made[0]
    base = lib.gate_ref(g, p)
    if lib.is_controlled(g):
        ranks = [sorted(case["q"]).index(i) for i in case["q"]]
        inside = lib.full_unitary(base, ranks, len(ranks))
    else:
        inside = base
    ctx.nontrivial(lib.is_controlled(g) and case["q"] != sorted(case["q"]))
    other = Circuit(n)
    before = list(circuit.circuit)
    for w in case["where"]:
        if w == "outside":
            _same(op.matrix, base, f"{g} outside of its context")
        elif w in ("inside", "frozen", "second"):
            circuit.unlock()
            with circuit.context:
                if w == "frozen":
                    with circuit.context.freeze:
                        m = op.matrix
                else:
                    m = op.matrix
                    if w == "second":
                        m = op.matrix
            _same(m, inside, f"{g} on qubits {case['q']} within its context ({w})")
        else:
            other.unlock()
            with other.context:
                m = op.matrix
            _same(m, base, f"{g} within another circuit's context")
            require(len(other.circuit) == 0, "reading a matrix applied an operation")
        require(
            len(circuit.circuit) == len(before)
            and all(a is b for a, b in zip(circuit.circuit, before)),
            "reading a matrix changed the circuit",
        )
    if lib.is_controlled(g):
        require(
            list(op.control) + list(op.target) == [q[i] for i in case["q"]],
            "control and target changed",
        )


CONTROLLED = [g for g in ALL if lib.is_controlled(g)]


@check.sub(
    "partly-in-context",
    lambda: st.sampled_from(CONTROLLED).flatmap(
        lambda g: st.fixed_dictionaries(
            {
                "g": st.just(g),
                "p": st.lists(
                    lib.angles(), min_size=lib.gate_params(g), max_size=lib.gate_params(g)
                ),
                "q": lib.distinct(4, lib.gate_arity(g)),
                "own": st.lists(st.booleans(), min_size=4, max_size=4),
                "rev": st.booleans(),
            }
        )
    ),
    quick=400,
    thorough=8000,
)
def partly_in_context(case, ctx):
    """Within a context whose circuit lacks a qubit of the operation, its own order counts."""
    from dwave.gate.circuit import Circuit
    from dwave.gate.primitives import Qubit

    qubits = [Qubit(f"q{i}") for i in range(4)]
    own = [q for q, mine in zip(qubits, case["own"]) if mine]
    if all(case["own"][i] for i in case["q"]):
        return
    circuit = Circuit()
    for qb in reversed(own) if case["rev"] else own:
        circuit.add_qubit(qb)
    op = lib.make_op({"g": case["g"], "p": case["p"], "q": case["q"]}, qubits, 0)
    ctx.nontrivial(any(case["own"][i] for i in case["q"]))
    want = lib.gate_ref(case["g"], case["p"])
    with circuit.context:
        m = op.matrix
    _same(m, want, f"{case['g']} on {case['q']} with only {case['own']} in the context")
    _same(op.matrix, want, f"{case['g']} after the context")


@check.sub(
    "many-controls",
    lambda: st.integers(1, 5).flatmap(
        lambda nc: st.fixed_dictionaries(
            {
                "nc": st.just(nc),
                "t": st.sampled_from(["X", "Hadamard", "S", "RY", "Rotation", "U"]),
                "p": st.lists(lib.angles(), min_size=4, max_size=4),
                "q": lib.distinct(6, nc + 1),
            }
        )
    ),
    quick=300,
    thorough=6000,
)
def many_controls(case, ctx):
    """User-defined operations with up to five controls."""
    from dwave.gate.circuit import Circuit

    nc, t = case["nc"], case["t"]
    k = lib.gate_params(t)
    p = case["p"][:k]
    cls = lib.many_controlled(nc, t, p)
    run_time = [] if t == "U" else p
    want = lib.controlled(lib.gate_ref(t, p), nc)
    ctx.nontrivial(nc > 2 and case["q"] != sorted(case["q"]))
    circuit = Circuit(6)
    q = list(circuit.qubits)
    with circuit.context:
        args = [[q[i] for i in case["q"][:-1]], q[case["q"][-1]]]
        op = cls(run_time, *args) if run_time else cls(*args)
        inside = op.matrix
    ranks = [sorted(case["q"]).index(i) for i in case["q"]]
    _same(inside, lib.full_unitary(want, ranks, nc + 1), f"C{nc}{t} within its context")
    _same(op.matrix, want, f"C{nc}{t}")
    if not run_time:
        _same(cls.matrix, want, f"class C{nc}{t}")


@check.sub(
    "while-building",
    lambda: lib.circuits(4, 8, lib.GATE_POOL + lib.USER_POOL, min_ops=1),
    quick=600,
    thorough=10000,
)
def while_building(case, ctx):
    """Reading matrices while applying operations does not disturb the circuit."""
    from dwave.gate.simulator import simulate

    circuit, q, _ = lib.new_circuit(case["qs"])
    for p in case["ops"]:
        lib.gate_class(p["g"], p["p"])
    made = []
    with circuit.context:
        for p in case["ops"]:
            op = lib.make_op(p, q, p["h"] % 5)
            made.append(op)
            op.matrix
            type(op).matrix
    require(
        len(circuit.circuit) == len(made) and all(a is b for a, b in zip(circuit.circuit, made)),
        "reading matrices changed the circuit",
    )
    for p, op in zip(case["ops"], made):
        _same(op.matrix, lib.gate_ref(p["g"], p["p"]), f"{p['g']} after the context")
    simulate(circuit)
    ref = lib.to_vec(lib.ref_evolve(len(q), case["ops"]))
    ctx.nontrivial(len(made) > 1)
    require(lib.close(circuit.state, ref), "simulation differs after reading matrices")


@check.sub(
    "decompositions",
    lambda: st.builds(
        lambda g, ps: {"g": g, "p": ps},
        st.sampled_from(lib.BUILTIN),
        st.lists(lib.angles(), min_size=3, max_size=3),
    ),
    fixed=lambda: [{"g": g, "p": [0.3, 1.1, -0.7]} for g in lib.BUILTIN],
    quick=400,
    thorough=4000,
)
def decompositions(case, ctx):
    """A declared decomposition, applied in order on the same qubits, equals the gate."""
    import dwave.gate.operations as ops

    cls = getattr(ops, case["g"])
    p = case["p"][: lib.gate_params(case["g"])]
    got, labels = lib.outcome(lambda: cls.decomposition)
    if got == "err" and isinstance(labels, NotImplementedError):
        require(case["g"] not in ("Z", "Rotation"), lambda: f"{case['g']} has lost its decomposition")
        return
    require(got == "ok", lambda: f"{case['g']}: decomposition raised {labels!r}")
    ctx.nontrivial()
    k = cls.num_qubits
    u = np.eye(2**k, dtype=complex)
    left = list(p)
    labels = list(labels)
    for name in labels:
        m = getattr(ops, name)
        np_ = lib.gate_params(name)
        mine, left = left[:np_], left[np_:]
        u = (m(mine).matrix if np_ else m.matrix) @ u
    require(not left, f"{case['g']}: decomposition ignores parameters {left}")
    want = lib.ref_matrix(case["g"], p)
    i = np.unravel_index(np.argmax(np.abs(want)), want.shape)
    phase = u[i] / want[i]
    require(
        abs(abs(phase) - 1) < 1e-9 and lib.close(u, phase * want),
        lambda: f"{case['g']}: decomposition {cls.decomposition} gives {lib.show(u)}",
    )
    inst = cls(p) if p else cls()
    require(inst.decomposition == cls.decomposition, "decomposition differs on the instance")
    require(list(inst.decomposition) == list(labels), "decomposition changed by reading it")


EDITED = ["matrices"]


@check.sub("edited", lambda: world.edited_cases(EDITED), quick=1000, thorough=20000)
def edited(case, ctx):
    """As a circuit with the same content that is built at once, after any edits and reads."""
    world.check_edited(case, ctx, EDITED)
