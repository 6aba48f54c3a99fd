"""C08: operations created from circuits behave like the circuit they wrap."""

import numpy as np
from hypothesis import strategies as st

from checks import lib, world
from vf.core import Check, require

check = Check(
    "C08",
    rule=(
        "random (parametric) circuits wrapped as operations, with variables used in any position, "
        "order and multiplicity; non-trivial: a variable that is used repeatedly, unused or first "
        "used out of order, or (non-parametric) at least two non-commuting operations"
    ),
    assumptions=["the wrapped circuit is not edited after the operation was created"],
)

GATES = (
    [g for g in lib.BUILTIN if lib.gate_arity(g) == 1 or lib.is_controlled(g)]
    + ["U", "UT", "CU", "CCU", "CCRY", "K1", "KP", "CCRY", "CRotation", "Rotation", "CRX", "RX"]
)
PARAM = ["RX", "RY", "RZ", "Rotation", "Rotation", "CRX", "CRY", "CRZ", "CRotation", "CRotation",
         "KP", "CCRY"]


def _snapshot(circuit):
    return (
        [(id(o), o.qubits, [(id(p), p) for p in getattr(o, "parameters", [])])
         for o in circuit.circuit],
        list(circuit.qubits), circuit.is_locked(), circuit.num_parameters,
    )


@check.sub(
    "constant",
    lambda: st.fixed_dictionaries(
        {
            "c": lib.circuits(3, 6, GATES),
            "cls": st.sampled_from(["Circuit", "ParametricCircuit"]),
            "name": st.sampled_from([None, "MyOp", "x", "Zop"]),
            "reads": st.lists(st.sampled_from(["class", "bare", "qubits", "context"]),
                              min_size=1, max_size=4),
            "h": st.integers(0, 5),
        }
    ),
    quick=1500,
    thorough=25000,
)
def constant(case, ctx):
    import dwave.gate.operations as ops
    from dwave.gate import circuit as dc

    c = case["c"]
    circuit, q, _ = lib.new_circuit(c["qs"], cls=getattr(dc, case["cls"]))
    n = len(q)
    lib.apply_ops(circuit, q, c["ops"])
    before = _snapshot(circuit)
    op_cls = (
        ops.create_operation(circuit, case["name"]) if case["name"] else ops.create_operation(circuit)
    )
    want = lib.ref_unitary(n, c["ops"])
    ctx.nontrivial(len(c["ops"]) > 1 and not lib.close(
        want, lib.ref_unitary(n, list(reversed(c["ops"])))))
    require(issubclass(op_cls, ops.Operation), "no operation was created")
    require(not issubclass(op_cls, ops.ParametricOperation), "wrongly parametric")
    require(op_cls.num_qubits == n, lambda: f"{op_cls.num_qubits} qubits instead of {n}")
    require(op_cls.__name__ == (case["name"] or "CustomOperation"), lambda: op_cls.__name__)
    require(op_cls.name == op_cls.__name__, "wrong name")
    outer = dc.Circuit(n + 1)
    oq = list(outer.qubits)
    inst = op_cls()
    withq = op_cls(oq[1:])
    for r in case["reads"]:
        if r == "class":
            m = op_cls.matrix
        elif r == "bare":
            m = inst.matrix
        elif r == "qubits":
            m = withq.matrix
        else:
            outer.unlock()
            with outer.context:
                m = op_cls(oq[:n]).matrix
            require(outer.circuit[-1].qubits == tuple(oq[:n]), "not applied to its qubits")
        require(lib.close(m, want), lambda: f"{r}: {lib.show(m)}, expected {lib.show(want)}")
        require(_snapshot(circuit) == before, "reading the matrix changed the wrapped circuit")
        m[:] = 3  # the array belongs to the caller
    require(len(outer.circuit) == case["reads"].count("context"), "spurious operations")
    lib.expect_raises(ValueError, lambda: op_cls(oq), "too many qubits")


def _param_ops():
    """Gates on 3 qubits whose parameters are numbers or variables ("v", index)."""

    def mk(g):
        k = lib.gate_params(g) if g in PARAM else 0
        fixed = [] if g in PARAM else [lib.angles()] * lib.gate_params(g)
        par = st.one_of(
            st.tuples(st.just("v"), st.integers(0, 4)), st.tuples(st.just("n"), lib.angles()),
            st.tuples(st.just("v"), st.integers(0, 2)),
        )
        return st.fixed_dictionaries(
            {
                "g": st.just(g),
                "pv": st.lists(par, min_size=k, max_size=k),
                "pf": st.tuples(*fixed).map(list),
                "q": lib.distinct(3, lib.gate_arity(g)),
                "h": st.integers(0, 4),
            }
        )

    return st.sampled_from(PARAM * 3 + GATES).flatmap(mk)


@check.sub(
    "parametric",
    lambda: st.fixed_dictionaries(
        {
            "ops": st.lists(_param_ops(), min_size=1, max_size=6),
            "layout": st.sampled_from([[["init", 3]], [["reg", 2], ["reg", 1]],
                                       [["reg", 1], ["reg", 1], ["one", 0]]]),
            "calls": st.lists(
                st.fixed_dictionaries(
                    {
                        "p": st.lists(lib.angles(), min_size=5, max_size=5),
                        "how": st.sampled_from(["bare", "qubits", "context"]),
                        "reads": st.integers(1, 2),
                    }
                ),
                min_size=1, max_size=3,
            ),
            "order": st.permutations([0, 1, 2]),
            "preset": st.booleans(),
        }
    ),
    quick=2500,
    thorough=40000,
)
def parametric(case, ctx):
    import dwave.gate.operations as ops
    from dwave.gate.circuit import Circuit, ParametricCircuit

    for o in case["ops"]:
        lib.gate_class(o["g"], o["pf"])
    circuit, q, _ = lib.new_circuit(case["layout"], cls=ParametricCircuit)
    used = []
    with circuit.context as regs:
        for o in case["ops"]:
            pars = [regs.p[v] if k == "v" else v for k, v in o["pv"]] or o["pf"]
            used += [v for k, v in o["pv"] if k == "v"]
            lib.make_op({"g": o["g"], "p": pars, "q": o["q"]}, q, o["h"])
    num = max(used) + 1 if used else 0
    first = list(dict.fromkeys(used))
    ctx.nontrivial(len(used) > len(first) or sorted(first) != first or len(first) < num)
    if case["preset"] and used:
        lib.params_of(circuit)[0].set(9.25)  # values of variables do not matter
    before = _snapshot(circuit)
    op_cls = ops.create_operation(circuit, "Par")
    if not num:
        require(not issubclass(op_cls, ops.ParametricOperation), "wrongly parametric")
        return
    require(issubclass(op_cls, ops.ParametricOperation), "not parametric")
    require(op_cls.num_parameters == num, lambda: f"{op_cls.num_parameters} != {num}")
    require(op_cls.num_qubits == 3, "wrong number of qubits")
    require(op_cls.matrix is None, "the class of a parametric operation has no matrix")
    outer = Circuit(4)
    oq = list(outer.qubits)

    def want(p):
        u = np.eye(8, dtype=complex)
        for o in case["ops"]:
            pars = [p[v] if k == "v" else v for k, v in o["pv"]] or o["pf"]
            u = lib.full_unitary(lib.gate_ref(o["g"], pars), o["q"], 3) @ u
        return u

    made = []
    for call in case["calls"]:
        p = call["p"][:num]
        if call["how"] == "bare":
            inst = op_cls(p)
        elif call["how"] == "qubits":
            inst = op_cls(tuple(p), oq[:3])
        else:
            outer.unlock()
            with outer.context:
                inst = op_cls(p, [oq[3], oq[0], oq[2]])
                inst.matrix
        made.append((inst, p, call["reads"]))
    for k in case["order"]:
        if k >= len(made):
            continue
        inst, p, reads = made[k]
        for _ in range(reads):
            m, w = inst.matrix, want(p)
            require(
                lib.close(m, w), lambda: f"parameters {p}: {lib.show(m)}, expected {lib.show(w)}"
            )
            m[:] = 2
        require(list(inst.parameters) == p, "parameters changed")
        require(_snapshot(circuit) == before, "reading the matrix changed the wrapped circuit")
    require(
        len(outer.circuit) == sum(c["how"] == "context" for c in case["calls"]),
        "spurious operations",
    )
    lib.expect_raises(ValueError, lambda: op_cls([0.1] * (num + 1), oq[:3]), "too many parameters")
    lib.expect_raises(ValueError, lambda: op_cls([0.1] * num, oq[:2]), "too few qubits")
    # changing one instance's parameters affects that instance only
    a, b = op_cls([0.1] * num), op_cls([0.1] * num)
    a.parameters[num - 1] = 1.9
    require(lib.close(a.matrix, want([0.1] * (num - 1) + [1.9])), "parameter change ignored")
    require(lib.close(b.matrix, want([0.1] * num)), "instances affect each other")


@check.sub(
    "many-variables",
    lambda: st.fixed_dictionaries(
        {"vars": st.integers(4, 40), "ops": st.integers(5, 60), "seed": st.integers(0, 2**32 - 1)}
    ),
    quick=250,
    thorough=5000,
)
def many_variables(case, ctx):
    """Circuits of dozens of operations with dozens of variables."""
    import random

    r = random.Random(case["seed"])

    def val():
        return round(r.uniform(-7, 7), 5)

    ops_ = []
    for plan in lib.random_plans(case["seed"], 3, case["ops"], PARAM * 3 + GATES):
        par = plan["g"] in PARAM
        pv = [("v", r.randrange(case["vars"])) if r.random() < 0.8 else ("n", x)
              for x in plan["p"]]
        ops_.append({"g": plan["g"], "pv": pv if par else [], "pf": [] if par else plan["p"],
                     "q": plan["q"], "h": plan["h"] % 5})
    parametric(
        {
            "ops": ops_,
            "layout": r.choice([[["init", 3]], [["reg", 2], ["reg", 1]]]),
            "calls": [
                {"p": [val() for _ in range(case["vars"])],
                 "how": r.choice(["bare", "qubits", "context"]), "reads": r.randint(1, 2)}
                for _ in range(r.randint(1, 2))
            ],
            "order": r.sample(range(3), 3),
            "preset": r.random() < 0.3,
        },
        ctx,
    )


@check.sub(
    "large",
    lambda: st.fixed_dictionaries(
        {"n": st.integers(4, 6), "k": st.integers(5, 60), "seed": st.integers(0, 2**32 - 1)}
    ),
    quick=60,
    thorough=1500,
)
def large(case, ctx):
    """Operations on up to six qubits made from circuits with several registers."""
    constant(
        {
            "c": {
                "qs": lib.random_registers(case["seed"], case["n"]),
                "ops": lib.random_plans(case["seed"], case["n"], case["k"], GATES),
            },
            "cls": "Circuit", "name": None, "reads": ["class", "context", "qubits"], "h": 0,
        },
        ctx,
    )


EDITED = ["wrap"]


@check.sub(
    "again",
    lambda: st.fixed_dictionaries(
        {
            "parametric": st.booleans(),
            "rounds": st.lists(
                st.tuples(st.integers(0, 2), st.integers(0, 4), st.integers(0, 2),
                          st.sampled_from([None, None, "MyOp"]), st.integers(0, 2**32 - 1)),
                min_size=2, max_size=4,
            ).map(lambda rs: [list(r) for r in rs]),
        }
    ),
    quick=500,
    thorough=10000,
)
def again(case, ctx):
    """Operations created repeatedly from a circuit which grows in between."""
    import dwave.gate.operations as ops
    from dwave.gate.circuit import Circuit, ParametricCircuit

    circuit = ParametricCircuit(1) if case["parametric"] else Circuit(1)
    plans, grown = [], 0
    values = [round(0.37 * (i + 1) * (-1) ** i, 4) for i in range(40)]
    num_vars = 0
    for add, k, new, name, seed in case["rounds"]:
        n0, v0 = circuit.num_qubits, num_vars
        for _ in range(add if n0 < 4 else 0):
            circuit.add_qubit()
        n = circuit.num_qubits
        more = lib.random_plans(seed, n, k, GATES)
        circuit.unlock()
        lib.apply_ops(circuit, list(circuit.qubits), more)
        circuit.unlock()
        with circuit.context as regs:
            for i in range(new if case["parametric"] else 0):
                ops.RY(regs.p[num_vars], regs.q[i % n])
                more = more + [{"g": "RY", "p": [values[num_vars]], "q": [i % n]}]
                num_vars += 1
        plans += more
        cls = ops.create_operation(circuit, name) if name else ops.create_operation(circuit)
        require(cls.__name__ == (name or "CustomOperation"), lambda: f"name {cls.__name__}")
        require(cls.num_qubits == n, lambda: f"{cls.num_qubits} qubits, circuit has {n}")
        if num_vars:
            require(
                cls.num_parameters == num_vars,
                lambda: f"{cls.num_parameters} parameters, circuit has {num_vars}",
            )
            got = cls(values[:num_vars]).matrix
        else:
            got = cls().matrix
        want = lib.ref_unitary(n, plans)
        require(lib.close(got, want), lambda: f"{lib.show(got)}, expected {lib.show(want)}")
        grown += n > n0 or num_vars > v0
    ctx.nontrivial(grown > 1 and len(plans) > 1)


@check.sub("edited", lambda: world.edited_cases(EDITED), quick=1000, thorough=20000)
def edited(case, ctx):
    """As a circuit with the same content that is built at once, after any edits and reads."""
    world.check_edited(case, ctx, EDITED)
