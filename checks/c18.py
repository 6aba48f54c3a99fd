"""C18: QIR export and import round-trip circuits."""

import numpy as np
from hypothesis import strategies as st

from checks import lib, world, qirlib
from checks.qirtext import Qir, same_calls
from vf.core import Check, require

check = Check(
    "C18",
    rule=(
        "random circuits over random register layouts with final measurements, exported, loaded "
        "(as text or bitcode) and exported again; non-trivial: a parametric gate, and a gate "
        "on several qubits in a non-ascending order"
    ),
    assumptions=[
        "finite real parameters; no bit is measured twice; qubits and bits after the last used "
        "one are not part of the program; consecutive measurements are loaded as one measurement",
    ],
)


def cases(circuits=qirlib.circuits):
    return st.booleans().flatmap(
        lambda e: st.fixed_dictionaries(
            {
                "c": circuits(external=e),
                "ext": st.just(True) if e else st.booleans(),
                "code": st.booleans(),
                "api": st.sampled_from(["circuit", "circuit", "loader", "loader", "module", "context", "subclass", "parametric"]),
                "seed": st.integers(0, 99),
            }
        )
    )


def _subclass():
    from dwave.gate.circuit import Circuit

    return type("Named", (Circuit,), {})


def _parametric():
    from dwave.gate.circuit import ParametricCircuit

    return ParametricCircuit


CLASSES = {"subclass": _subclass, "parametric": _parametric}


def load(case, circuit):
    import pyqir
    from dwave.gate.circuit import Circuit
    from dwave.gate.qir.compiler import qir_module
    from dwave.gate.qir.loader import load_qir_bitcode, load_qir_string

    kw = {"add_external": True} if case["ext"] else {}
    code = case["code"]
    if case["api"] == "module":
        m = qir_module(circuit, **kw)
        data = m.bitcode if code else m.qir
    else:
        data = circuit.to_qir(bitcode=code, **kw) if code else circuit.to_qir(**kw)
    if case["api"] in CLASSES:
        cls = CLASSES[case["api"]]()
        return cls.from_qir(data, bitcode=True) if code else cls.from_qir(data)
    if case["api"] == "circuit":
        return Circuit.from_qir(data, bitcode=True) if code else Circuit.from_qir(data)
    fn = load_qir_bitcode if code else load_qir_string
    if case["api"] == "context":
        return fn(data, context=pyqir.Context())
    return fn(data)


@check.sub("roundtrip", cases, quick=4500, thorough=80000)
def roundtrip(case, ctx):
    from dwave.gate.simulator.simulator import simulate

    circuit, q, c, model = qirlib.build(case["c"])
    meas = case["c"]["meas"]
    before = qirlib.describe(circuit)
    loaded = load(case, circuit)
    names = {"subclass": "Named", "parametric": "ParametricCircuit"}
    require(type(loaded).__name__ == names.get(case["api"], "Circuit"), f"loaded a {type(loaded)}")
    want = [(g, p, qs, []) for g, p, qs in model]
    if meas:
        want.append(
            ("Measurement", [], [i for m in meas for i in m["q"]], [i for m in meas for i in m["b"]])
        )
    got = qirlib.describe(loaded)
    require(
        len(got) == len(want)
        and all(
            a == b and [np.signbit(x) for x in a[1]] == [np.signbit(x) for x in b[1]]
            for a, b in zip(got, want)
        ),
        lambda: f"loaded {got}, expected {want}",
    )
    used = [i for w in want for i in w[2]]
    bits = [i for w in want for i in w[3]]
    require(
        loaded.num_qubits == max(used, default=-1) + 1
        and loaded.num_bits == max(bits, default=-1) + 1,
        lambda: f"{loaded.num_qubits} qubits and {loaded.num_bits} bits loaded for {used}, {bits}",
    )
    require(
        len(loaded.qregisters) == (1 if used else 0) and len(loaded.cregisters) == (1 if bits else 0),
        lambda: f"registers {loaded.qregisters}, {loaded.cregisters}",
    )
    require(qirlib.describe(circuit) == before, "the circuit was changed")
    # export the loaded circuit
    kw = {"add_external": True} if case["ext"] else {}
    a, b = Qir(circuit.to_qir(**kw)), Qir(loaded.to_qir(**kw))
    require(
        same_calls(a.calls, b.calls) and a.declared == b.declared and a.flags == b.flags,
        lambda: f"exporting again gives {b.calls} instead of {a.calls}",
    )
    # simulate
    params = [abs(x) for _, p, _ in model for x in p]
    big = max(params, default=0) > 1e6
    if used and not big and len(meas) <= 1 and circuit.num_qubits <= 8:
        n, k = circuit.num_qubits, loaded.num_qubits
        simulate(circuit, rng_seed=case["seed"])
        simulate(loaded, rng_seed=case["seed"])
        full = lib.to_vec(loaded.state)
        rest = np.zeros(2 ** (n - k), dtype=complex)
        rest[0] = 1
        require(
            lib.close(np.kron(full, rest), lib.to_vec(circuit.state), 1e-8),
            "the loaded circuit simulates to another state",
        )
        if meas:
            require(
                [x.value for x in loaded.bits] == [x.value for x in circuit.bits[: loaded.num_bits]],
                "the loaded circuit measures other values",
            )
    ctx.nontrivial(
        any(m[1] for m in model)
        and any(list(m[2]) != sorted(m[2]) for m in model)
    )
    for m in model:
        ctx.label(m[0])


@check.sub("wide", lambda: cases(qirlib.wide_circuits), quick=500, thorough=8000)
def wide(case, ctx):
    roundtrip(case, ctx)


@check.sub("long", qirlib.long_circuits, quick=100, thorough=2000)
def long(case, ctx):
    """Hundreds of operations on dozens of qubits in several registers."""
    i = case["seed"]
    roundtrip(
        {"c": qirlib.random_circuit(i, case["n"], case["nb"], case["k"], case["external"]),
         "ext": case["external"], "code": i % 2 == 1, "seed": 1,
         "api": ["circuit", "loader", "module", "context", "subclass", "parametric"][i // 2 % 6]},
        ctx,
    )


EDITED = ["bitcode", "reload"]


@check.sub("edited", lambda: world.edited_cases(EDITED, plain=True), quick=1000, thorough=20000)
def edited(case, ctx):
    """As a circuit with the same content that is built at once, after any edits and reads."""
    world.check_edited(case, ctx, EDITED)
