"""Generated circuits with a QIR form, shared by the QIR checks."""

from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from checks import lib
from checks.qirtext import BASE, EXTERNAL, QIS

ALIAS_OF = {a: g for a, g in lib.ALIASES.items()}
POOL = BASE + EXTERNAL + ["RX", "RZ", "CX", "Rotation", "CRotation", "CRX", "CSWAP", "CCX"]
BASE_POOL = BASE + ["RX", "RY", "RZ", "CX", "CX", "CZ"]
ALIASES = ["CNOT", "Phase", "Toffoli", "Fredkin"]


def params():
    return st.one_of(
        lib.angles(),
        st.floats(allow_nan=False, allow_infinity=False),
        st.integers(-5, 5),
        st.sampled_from([-0.0, 1 / 3, 0.1, 1e-300, 1e300, 5e-324, 2**53 + 1]),
    )


def gates(n, pool, ident=True):
    usable = [g for g in pool if lib.gate_arity(ALIAS_OF.get(g, g)) <= n]
    if ident:
        usable = usable + ["Identity"]

    def mk(g):
        h = ALIAS_OF.get(g, g)
        return st.fixed_dictionaries(
            {
                "g": st.just(g),
                "p": st.lists(params(), min_size=lib.gate_params(h), max_size=lib.gate_params(h)),
                "q": lib.distinct(n, lib.gate_arity(h)),
                "h": st.integers(0, 4),
                "np": st.sampled_from([0, 0, 0, 1]),
            }
        )

    return st.sampled_from(usable).flatmap(mk)


def measurements(nq, nb):
    """Measurements of distinct qubits each into bits used only once overall."""

    def split(bits):
        return st.lists(st.integers(1, 3), min_size=0, max_size=3).flatmap(
            lambda sizes: st.tuples(
                *[lib.distinct(nq, min(s, nq)) for s in sizes]
            ).map(lambda qs: _assign(qs, bits))
        )

    if nb == 0:
        return st.just([])
    return st.permutations(list(range(nb))).flatmap(split)


def _assign(qs, bits):
    out, bits = [], list(bits)
    for q in qs:
        q = q[: len(bits)]
        if not q:
            break
        out.append({"q": list(q), "b": bits[: len(q)]})
        bits = bits[len(q):]
    return out


def circuits(max_q=5, max_b=4, max_ops=8, external=True, ident=True, min_q=1, min_b=1,
             min_ops=0):
    pool = (POOL if external else BASE_POOL) + ["CNOT", "Phase"]
    if external:
        pool = pool + ["Toffoli", "Fredkin"]

    def mk(t):
        qs, cs = t
        nq, nb = lib.plan_total(qs), lib.plan_total(cs) if cs else 0
        return st.fixed_dictionaries(
            {
                "qs": st.just(qs),
                "cs": st.just(cs),
                "ops": st.lists(gates(nq, pool, ident), min_size=min_ops, max_size=max_ops),
                "meas": measurements(nq, nb),
            }
        )

    return st.tuples(
        lib.register_plans(max_q, min_q),
        st.one_of(st.just([]), lib.register_plans(max_b, min_b)),
    ).flatmap(mk)


def wide_circuits(external=True):
    """Circuits in which indices have several digits."""
    return st.sampled_from([13, 13, 25, 130]).flatmap(
        lambda n: circuits(n, n, 6, external, min_q=n - 3, min_b=n - 3, min_ops=1)
    )


def random_ops(seed, n, k, external=True):
    """k gates on n qubits, made from a seed."""
    import random

    r = random.Random(seed)
    pool = (POOL if external else BASE_POOL) + ["CNOT", "Phase", "Identity"]
    usable = [g for g in pool if lib.gate_arity(ALIAS_OF.get(g, g)) <= n]
    out = []
    for _ in range(k):
        g = r.choice(usable)
        h = ALIAS_OF.get(g, g)
        out.append(
            {
                "g": g, "p": [r.choice([r.uniform(-7, 7), float(r.randint(-3, 3))])
                              for _ in range(lib.gate_params(h))],
                "q": r.sample(range(n), lib.gate_arity(h)), "h": r.randrange(5), "np": 0,
            }
        )
    return out


def random_circuit(seed, n, nb, k, external=True):
    """A long circuit made from a seed, with all of its bits measured (or none)."""
    import random

    r = random.Random(seed)
    bits = r.sample(range(nb), nb)
    meas = []
    while bits and r.random() < 0.9:
        size = min(r.choice([1, 2, n]), len(bits), n)
        meas.append({"q": r.sample(range(n), size), "b": bits[:size]})
        bits = bits[size:]
    return {
        "qs": lib.random_registers(seed, n),
        "cs": lib.random_registers(seed + 1, nb) if nb else [],
        "ops": random_ops(seed, n, k, external),
        "meas": meas,
    }


def long_circuits():
    """Parameters of random_circuit, as drawn."""
    return st.fixed_dictionaries(
        {"n": st.integers(1, 40), "nb": st.integers(0, 40), "k": st.integers(10, 300),
         "external": st.booleans(), "seed": st.integers(0, 2**32 - 1)}
    )


def build(case):
    """The circuit, and its operations as [(gate, params, qubit indices)] without identities."""
    import dwave.gate.operations as ops

    circuit, q, c = lib.new_circuit(case["qs"], case["cs"])
    with circuit.context:
        for p in case["ops"]:
            pars = [np.float64(x) for x in p["p"]] if p["np"] else p["p"]
            lib.make_op({**p, "p": pars}, q, p["h"])
        for m in case["meas"]:
            ops.Measurement([q[i] for i in m["q"]]) | [c[i] for i in m["b"]]
    model = [
        (ALIAS_OF.get(p["g"], p["g"]), [float(x) for x in p["p"]], list(p["q"]))
        for p in case["ops"]
        if p["g"] != "Identity"
    ]
    return circuit, q, c, model


def needs_external(case):
    return any(QIS.get(ALIAS_OF.get(p["g"], p["g"]), ("", False))[1] for p in case["ops"])


def describe(circuit):
    """[(name, params, qubit indices, bit indices)] of a circuit, by the order of its registers."""
    q = [x for reg in circuit.qregisters.values() for x in reg]
    c = [x for reg in circuit.cregisters.values() for x in reg]
    qi = {x.id: i for i, x in enumerate(q)}
    ci = {x.id: i for i, x in enumerate(c)}
    out = []
    for op in circuit.circuit:
        bits = getattr(op, "bits", None)
        out.append(
            (
                type(op).__name__,
                [float(p) for p in getattr(op, "parameters", [])],
                [qi[x.id] for x in op.qubits],
                [ci[x.id] for x in bits] if bits else [],
            )
        )
    return out
