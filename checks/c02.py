"""C02: density-matrix simulation agrees with the pure-state evolution."""

import numpy as np
from hypothesis import strategies as st

from checks import lib, world
from vf.core import Check, require

check = Check(
    "C02",
    rule=(
        "random circuits (all gates, register layouts, call forms; optionally with measurements) "
        "simulated as density matrix and as state vector in both endiannesses, compared with the "
        "independent reference; non-trivial: the reference density matrix has an entry with "
        "imaginary part and differs from its transpose and its qubit-reversed form"
    ),
    assumptions=["tolerance 1e-10 per entry"],
)


def _check_density(dm, what):
    require(dm is not None and dm.ndim == 2 and dm.shape[0] == dm.shape[1], f"{what}: {dm!r}")
    require(lib.close(dm, dm.conj().T), lambda: f"{what} not Hermitian: {lib.show(dm)}")
    require(abs(np.trace(dm) - 1) < 1e-9, lambda: f"{what}: trace {np.trace(dm)}")
    require(
        float(np.linalg.eigvalsh(dm).min()) > -1e-9, lambda: f"{what} not positive: {lib.show(dm)}"
    )


def _expect(dm, want, what):
    _check_density(dm, what)
    require(lib.close(dm, want), lambda: f"{what}: got {lib.show(dm)}, expected {lib.show(want)}")


def _classify(ctx, ref):
    v = lib.to_vec(ref)
    rho = np.outer(v, v.conj())
    w = lib.to_vec(ref, True)
    if np.abs(rho.imag).max() > 1e-6:
        ctx.label("complex")
        if len(v) == 2 or not lib.close(rho, np.outer(w, w.conj()), 1e-6):
            ctx.nontrivial()


@check.sub(
    "unitary-circuits",
    lambda: st.builds(
        lambda c, order: {**c, "order": order},
        lib.circuits(5, 9, lib.GATE_POOL + lib.USER_POOL, min_ops=1),
        st.permutations(["mixed-be", "mixed-le", "pure-be", "pure-le", "mixed-default"]),
    ),
    quick=3500,
    thorough=60000,
)
def unitary_circuits(case, ctx):
    from dwave.gate.circuit import CircuitError
    from dwave.gate.simulator import simulate

    circuit, q, _ = lib.new_circuit(case["qs"])
    lib.apply_ops(circuit, q, case["ops"])
    ref = lib.ref_evolve(len(q), case["ops"])
    _classify(ctx, ref)
    ctx.label(f"n={len(q)}")
    kept = []
    for how in case["order"]:
        le = how.endswith("le")
        v = lib.to_vec(ref, le)
        rho = np.outer(v, v.conj())
        if how == "mixed-default":
            simulate(circuit, mixed_state=True)
        else:
            simulate(circuit, mixed_state=how.startswith("mixed"), little_endian=le)
        if how.startswith("pure"):
            require(lib.close(circuit.state, v), lambda: f"{how}: state {lib.show(circuit.state)}")
        else:
            lib.expect_raises(CircuitError, lambda: circuit.state, "state of a mixed simulation")
        _expect(circuit.density_matrix, rho, how)
        # reading twice gives the same
        _expect(circuit.density_matrix, rho, how + " (second read)")
        if how.startswith("pure"):
            require(lib.close(circuit.state, v), "state changed by reading the density matrix")
        for was, dm, copy in kept:
            require(
                np.array_equal(dm, copy),
                lambda w=was: f"density matrix read after {w} changed by simulating {how}",
            )
        dm = circuit.density_matrix
        kept.append((how, dm, dm.copy()))


@check.sub(
    "long-circuits",
    lambda: st.fixed_dictionaries(
        {"n": st.integers(1, 6), "k": st.integers(10, 150), "seed": st.integers(0, 2**32 - 1),
         "order": st.permutations(["mixed-be", "mixed-le", "pure-be"])}
    ),
    quick=80,
    thorough=2000,
)
def long_circuits(case, ctx):
    """Up to 150 operations, and several registers."""
    pool = lib.GATE_POOL + lib.USER_POOL
    plans = lib.random_plans(case["seed"], case["n"], case["k"], pool)
    qs = lib.random_registers(case["seed"], case["n"])
    unitary_circuits({"qs": qs, "ops": plans, "order": case["order"]}, ctx)


@check.sub(
    "large-circuits",
    lambda: st.builds(
        lambda c, le: {**c, "le": le},
        lib.circuits(9, 6, lib.GATE_POOL, min_qubits=6, min_ops=1),
        st.booleans(),
    ),
    quick=60,
    thorough=1000,
)
def large_circuits(case, ctx):
    """Density matrices of more than 2^16 entries, all of them non-zero."""
    import dwave.gate.operations as ops
    from dwave.gate.simulator import simulate

    circuit, q, _ = lib.new_circuit(case["qs"])
    n = len(q)
    prep = [{"g": "Rotation", "p": [0.3 * i, 0.5 + 0.2 * i, 0.1], "q": [i]} for i in range(n)]
    with circuit.context:
        for p in prep:
            ops.Rotation(p["p"], q[p["q"][0]])
    circuit.unlock()
    lib.apply_ops(circuit, q, case["ops"])
    v = lib.to_vec(lib.ref_evolve(n, prep + case["ops"]), case["le"])
    ctx.nontrivial()
    ctx.label(f"n={n}")
    simulate(circuit, mixed_state=True, little_endian=case["le"])
    dm = circuit.density_matrix
    rho = np.outer(v, v.conj())
    require(lib.close(dm, rho), lambda: f"got {lib.show(dm)}, expected {lib.show(rho)}")


@check.sub(
    "measured-circuits",
    lambda: st.builds(
        lambda c, meas, seed: {**c, "meas": meas, "seed": seed},
        lib.circuits(4, 8, lib.GATE_POOL, min_ops=1),
        st.lists(st.tuples(st.integers(0, 8), st.integers(0, 3)), min_size=1, max_size=3),
        st.integers(0, 2**31),
    ),
    quick=1500,
    thorough=25000,
)
def measured_circuits(case, ctx):
    """The density matrix after measurements is that of the collapsed state."""
    import dwave.gate.operations as ops
    from dwave.gate.simulator import simulate

    circuit, q, c = lib.new_circuit(case["qs"], [["init", 3]])
    n = len(q)
    made = []
    with circuit.context:
        for i in range(len(case["ops"]) + 1):
            for j, (pos, qb) in enumerate(case["meas"]):
                if min(pos, len(case["ops"])) == i:
                    made.append(("m", qb % n, j))
                    ops.Measurement(q[qb % n]) | c[j]
            if i < len(case["ops"]):
                p = case["ops"][i]
                made.append(("g", p))
                lib.make_op(p, q, p["h"] % 5)
    simulate(circuit, mixed_state=True, rng_seed=case["seed"])
    s = lib.zero_state(n)
    branched = False
    for m in made:
        if m[0] == "g":
            s = lib.apply_tensor(s, lib.gate_ref(m[1]["g"], m[1]["p"]), m[1]["q"])
        else:
            out = c[m[2]].value
            require(out in (0, 1), f"measurement outcome {out!r} not stored")
            sel = [slice(None)] * n
            sel[m[1]] = 1 - out
            s = s.copy()
            branched = branched or np.abs(s[tuple(sel)]).max() > 1e-6
            s[tuple(sel)] = 0
            nrm = np.linalg.norm(s)
            require(nrm > 1e-7, f"outcome {out} of qubit {m[1]} has probability zero")
            s = s / nrm
    v = lib.to_vec(s)
    ctx.nontrivial(branched)
    _expect(circuit.density_matrix, np.outer(v, v.conj()), "measured circuit")
    bits = [b.value for b in c]
    # the same seed gives the same outcomes and density matrix
    simulate(circuit, mixed_state=True, rng_seed=case["seed"])
    require([b.value for b in c] == bits, "same seed, other outcomes")
    _expect(circuit.density_matrix, np.outer(v, v.conj()), "measured circuit, again")


def _placements():
    import itertools

    cases = []
    for n in (1, 2, 3):
        for g in lib.BUILTIN + lib.USER_POOL:
            k = lib.gate_arity(g)
            if k > n:
                continue
            for qs in itertools.permutations(range(n), k):
                p = [0.3 + 0.41 * i for i in range(lib.gate_params(g))]
                cases.append({"n": n, "g": g, "q": list(qs), "p": p})
    return cases


@check.sub("every-placement", fixed=_placements)
def every_placement(case, ctx):
    n = case["n"]
    prep = [
        {"g": "Rotation", "p": [0.2 + i, 0.7 + 0.3 * i, 1.1 - 0.2 * i], "q": [i], "h": 0}
        for i in range(n)
    ]
    if n > 1:
        prep += [{"g": "CX", "p": [], "q": [i, i + 1], "h": 0} for i in range(n - 1)]
    prep += [{"g": "RX", "p": [0.5 + 0.1 * i], "q": [i], "h": 0} for i in range(n)]
    main = {"g": case["g"], "p": case["p"], "q": case["q"], "h": 0}
    unitary_circuits(
        {
            "qs": [["init", n]],
            "ops": prep + [main],
            "order": ["mixed-be", "mixed-le", "pure-be", "pure-le"],
        },
        ctx,
    )


EDITED = ["mixed"]


@check.sub("edited", lambda: world.edited_cases(EDITED, edits=["simulate", "setq"] * 5), quick=1000, thorough=20000)
def edited(case, ctx):
    """As a circuit with the same content that is built at once, after any edits and reads."""
    world.check_edited(case, ctx, EDITED)
