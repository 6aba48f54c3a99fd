"""C03: mid-circuit measurements record, collapse and condition consistently."""

import numpy as np
from hypothesis import strategies as st

from checks import lib, world
from vf.core import Check, fail, require

check = Check(
    "C03",
    rule=(
        "random sequences of gates, measurements (any qubits, order, bits) and operations "
        "conditioned on bits, simulated with random seeds as state vector and density matrix; a "
        "reference model enumerates all branches with their collapsed states, and the observed "
        "bits, measured states and final state must be those of one branch of non-zero "
        "probability; non-trivial: at least two branches, and a gate or conditional after a "
        "measurement"
    ),
    assumptions=[
        "bits that conditions refer to hold a value (set by the user or measured) at that point",
        "the measured qubits of one measurement are distinct",
    ],
)


def steps(n, nbits, max_steps=9):
    def cond():
        return st.one_of(
            st.just([]),
            st.just([]),
            st.lists(st.integers(0, nbits - 1), min_size=1, max_size=3, unique=True),
        )

    gate = st.builds(
        lambda p, c: {"k": "g", "plan": p, "cond": c}, lib.gate_plans(n, lib.GATE_POOL), cond()
    )
    branching = st.builds(
        lambda g, q, t, c: {"k": "g", "plan": {"g": g, "p": [t] if g != "Hadamard" else [],
                                               "q": [q], "h": 0}, "cond": c},
        st.sampled_from(["Hadamard", "RX", "RY"]),
        st.integers(0, n - 1),
        lib.angles(),
        cond(),
    )
    meas = st.integers(1, min(n, nbits, 3)).flatmap(
        lambda k: st.builds(
            lambda q, b, c, how, extra: {
                "k": "m", "q": q, "b": b[: k + extra] if how != "none" else None, "cond": c,
                "how": how,
            },
            lib.distinct(n, k),
            lib.distinct(nbits, nbits),
            cond(),
            st.sampled_from(["tuple", "list", "list", "one", "register", "none"]),
            st.integers(0, 1),
        )
    )
    return st.lists(st.one_of(gate, branching, meas, meas), min_size=2, max_size=max_steps)


def cases(mixed):
    return st.tuples(lib.register_plans(4 if not mixed else 3), st.integers(2, 4)).flatmap(
        lambda t: st.fixed_dictionaries(
            {
                "qs": st.just(t[0]),
                "nb": st.just(t[1]),
                "preset": st.lists(st.integers(0, 1), min_size=t[1], max_size=t[1]),
                "steps": steps(lib.plan_total(t[0]), t[1]),
                "seed": st.integers(0, 2**32 - 1),
                "sims": st.integers(1, 3),
                "prep": st.sampled_from([True, True, False]),
            }
        )
    ).map(_prep)


def _prep(case):
    """Usually starts from an entangled state, so that measurements have several outcomes."""
    if case.pop("prep"):
        n = lib.plan_total(case["qs"])
        first = [("RX", [0.9 + 0.3 * i], [i]) for i in range(n)]
        first += [("CX", [], [i, i + 1]) for i in range(n - 1)]
        first += [("RY", [1.1 + 0.2 * i], [i]) for i in range(n)]
        case["steps"] = [
            {"k": "g", "plan": {"g": g, "p": p, "q": q, "h": 0}, "cond": []} for g, p, q in first
        ] + case["steps"]
    return case


def _measured(circuit, step, q, c):
    """Applies the measurement; returns (operation, indices of the bits it is stored in)."""
    import dwave.gate.operations as ops
    from dwave.gate.registers.registers import ClassicalRegister

    qs = [q[i] for i in step["q"]]
    m = ops.Measurement(qs[0] if len(qs) == 1 and step["how"] == "one" else qs)
    if step["how"] == "none":
        return m, None
    bits = [c[i] for i in step["b"]]
    if step["how"] == "one" and len(qs) == 1:
        bits = bits[:1]
        r = m | bits[0]
    elif step["how"] == "tuple":
        r = m | tuple(bits)
    elif step["how"] == "register":
        # a register of exactly these bits; bits of the circuit by identity
        r = m | ClassicalRegister(bits)
    else:
        r = m | bits
    require(r is m, "measuring into bits does not return the measurement")
    return m, step["b"][: len(qs)]


def _branches(n, case, stored):
    """All branches: (probability, state, bit values, pre-measurement states per measurement)."""
    out = [(1.0, lib.zero_state(n), list(case["preset"]), [])]
    for step, dest in zip(case["steps"], stored):
        new = []
        for p, s, bits, pre in out:
            if step["cond"] and not all(bits[b] for b in step["cond"]):
                new.append((p, s, bits, pre + ([None] if step["k"] == "m" else [])))
                continue
            if step["k"] == "g":
                plan = step["plan"]
                m = lib.gate_ref(plan["g"], plan["p"])
                new.append((p, lib.apply_tensor(s, m, plan["q"]), bits, pre))
                continue
            pre = pre + [s]
            cur = [(p, s, bits)]
            for idx, qb in enumerate(step["q"]):
                nxt = []
                for pp, ss, bb in cur:
                    for v in (0, 1):
                        sel = [slice(None)] * n
                        sel[qb] = 1 - v
                        t = ss.copy()
                        t[tuple(sel)] = 0
                        w = float(np.vdot(t, t).real)
                        if w < 1e-12:
                            continue
                        b2 = list(bb)
                        if dest is not None:
                            b2[dest[idx]] = v
                        nxt.append((pp * w, t / np.sqrt(w), b2))
                cur = nxt
            new.extend((pp, ss, bb, pre) for pp, ss, bb in cur)
        out = new
        if len(out) > 600:
            return None
    return out


def _run(case, ctx, mixed):
    from dwave.gate.simulator import simulate

    circuit, q, c = lib.new_circuit(case["qs"], [["init", case["nb"]]])
    n = len(q)
    measurements, stored = [], []
    with circuit.context:
        for step in case["steps"]:
            if step["k"] == "g":
                op = lib.make_op(step["plan"], q, step["plan"]["h"] % 5)
                stored.append(None)
            else:
                op, dest = _measured(circuit, step, q, c)
                measurements.append(op)
                stored.append(dest)
            if step["cond"]:
                bits = [c[b] for b in step["cond"]]
                r = op.conditional(bits[0] if len(bits) == 1 else bits)
                require(r is op, "conditional() does not return the operation")
    branches = _branches(n, case, stored)
    if branches is None:
        ctx.label("too many branches (skipped)")
        return
    first = [i for i, s in enumerate(case["steps"]) if s["k"] == "m"]
    ctx.nontrivial(len(branches) > 1 and first and first[0] < len(case["steps"]) - 1)
    ctx.label(f"branches: {min(len(branches), 8)}" + ("+" if len(branches) >= 8 else ""))
    if any(s["cond"] for s in case["steps"]):
        ctx.label("conditional")
    if any(s["cond"] and s["k"] == "m" for s in case["steps"]):
        ctx.label("conditional measurement")
    for sim in range(case["sims"]):
        for b, v in zip(c, case["preset"]):
            b.set(v, force=True)
        simulate(circuit, mixed_state=mixed, rng_seed=case["seed"] + sim)
        bits = [b.value for b in c]
        if mixed:
            got = circuit.density_matrix
        else:
            got = circuit.state

        def as_given(s):
            v = lib.to_vec(s)
            return np.outer(v, v.conj()) if mixed else v

        reasons = []
        for p, s, bb, pre in branches:
            if bb != bits:
                continue
            if not lib.close(got, as_given(s), 1e-8):
                reasons.append("final state differs")
                continue
            ok = True
            for m, want in zip(measurements, pre):
                if want is None:
                    # not executed in this simulation: no state, or that of an earlier simulation
                    ok = ok and (sim > 0 or m.state is None)
                elif m.state is None or not lib.close(m.state, as_given(want), 1e-8):
                    ok = False
            if ok:
                break
            reasons.append("measured states differ")
        else:
            fail(
                f"bits {bits}, state {lib.show(got)} belong to no branch "
                f"({sorted(set(reasons)) or 'these bits are impossible'}); seed "
                f"{case['seed'] + sim}"
            )
        # results stay available: reading them does not change anything
        for m in measurements:
            if m.bits is not None:
                require([b.value for b in m.bits] == [bits[c.index(b)] for b in m.bits], "m.bits")


@check.sub("state-vector", lambda: cases(False), quick=5000, thorough=80000)
def state_vector(case, ctx):
    _run(case, ctx, False)


@check.sub(
    "long",
    lambda: st.fixed_dictionaries(
        {
            "mixed": st.sampled_from([False, False, True]),
            "n": st.integers(2, 11),
            "k": st.integers(10, 80),
            "preset": st.integers(0, 12),
            "seed": st.integers(0, 2**32 - 1),
            "sims": st.integers(1, 2),
        }
    ),
    quick=400,
    thorough=8000,
)
def long(case, ctx):
    """Many operations, and measurements and conditions on many (qu)bits; every outcome has a bit of
    its own, so that the reference can follow the outcomes."""
    import random

    import dwave.gate.operations as ops
    from dwave.gate.simulator import simulate

    mixed = case["mixed"]
    n = min(case["n"], 5) if mixed else case["n"]
    r = random.Random(case["seed"])
    plans = lib.random_plans(case["seed"] + 1, n, case["k"], lib.GATE_POOL + ["Hadamard", "RX"] * 8)
    nb, steps = case["preset"], []
    for plan in plans:
        cond = r.sample(range(nb), r.randint(1, min(nb, 8))) if nb and r.random() < 0.25 else []
        if r.random() < 0.15:
            qs = r.sample(range(n), r.randint(1, n))
            steps.append(("m", qs, list(range(nb, nb + len(qs))), cond))
            nb = nb + len(qs)
        else:
            steps.append(("g", plan, None, cond))
    creg = lib.random_registers(case["seed"] + 2, nb) if nb else None
    circuit, q, c = lib.new_circuit(lib.random_registers(case["seed"], n), creg)
    meas = []
    with circuit.context:
        for kind, what, dest, cond in steps:
            if kind == "m":
                op = ops.Measurement([q[i] for i in what]) | [c[i] for i in dest]
                meas.append(op)
            else:
                op = lib.make_op(what, q, what["h"] % 5)
            if cond:
                op.conditional([c[i] for i in cond])
    conds = [s for s in steps if s[3]]
    ctx.nontrivial(bool(meas and conds))
    ctx.label(f"measured at once: {max([len(s[1]) for s in steps if s[0] == 'm'] or [0])}")
    ctx.label(f"conditions: {max([len(s[3]) for s in steps] or [0])}")
    for sim in range(case["sims"]):
        # mostly ones, so that operations with many conditions are executed
        for b in c:
            b.set(int(r.random() < 0.8), force=True)
        now = [b.value for b in c]
        simulate(circuit, mixed_state=mixed, rng_seed=(case["seed"] + sim) % 2**32)
        s = lib.zero_state(n)

        def as_given(s):
            v = lib.to_vec(s)
            return np.outer(v, v.conj()) if mixed else v

        executed = 0
        at = iter(meas)
        for j, (kind, what, dest, cond) in enumerate(steps):
            m = next(at) if kind == "m" else None
            if cond and not all(now[i] for i in cond):
                continue
            executed += bool(cond)
            if kind == "g":
                s = lib.apply_tensor(s, lib.gate_ref(what["g"], what["p"]), what["q"])
                continue
            require(
                m.state is not None and lib.close(m.state, as_given(s), 1e-8),
                lambda: f"step {j}: the state kept is not the one before measuring",
            )
            for qb, b in zip(what, dest):
                now[b] = c[b].value
                require(now[b] in (0, 1), f"step {j}: outcome {now[b]!r}")
                sel = [slice(None)] * n
                sel[qb] = 1 - now[b]
                s = s.copy()
                s[tuple(sel)] = 0
                w = float(np.vdot(s, s).real)
                require(w > 1e-12, f"step {j}: outcome {now[b]} of qubit {qb} is impossible")
                s = s / np.sqrt(w)
        require([b.value for b in c] == now, "bits changed without being measured")
        if executed:
            ctx.label("conditional operation executed")
        got = circuit.density_matrix if mixed else circuit.state
        require(
            lib.close(got, as_given(s), 1e-8),
            lambda: f"got {lib.show(got)}, expected {lib.show(as_given(s))}",
        )


@check.sub("density-matrix", lambda: cases(True), quick=2500, thorough=40000)
def density_matrix(case, ctx):
    _run(case, ctx, True)


@check.sub(
    "little-endian",
    lambda: st.fixed_dictionaries(
        {"n": st.integers(1, 3), "q": st.integers(0, 2), "mixed": st.booleans()}
    ),
    quick=40,
    thorough=200,
)
def little_endian(case, ctx):
    """Measurements in little-endian simulations are refused (documented), not done wrongly."""
    import dwave.gate.operations as ops
    from dwave.gate.circuit import Circuit, CircuitError
    from dwave.gate.simulator import simulate

    circuit = Circuit(case["n"], 1)
    with circuit.context as regs:
        ops.X(regs.q[case["q"] % case["n"]])
        ops.Measurement(regs.q[case["q"] % case["n"]]) | regs.c[0]
    ctx.nontrivial()
    lib.expect_raises(
        CircuitError,
        lambda: simulate(circuit, little_endian=True, mixed_state=case["mixed"]),
        "little-endian measurement",
    )


@check.sub(
    "assignment",
    lambda: st.fixed_dictionaries(
        {
            "n": st.integers(1, 4),
            "k": st.integers(1, 4),
            "nb": st.integers(0, 5),
            "form": st.sampled_from(["list", "tuple", "register", "one"]),
        }
    ),
    quick=150,
    thorough=1000,
)
def assignment(case, ctx):
    """Too few bits for the measured qubits are rejected; surplus ones are not used."""
    import dwave.gate.operations as ops
    from dwave.gate.primitives import Bit
    from dwave.gate.circuit import Circuit
    from dwave.gate.registers.registers import ClassicalRegister

    k = min(case["k"], case["n"])
    circuit = Circuit(case["n"])
    bits = [Bit(i) for i in range(case["nb"])]
    with circuit.context as regs:
        m = ops.Measurement([regs.q[i] for i in range(k)])
    given = {
        "list": lambda: list(bits),
        "tuple": lambda: tuple(bits),
        "register": lambda: ClassicalRegister(bits),
        "one": lambda: bits[0] if bits else [],
    }[case["form"]]()
    have = min(len(bits), 1) if case["form"] == "one" else len(bits)
    ctx.nontrivial()
    if have < k:
        lib.expect_raises(ValueError, lambda: m | given, f"measuring {k} qubits into {have} bits")
        require(m.bits is None, "bits assigned although rejected")
    else:
        m | given
        require(
            len(m.bits) == k and all(a is b for a, b in zip(m.bits, bits)),
            lambda: f"{m.bits} instead of {bits[:k]}",
        )


EDITED = ["simulate", "mixed"]


@check.sub("edited-circuits", lambda: world.edited_cases(EDITED, edits=["simulate", "setq"] * 5), quick=1000, thorough=20000)
def edited_circuits(case, ctx):
    """As a circuit with the same content that is built at once, after any edits and reads."""
    world.check_edited(case, ctx, EDITED)
