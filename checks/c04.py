"""C04: sampling follows the Born rule and is reproducible by seed."""

import math

import numpy as np
from hypothesis import strategies as st

from checks import lib
from vf.core import Check, require

check = Check(
    "C04",
    rule=(
        "random pure and mixed states (given directly or by simulating random circuits), qubit "
        "subsets in any order, seeds and sample counts; support and collapse are checked exactly, "
        "frequencies with a Chernoff bound at 1e-10 per outcome, seeds by repetition; "
        "non-trivial: the state has at least two outcomes for the sampled qubits"
    ),
    assumptions=[
        "statistical oracle: an outcome's frequency is rejected only if its Chernoff bound is "
        "below exp(-25) (1.4e-11), so a correct implementation practically never fails",
    ],
)

BOUND = 25.0


def freq_ok(count, n, p):
    """Chernoff: P(frequency at least this far off) <= 2 exp(-n KL)."""
    f = count / n
    p = min(max(p, 0.0), 1.0)
    if p < 1e-12:
        return count == 0
    if p > 1 - 1e-12:
        return count == n
    kl = 0.0
    if f > 0:
        kl += f * math.log(f / p)
    if f < 1:
        kl += (1 - f) * math.log((1 - f) / (1 - p))
    return n * kl <= BOUND


class _Seeded:
    """Makes samplers that ask for fresh entropy reproducible (if they go through numpy)."""

    def __init__(self, seed):
        self.seed = seed

    def __enter__(self):
        self.real = np.random.default_rng
        count = iter(range(10**9))

        def seeded(seed=None):
            return self.real([self.seed, next(count)] if seed is None else seed)

        np.random.default_rng = seeded

    def __exit__(self, *_):
        np.random.default_rng = self.real


def state_specs(max_qubits):
    """Random states: {"n", "kind", "ops", "mix"}."""

    def sparse(n):
        return st.builds(
            lambda amps: {"n": n, "kind": "sparse", "amps": amps},
            st.lists(
                st.tuples(st.integers(0, 2**n - 1), st.floats(0.2, 1), st.floats(0, 6.28)),
                min_size=1, max_size=4,
            ),
        )

    def circ(n):
        return st.builds(
            lambda ops: {"n": n, "kind": "circuit", "ops": ops},
            st.lists(lib.gate_plans(n, lib.GATE_POOL, how=False), min_size=2, max_size=10),
        )

    return st.integers(1, max_qubits).flatmap(lambda n: st.one_of(sparse(n), circ(n)))


def make_state(spec):
    n = spec["n"]
    if spec["kind"] == "sparse":
        v = np.zeros(2**n, dtype=complex)
        for i, r, phi in spec["amps"]:
            v[i] = r * np.exp(1j * phi)
        return v / np.linalg.norm(v)
    return lib.to_vec(lib.ref_evolve(n, spec["ops"]))


def bit_of(index, qubit, n, le=False):
    return (index >> (qubit if le else n - 1 - qubit)) & 1


def probs_of(state, n, qubits, le=False):
    pop = np.abs(state) ** 2 if state.ndim == 1 else np.diagonal(state).real
    out = {}
    for i in range(2**n):
        key = tuple(bit_of(i, q, n, le) for q in qubits)
        out[key] = out.get(key, 0.0) + float(pop[i])
    return out


def mixed_specs(max_qubits):
    return st.tuples(
        st.lists(state_specs(max_qubits), min_size=1, max_size=1),
        st.booleans(),
        st.lists(st.floats(0.1, 1.0), min_size=2, max_size=2),
        st.booleans(),
        st.integers(0, 2**max_qubits - 1),
    ).map(lambda t: {"s": t[0][0], "mixed": t[1], "w": t[2], "le": t[3], "other": t[4]})


def build(case):
    v = make_state(case["s"])
    if not case["mixed"]:
        return v.astype(np.complex128)
    w = np.array(case["w"]) / sum(case["w"])
    o = np.zeros_like(v)
    o[case["other"] % len(v)] = 1
    return w[0] * np.outer(v, v.conj()) + w[1] * np.outer(o, o.conj())


@check.sub(
    "sample-qubit",
    lambda: st.builds(
        lambda m, q, seed, order: {**m, "q": q, "seed": seed, "order": order},
        mixed_specs(5), st.integers(0, 4), st.integers(0, 2**31),
        st.permutations(list(range(5))),
    ),
    quick=3000,
    thorough=60000,
)
def sample_one(case, ctx):
    """A single sample: support, collapse onto the outcome, no change without collapse."""
    from dwave.gate.simulator import sample_qubit

    state = build(case)
    n = case["s"]["n"]
    le = case["le"]
    before = state.copy()
    q = case["q"] % n
    p = probs_of(state, n, [q], le)
    rng = np.random.default_rng(case["seed"])
    r = sample_qubit(q, state, rng, collapse_state=False, little_endian=le)
    require(r in (0, 1), f"sample {r!r}")
    require(p[(r,)] > 1e-12, f"qubit {q}: outcome {r} of probability {p[(r,)]}")
    require(np.array_equal(state, before), "state changed although not collapsing")
    ctx.nontrivial(min(p.values()) > 1e-9)
    ctx.label("mixed" if case["mixed"] else "pure", "le" if le else "be")
    for bad in (n, n + case["q"], -1 - case["q"], 2 * n):
        lib.expect_raises(
            ValueError,
            lambda: sample_qubit(bad, state, rng, case["seed"] % 2 == 1, le),
            f"sampling qubit {bad} of {n}",
        )
    require(np.array_equal(state, before), "state changed by rejected qubits")
    # collapse one qubit after the other, in any order
    ref = before
    for q in [x for x in case["order"] if x < n]:
        p = probs_of(ref, n, [q], le)
        kw = {"little_endian": le} if le or case["q"] % 2 else {}
        r = sample_qubit(q, state, rng, **kw)
        require(p[(r,)] > 1e-12, f"qubit {q}: outcome {r} of probability {p[(r,)]}")
        mask = np.array([bit_of(i, q, n, le) == r for i in range(2**n)])
        if ref.ndim == 1:
            ref = np.where(mask, ref, 0) / math.sqrt(p[(r,)])
        else:
            ref = np.where(np.outer(mask, mask), ref, 0) / p[(r,)]
        require(
            lib.close(state, ref, 1e-7),
            lambda: f"collapsed qubit {q} to {r}: {lib.show(state)}, expected {lib.show(ref)}",
        )
        again = sample_qubit(q, state, rng, collapse_state=False, little_endian=le)
        require(again == r, f"measured {r}, then {again}")


@check.sub(
    "sample-qubit-frequency",
    lambda: st.builds(
        lambda m, q, seed: {**m, "q": q, "seed": seed},
        mixed_specs(4), st.integers(0, 4), st.integers(0, 2**31),
    ),
    quick=240,
    thorough=4000,
)
def sample_frequency(case, ctx):
    from dwave.gate.simulator import sample_qubit

    state = build(case)
    n = case["s"]["n"]
    q = case["q"] % n
    p = probs_of(state, n, [q], case["le"])
    rng = np.random.default_rng(case["seed"])
    N = 2000
    ones = sum(
        sample_qubit(q, state, rng, collapse_state=False, little_endian=case["le"])
        for _ in range(N)
    )
    ctx.nontrivial(min(p.values()) > 1e-9)
    require(freq_ok(ones, N, p[(1,)]), f"{ones} of {N} samples are 1, probability {p[(1,)]}")


def measured_cases(max_qubits, max_n):
    return lib.circuits(max_qubits, 10, lib.GATE_POOL, min_ops=2).flatmap(
        lambda c: st.fixed_dictionaries(
            {
                "qs": st.just(c["qs"]),
                "ops": st.just(c["ops"]),
                "mq": lib.distinct(lib.plan_total(c["qs"]), lib.plan_total(c["qs"])),
                "k": st.integers(1, lib.plan_total(c["qs"])),
                "sq": st.one_of(
                    st.none(),
                    lib.distinct(lib.plan_total(c["qs"]), lib.plan_total(c["qs"])),
                ),
                "sk": st.integers(1, lib.plan_total(c["qs"])),
                "N": st.integers(0, max_n),
                "seed": st.integers(0, 2**31),
                "mixed": st.booleans(),
                "sims": st.integers(1, 2),
                "tail": st.booleans(),
            }
        )
    )


def _measure(case):
    import dwave.gate.operations as ops
    from dwave.gate.simulator import simulate

    circuit, q, _ = lib.new_circuit(case["qs"], [["init", len(case["mq"])]])
    n = len(q)
    with circuit.context as regs:
        for p in case["ops"]:
            lib.make_op(p, q, p["h"] % 5)
        mq = case["mq"][: case["k"]]
        m = ops.Measurement([q[i] for i in mq])
        if case["seed"] % 3:
            m | regs.c
        if case["tail"]:
            ops.Hadamard(q[0])
            ops.X(q[-1])
    for i in range(case["sims"]):
        simulate(circuit, mixed_state=case["mixed"], rng_seed=case["seed"] + i)
    v = lib.to_vec(lib.ref_evolve(n, case["ops"]))
    return circuit, m, mq, v, n


@check.sub("measurement-samples", lambda: measured_cases(5, 12), quick=2000, thorough=40000)
def measurement_samples(case, ctx):
    circuit, m, mq, v, n = _measure(case)
    state = m.state.copy()
    final = circuit.density_matrix.copy() if case["mixed"] else circuit.state.copy()
    sq = None if case["sq"] is None else case["sq"][: case["sk"]]
    qubits = mq if sq is None else sq
    p = probs_of(v, n, qubits)
    ctx.nontrivial(sum(x > 1e-9 for x in p.values()) > 1)
    with _Seeded(case["seed"]):
        samples = m.sample(sq, case["N"]) if case["seed"] % 2 else m.sample(
            qubits=sq, num_samples=case["N"]
        )
        strings = m.sample(sq, num_samples=case["N"], as_bitstring=True)
        one = m.sample(sq)
    require(len(samples) == len(strings) == case["N"], "wrong number of samples")
    require(len(one) == 1, f"one sample expected by default, got {one}")
    for s in samples + one:
        require(
            p.get(tuple(s), 0) > 1e-12,
            lambda: f"sample {s} of qubits {qubits} has probability {p.get(tuple(s), 0)}",
        )
    # measuring a qubit again gives the same outcome
    for again in (qubits[:1], qubits[-1:], qubits[:2]):
        for s in m.sample(list(qubits) + list(again), num_samples=4):
            s = list(s)
            ahead = dict(zip(qubits, s))
            require(
                p.get(tuple(s[: len(qubits)]), 0) > 1e-12
                and s[len(qubits):] == [ahead[i] for i in again],
                lambda: f"sample {s} of qubits {qubits} and again {again}",
            )
    for s in strings:
        require(
            isinstance(s, str) and p.get(tuple(map(int, s)), 0) > 1e-12,
            lambda: f"sample {s!r} of qubits {qubits} is impossible",
        )
    require(np.array_equal(m.state, state), "sampling changed the measured state")
    now = circuit.density_matrix if case["mixed"] else circuit.state
    require(np.array_equal(now, final), "sampling changed the circuit's state")
    # impossible requests are refused
    for bad in ([n], [0, n + 1], [-1], [0, -n]):
        lib.expect_raises(ValueError, lambda: m.sample(bad), f"sampling qubits {bad} of {n}")


@check.sub("joint-frequencies", lambda: measured_cases(4, 0), quick=180, thorough=3000)
def joint_frequencies(case, ctx):
    circuit, m, mq, v, n = _measure(case)
    sq = None if case["sq"] is None else case["sq"][: case["sk"]]
    qubits = mq if sq is None else sq
    p = probs_of(v, n, qubits)
    ctx.nontrivial(sum(x > 1e-9 for x in p.values()) > 1)
    N = 1200
    with _Seeded(case["seed"]):
        samples = m.sample(sq, num_samples=N)
        ev = m.expval(sq, num_samples=N)
        ev_default = m.expval(sq)
    for key in p:
        count = sum(tuple(s) == key for s in samples)
        require(
            freq_ok(count, N, p[key]),
            lambda: f"outcome {key} of {qubits}: {count} of {N}, probability {p[key]}",
        )
    for e, num in ((ev, N), (ev_default, 1000)):
        require(len(e) == len(qubits), f"{len(e)} expectation values for {len(qubits)} qubits")
        for i, x in enumerate(e):
            p1 = sum(w for key, w in p.items() if key[i])
            require(0 <= x <= 1 and abs(x * num - round(x * num)) < 1e-6, f"expval {x}")
            require(
                freq_ok(round(x * num), num, p1),
                lambda: f"expval {x} of qubit {qubits[i]}, expected {p1}",
            )


def _observe(circuit, mixed):
    return (
        [b.value for b in circuit.bits],
        circuit.density_matrix.copy() if mixed else circuit.state.copy(),
    )


@check.sub(
    "seeds",
    lambda: st.builds(
        lambda c, meas, seeds, mixed: {**c, "meas": meas, "seeds": seeds, "mixed": mixed},
        lib.circuits(4, 8, lib.GATE_POOL, min_ops=1),
        st.lists(st.tuples(st.integers(0, 8), st.integers(0, 3)), min_size=1, max_size=4),
        st.lists(st.integers(0, 2**32), min_size=2, max_size=4),
        st.booleans(),
    ),
    quick=900,
    thorough=15000,
)
def seeds(case, ctx):
    """The same seed gives the same bits and state, whatever was simulated before."""
    import dwave.gate.operations as ops
    from dwave.gate.simulator import simulate

    def construct():
        circuit, q, c = lib.new_circuit(case["qs"], [["init", 4]])
        with circuit.context:
            for i in range(len(case["ops"]) + 1):
                for j, (pos, qb) in enumerate(case["meas"]):
                    if min(pos, len(case["ops"])) == i:
                        ops.Measurement(q[qb % len(q)]) | c[j]
                if i < len(case["ops"]):
                    p = case["ops"][i]
                    lib.make_op(p, q, p["h"] % 5)
        return circuit

    circuit = construct()
    first = {}
    for s in case["seeds"] + list(reversed(case["seeds"])):
        simulate(circuit, mixed_state=case["mixed"], rng_seed=s)
        bits, state = _observe(circuit, case["mixed"])
        if s in first:
            require(first[s][0] == bits, lambda: f"seed {s}: bits {first[s][0]}, then {bits}")
            require(lib.close(first[s][1], state), f"seed {s}: other state")
        first[s] = (bits, state)
    other = construct()
    for s in case["seeds"]:
        simulate(other, mixed_state=case["mixed"], rng_seed=s)
        bits, state = _observe(other, case["mixed"])
        require(first[s][0] == bits, lambda: f"seed {s}: bits {first[s][0]}, equal circuit {bits}")
        require(lib.close(first[s][1], state), f"seed {s}: other state for an equal circuit")
    ctx.nontrivial(len({str(b) for b, _ in first.values()}) > 1)


@check.sub(
    "simulated-bits-frequency",
    lambda: st.builds(
        lambda c, mq, seed, mixed: {**c, "mq": mq, "seed": seed, "mixed": mixed},
        lib.circuits(3, 6, lib.GATE_POOL, min_ops=2),
        st.permutations([0, 1, 2]), st.integers(0, 2**30), st.booleans(),
    ),
    quick=60,
    thorough=1200,
)
def simulated_frequency(case, ctx):
    """The bits measured over many seeds follow the Born rule."""
    import dwave.gate.operations as ops
    from dwave.gate.simulator import simulate

    circuit, q, c = lib.new_circuit(case["qs"], [["init", 3]])
    n = len(q)
    mq = [i for i in case["mq"] if i < n]
    with circuit.context as regs:
        for p in case["ops"]:
            lib.make_op(p, q, p["h"] % 5)
        ops.Measurement([q[i] for i in mq]) | regs.c
    p = probs_of(lib.to_vec(lib.ref_evolve(n, case["ops"])), n, mq)
    ctx.nontrivial(sum(x > 1e-9 for x in p.values()) > 1)
    N = 500
    counts = {}
    for i in range(N):
        simulate(circuit, mixed_state=case["mixed"], rng_seed=case["seed"] + i)
        key = tuple(b.value for b in c[: len(mq)])
        counts[key] = counts.get(key, 0) + 1
    for key in set(p) | set(counts):
        require(
            freq_ok(counts.get(key, 0), N, p.get(key, 0)),
            lambda: f"bits {key}: {counts.get(key, 0)} of {N}, probability {p.get(key, 0)}",
        )


@check.sub(
    "wide",
    lambda: st.fixed_dictionaries(
        {"n": st.integers(5, 12), "k": st.integers(1, 12), "s": st.integers(1, 12),
         "N": st.integers(1, 3), "mixed": st.booleans(), "seed": st.integers(0, 2**31)}
    ),
    quick=250,
    thorough=5000,
)
def wide(case, ctx):
    """Up to a dozen qubits measured and sampled at once, in any order: a basis state with a few
    entangled pairs, where outcomes are certain or certainly (un)equal."""
    import random

    import dwave.gate.operations as ops
    from dwave.gate.simulator import simulate

    r = random.Random(case["seed"])
    n = min(case["n"], 6) if case["mixed"] else case["n"]
    steps = lib.random_registers(case["seed"], n)
    circuit, q, c = lib.new_circuit(steps, [["init", n]])
    order = r.sample(range(n), n)
    pairs = [(order[0], order[1])] if n < 8 else [(order[0], order[1]), (order[2], order[3])]
    paired = {i for pair in pairs for i in pair}
    fixed_bits = {i: r.randrange(2) for i in range(n) if i not in paired}
    mq = r.sample(range(n), min(case["k"], n))
    sq = r.sample(range(n), min(case["s"], n))
    dest = r.sample(range(n), len(mq))
    with circuit.context:
        for i, b in fixed_bits.items():
            if b:
                ops.X(q[i])
        for a, b in pairs:
            ops.Hadamard(q[a])
            ops.CX(q[a], q[b])
            if a > b:
                ops.X(q[b])
        m = ops.Measurement([q[i] for i in mq]) | [c[i] for i in dest]

    def possible(qubits, outcome):
        got = dict(zip(qubits, outcome))
        return len(outcome) == len(qubits) and all(
            got[i] == b for i, b in fixed_bits.items() if i in got
        ) and all(
            (got[a] == got[b]) != (a > b) for a, b in pairs if a in got and b in got
        )

    ctx.nontrivial(len(paired & set(mq)) > 0)
    simulate(circuit, mixed_state=case["mixed"], rng_seed=case["seed"])
    bits = [c[i].value for i in dest]
    require(possible(mq, bits), lambda: f"measured {bits} for qubits {mq}")
    with _Seeded(case["seed"]):
        for qubits, samples in (
            (mq, m.sample(num_samples=case["N"])),
            (sq, m.sample(sq, case["N"])),
            (sq, [[int(x) for x in t] for t in m.sample(sq, case["N"], True)]),
        ):
            require(len(samples) == case["N"], "wrong number of samples")
            for t in samples:
                require(possible(qubits, t), lambda: f"sampled {t} for qubits {qubits}")
        for qubits, e in ((mq, m.expval(num_samples=4)), (sq, m.expval(sq, 4))):
            require(len(e) == len(qubits), "wrong number of expectation values")
            got = dict(zip(qubits, e))
            require(
                all(got[i] == b for i, b in fixed_bits.items() if i in got),
                lambda: f"expectation values {e} for qubits {qubits}",
            )


@check.sub(
    "many-samples",
    lambda: st.fixed_dictionaries(
        {"N": st.integers(100, 9000), "e": st.integers(1, 9000), "a": st.floats(0.1, 3.0),
         "seed": st.integers(0, 2**31), "s": st.booleans()}
    ),
    fixed=lambda: [{"N": 20000, "e": 20000, "a": 1.0, "seed": 5, "s": s} for s in (False, True)],
    quick=25,
    thorough=600,
)
def many_samples(case, ctx):
    """Thousands of samples: as many as asked for, distributed alike throughout."""
    import dwave.gate.operations as ops
    from dwave.gate.circuit import Circuit
    from dwave.gate.simulator import simulate

    circuit = Circuit(2, 1)
    with circuit.context as regs:
        ops.RY(case["a"], regs.q[1])
        ops.X(regs.q[0])
        m = ops.Measurement(regs.q[1]) | regs.c[0]
    simulate(circuit)
    N = case["N"]
    p1 = math.sin(case["a"] / 2) ** 2
    ctx.nontrivial()
    with _Seeded(case["seed"]):
        samples = m.sample(num_samples=N, as_bitstring=case["s"])
        e = m.expval(num_samples=case["e"])
    require(len(samples) == N, lambda: f"{len(samples)} samples instead of {N}")
    ones = [int(x[0]) for x in samples]
    for part in (ones, ones[: N // 2], ones[N // 2:], ones[-N // 10:]):
        require(
            freq_ok(sum(part), len(part), p1),
            lambda: f"{sum(part)} of {len(part)} samples are 1, probability {p1}",
        )
    x = e[0] * case["e"]
    require(abs(x - round(x)) < 1e-6, lambda: f"{e} is no mean of {case['e']} samples")
    require(freq_ok(round(x), case["e"], p1), lambda: f"expval {e}, expected {p1}")


@check.sub("unseeded", fixed=lambda: [{"mixed": False}, {"mixed": True}])
def unseeded(case, ctx):
    """Without a seed, and for measurement samples, outcomes vary."""
    import dwave.gate.operations as ops
    from dwave.gate.circuit import Circuit
    from dwave.gate.simulator import simulate

    circuit = Circuit(1, 1)
    with circuit.context as regs:
        ops.Hadamard(regs.q[0])
        m = ops.Measurement(regs.q[0]) | regs.c[0]
    seen = set()
    for _ in range(80):
        simulate(circuit, mixed_state=case["mixed"])
        seen.add(regs.c[0].value)
    require(seen == {0, 1}, f"80 unseeded simulations only gave {seen}")
    seen = {tuple(m.sample()[0]) for _ in range(80)}
    require(len(seen) == 2, f"80 samples only gave {seen}")
    ctx.nontrivial()
