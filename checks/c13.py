"""C13: a circuit's state is only ever set to a valid, normalized state."""

import numpy as np
from hypothesis import strategies as st

from checks import lib
from vf.core import Check, require

check = Check(
    "C13",
    rule=(
        "random histories of setting valid and invalid pure and mixed states (with and without "
        "force and normalization), reading, simulating and resetting, against a model; "
        "non-trivial: at least two states set and one refused"
    ),
    assumptions=[
        "states are NumPy arrays that are not changed by the user after they are set",
        "positivity of density matrices is not checked by the library",
    ],
)

KINDS = ["pure", "pure", "pure", "mixed", "mixed", "offnorm", "offtrace", "short", "long", "zero",
         "column", "row", "3d", "0d", "rect", "flatdm", "basis", "scaled", "scaleddm", "nan",
         "tracezero", "negtrace", "close"]


def steps():
    return st.one_of(
        st.fixed_dictionaries(
            {
                "k": st.just("set"),
                "o": st.sampled_from(KINDS),
                "force": st.sampled_from([None, False, True, True]),
                "norm": st.sampled_from([None, None, False, True]),
                "seed": st.integers(0, 9999),
                "dtype": st.sampled_from(["complex", "complex", "float", "int", "complex64"]),
                "pos": st.booleans(),
            }
        ),
        st.fixed_dictionaries(
            {
                "k": st.just("set"),
                "o": st.sampled_from(KINDS),
                "force": st.just(True),
                "norm": st.sampled_from([None, True]),
                "seed": st.integers(0, 9999),
                "dtype": st.just("complex"),
                "pos": st.booleans(),
            }
        ),
        st.builds(lambda w: {"k": "read", "w": w}, st.sampled_from(["state", "dm"])),
        st.builds(lambda m, l: {"k": "sim", "mixed": m, "le": l}, st.booleans(), st.booleans()),
        st.builds(lambda keep: {"k": "reset", "keep": keep}, st.just(True)),
    )


def _vec(rng, d, dtype):
    v = rng.normal(size=d)
    if dtype.startswith("complex"):
        v = v + 1j * rng.normal(size=d)
    return v / np.linalg.norm(v)


def _dm(rng, d, dtype):
    out = 0
    w = rng.dirichlet(np.ones(3))
    for p in w:
        v = _vec(rng, d, dtype)
        out = out + p * np.outer(v, v.conj())
    return out


def make(s, n):
    """Returns (array, what it is: "pure"/"mixed"/None, normalizable)."""
    rng = np.random.default_rng(s["seed"])
    d, o, dtype = 2**n, s["o"], s["dtype"]
    factor = [0.5, 2.0, 1.01, 0.99, 3j, -1.7, 1.0005, 0.9996][s["seed"] % 8]
    if not dtype.startswith("complex"):
        factor = abs(factor)
    if dtype == "int":
        v = np.zeros(d, dtype=int)
        v[s["seed"] % d] = 1
        m = np.zeros((d, d), dtype=int)
        m[s["seed"] % d, s["seed"] % d] = 1
    else:
        v, m = _vec(rng, d, dtype), _dm(rng, d, dtype)
        if dtype == "complex64":
            v, m = v.astype("complex64"), m.astype("complex64")
    if o == "pure":
        return v, "pure", True
    if o == "basis":
        b = np.zeros(d, dtype="complex" if dtype == "complex" else float)
        b[s["seed"] % d] = 1
        return b, "pure", True
    if o == "mixed":
        return m, "mixed", True
    if o in ("offnorm", "scaled"):
        return v * factor, ("norm-pure"), True
    if o in ("offtrace", "scaleddm"):
        return m * factor, ("norm-mixed"), True
    if o == "close":
        return v * (1 + 1e-9), "pure", True
    if o == "short":
        return np.array([1.0 + 0j]) if n else np.zeros((0,)), None, False
    if o == "long":
        big = np.zeros(2 * d, dtype=complex)
        big[s["seed"] % (2 * d)] = 1
        return big, None, False
    if o == "zero":
        return np.zeros(d, dtype=complex), None, False
    if o == "column":
        return (v.reshape(d, 1), None, False) if n else (v, "pure", True)
    if o == "row":
        return (v.reshape(1, d), None, False) if n else (v, "pure", True)
    if o == "3d":
        return v.reshape(d, 1, 1) if s["seed"] % 2 else m.reshape(d, d, 1), None, False
    if o == "0d":
        return np.array(1.0), None, False
    if o == "rect":
        r = np.zeros((d, 2 * d), dtype=complex)
        r[0, 0] = 1
        return r, None, False
    if o == "flatdm":
        return (m.reshape(-1), None, False) if n else (v, "pure", True)
    if o == "nan":
        bad = np.array(v, dtype=complex)
        bad[0] = np.nan
        return bad, None, False
    if o == "tracezero":
        if n == 0:
            return np.zeros((1, 1)), None, False
        z = np.zeros((d, d), dtype=complex)
        z[0, 1] = z[1, 0] = 1
        return z, None, False
    if o == "negtrace":
        return -m, "norm-mixed", True
    raise KeyError(o)


@check.sub(
    "history",
    lambda: st.fixed_dictionaries(
        {
            "n": st.sampled_from([0, 1, 1, 2, 2, 3]),
            "cls": st.sampled_from(["Circuit", "ParametricCircuit"]),
            "steps": st.lists(steps(), min_size=3, max_size=12),
            "ops": st.lists(lib.gate_plans(1, ["Hadamard", "RX", "X", "T"]), max_size=2),
            "eager": st.booleans(),
        }
    ),
    quick=5000,
    thorough=80000,
)
def history(case, ctx):
    from dwave.gate import circuit as dc
    from dwave.gate.circuit import CircuitError
    from dwave.gate.simulator import simulate

    n = case["n"]
    circuit = getattr(dc, case["cls"])(n)
    if n:
        lib.apply_ops(circuit, list(circuit.qubits), case["ops"])
    kind, value = None, None
    sets = refused = 0

    def check_state(what, which=("state", "dm")):
        if "state" in which:
            if kind == "mixed":
                lib.expect_raises(CircuitError, lambda: circuit.state, f"{what}: state of a mixed")
            elif kind is None:
                require(circuit.state is None, lambda: f"{what}: state {circuit.state}")
            else:
                got = circuit.state
                require(
                    got is not None and lib.close(got, value, 1e-6 if low else 1e-12),
                    lambda: f"{what}: state {got}, expected {value}",
                )
        if "dm" in which:
            got = circuit.density_matrix
            if kind is None:
                require(got is None, lambda: f"{what}: density matrix {got}")
            else:
                want = value if kind == "mixed" else np.outer(value, np.conj(value))
                require(
                    got is not None and lib.close(got, want, 1e-6 if low else 1e-12),
                    lambda: f"{what}: density matrix {got}, expected {want}",
                )

    low = False
    for j, s in enumerate(case["steps"]):
        what = f"step {j} {s}"
        if s["k"] == "read":
            check_state(what, (s["w"],))
            continue
        if s["k"] == "reset":
            circuit.reset()
            case["ops"] = []
            kind = value = None
        elif s["k"] == "sim":
            if n == 0:
                continue
            simulate(circuit, mixed_state=s["mixed"], little_endian=s["le"])
            low = False
            ref = lib.to_vec(
                lib.ref_evolve(n, [dict(p) for p in case["ops"]]), s["le"]
            )
            if s["mixed"]:
                kind, value = "mixed", np.outer(ref, ref.conj())
                require(lib.close(circuit.density_matrix, value), f"{what}: simulated state")
                value = circuit.density_matrix.copy()
            else:
                kind, value = "pure", ref
                require(lib.close(circuit.state, value), f"{what}: simulated state")
                value = circuit.state.copy()
        else:
            arr, is_, normalizable = make(s, n)
            kw = {}
            if s["force"] is not None:
                kw["force"] = s["force"]
            if s["norm"] is not None:
                kw["normalize"] = s["norm"]
            given = arr.copy()
            valid = is_ in ("pure", "mixed") or (
                bool(s["norm"]) and is_ in ("norm-pure", "norm-mixed")
            )
            if is_ in ("norm-pure", "norm-mixed") and not s["norm"]:
                # a factor of modulus one keeps vectors normalized (none is used here)
                valid = False
            if kind is not None and not s["force"]:
                lib.expect_raises(CircuitError, lambda: circuit.set_state(arr, **kw),
                                  f"{what}: replacing a state")
                refused += 1
            elif not valid:
                lib.expect_raises((ValueError, IndexError), lambda: circuit.set_state(arr, **kw),
                                  f"{what}: setting {lib.show(arr)}")
                refused += 1
            else:
                circuit.set_state(arr, **kw)
                sets += 1
                low = s["dtype"] == "complex64"
                if is_.endswith("pure"):
                    kind, value = "pure", given
                    if s["norm"]:
                        value = given / np.sqrt(np.sum(np.abs(given) ** 2))
                else:
                    kind, value = "mixed", given
                    if s["norm"]:
                        value = given / sum(given[i, i] for i in range(2**n))
            require(
                np.array_equal(arr, given, equal_nan=True), f"{what}: the given array was changed"
            )
        if case["eager"]:
            check_state(what)
    check_state("end")
    ctx.nontrivial(sets > 1 and refused > 0)


@check.sub(
    "larger",
    lambda: st.fixed_dictionaries(
        {
            "n": st.integers(4, 6),
            "cls": st.just("Circuit"),
            "steps": st.lists(steps(), min_size=2, max_size=6),
            "ops": st.lists(lib.gate_plans(4, lib.GATE_POOL), max_size=4),
            "eager": st.booleans(),
        }
    ),
    quick=200,
    thorough=4000,
)
def larger(case, ctx):
    """States of up to 64 amplitudes and density matrices of up to 4096 entries."""
    history(case, ctx)
