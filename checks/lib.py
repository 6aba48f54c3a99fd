"""Shared generators, reference semantics and circuit construction.

The reference semantics below is written from the textbook definitions and does not use any code of
the repository.  Conventions: qubit i of an n-qubit circuit is tensor axis i, i.e. the most
significant bit of the big-endian basis index is qubit 0.
"""

from __future__ import annotations

import cmath
import math

import numpy as np

PI = math.pi

# ------------------------------------------------------------------------------------------ #
# textbook matrices


def ry(t):
    c, s = math.cos(t / 2), math.sin(t / 2)
    return np.array([[c, -s], [s, c]], dtype=complex)


def rx(t):
    c, s = math.cos(t / 2), math.sin(t / 2)
    return np.array([[c, -1j * s], [-1j * s, c]], dtype=complex)


def rz(t):
    return np.diag([cmath.exp(-0.5j * t), cmath.exp(0.5j * t)]).astype(complex)


def rot(b, g, d):
    # RZ(beta) first, then RY(gamma), then RZ(delta)
    return rz(d) @ ry(g) @ rz(b)


_I = np.eye(2, dtype=complex)
_X = np.array([[0, 1], [1, 0]], dtype=complex)
_Y = np.array([[0, -1j], [1j, 0]], dtype=complex)
_Z = np.diag([1, -1]).astype(complex)
_H = np.array([[1, 1], [1, -1]], dtype=complex) / math.sqrt(2)
_S = np.diag([1, 1j]).astype(complex)
_T = np.diag([1, cmath.exp(1j * PI / 4)]).astype(complex)

FIXED1 = {"Identity": _I, "X": _X, "Y": _Y, "Z": _Z, "Hadamard": _H, "S": _S, "T": _T}
PARAM1 = {"RX": (1, rx), "RY": (1, ry), "RZ": (1, rz), "Rotation": (3, rot)}
CTRL = {"CX": "X", "CY": "Y", "CZ": "Z", "CHadamard": "Hadamard"}
PCTRL = {"CRX": "RX", "CRY": "RY", "CRZ": "RZ", "CRotation": "Rotation"}
ALIASES = {
    "Phase": "S", "P": "S", "CNOT": "CX", "Fredkin": "CSWAP", "CCNOT": "CCX", "Toffoli": "CCX",
}
SWAP_M = np.eye(4)[[0, 2, 1, 3]].astype(complex)


def controlled(u, num_control):
    k = u.shape[0]
    d = (2**num_control) * k
    m = np.eye(d, dtype=complex)
    m[d - k:, d - k:] = u
    return m


NUM_QUBITS = {}
NUM_PARAMS = {}
for _g in FIXED1:
    NUM_QUBITS[_g], NUM_PARAMS[_g] = 1, 0
for _g, (_k, _f) in PARAM1.items():
    NUM_QUBITS[_g], NUM_PARAMS[_g] = 1, _k
for _g in CTRL:
    NUM_QUBITS[_g], NUM_PARAMS[_g] = 2, 0
for _g, _t in PCTRL.items():
    NUM_QUBITS[_g], NUM_PARAMS[_g] = 2, PARAM1[_t][0]
NUM_QUBITS.update(SWAP=2, CSWAP=3, CCX=3)
NUM_PARAMS.update(SWAP=0, CSWAP=0, CCX=0)
for _a, _g in ALIASES.items():
    NUM_QUBITS[_a], NUM_PARAMS[_a] = NUM_QUBITS[_g], NUM_PARAMS[_g]

BUILTIN = [g for g in NUM_QUBITS if g not in ALIASES]


def ref_matrix(name, params=()):
    """Textbook matrix of a built-in gate (qubit listed first = most significant)."""
    name = ALIASES.get(name, name)
    if name in FIXED1:
        return FIXED1[name]
    if name in PARAM1:
        return PARAM1[name][1](*params)
    if name in CTRL:
        return controlled(FIXED1[CTRL[name]], 1)
    if name in PCTRL:
        return controlled(PARAM1[PCTRL[name]][1](*params), 1)
    if name == "SWAP":
        return SWAP_M
    if name == "CSWAP":
        return controlled(SWAP_M, 1)
    if name == "CCX":
        return controlled(_X, 2)
    raise KeyError(name)


def u2(alpha, b, g, d):
    """General 2x2 unitary."""
    return cmath.exp(1j * alpha) * rot(b, g, d)


# ------------------------------------------------------------------------------------------ #
# reference state evolution (tensors)


def zero_state(n):
    s = np.zeros((2,) * n, dtype=complex)
    s[(0,) * n] = 1
    return s


def apply_tensor(state, m, axes):
    """Applies matrix m to the given axes of a tensor (axes[0] = most significant)."""
    k = len(axes)
    m = np.asarray(m, dtype=complex).reshape((2,) * (2 * k))
    out = np.tensordot(m, state, axes=(list(range(k, 2 * k)), list(axes)))
    return np.moveaxis(out, list(range(k)), list(axes))


def to_vec(state, little_endian=False):
    n = state.ndim
    if little_endian:
        state = np.transpose(state, tuple(reversed(range(n))))
    return np.ascontiguousarray(state).reshape(-1)


def full_unitary(m, axes, n):
    """Dense 2^n x 2^n matrix of m acting on the given qubits (big-endian)."""
    d = 2**n
    t = np.eye(d, dtype=complex).reshape((2,) * n + (d,))
    return apply_tensor(t, m, axes).reshape(d, d)


def close(a, b, tol=1e-10):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    d = np.abs(a - b)
    return bool(np.all(np.isfinite(d)) and float(d.max()) <= tol)


def show(a):
    return np.array2string(np.asarray(a), precision=4, suppress_small=True, threshold=80)


# ------------------------------------------------------------------------------------------ #
# user-defined operations (every kind the documentation allows)

_classes = {}


def user_op_class(kind, params=()):
    """Operation classes a user may define.  Returns (class, reference matrix, takes_parameters).

    kinds: "U" constant 2x2 unitary (C-ordered matrix), "UT" a transposed (Fortran-ordered)
    array of complex or of real numbers, "CU" controlled U or UT, "CCU" doubly controlled U or
    UT, "CCRY" doubly controlled RY with a parameter, "K1" single-qubit operation made with
    create_operation, "KP" parametric single-qubit operation made with create_operation.
    """
    import dwave.gate.operations as ops
    from dwave.gate.circuit import Circuit, ParametricCircuit
    from dwave.gate.mixedproperty import mixedproperty
    from dwave.gate.operations.base import ParametricControlledOperation

    key = (kind, tuple(params))
    if kind in ("CCRY", "KP"):
        key = (kind,)
    if key in _classes:
        cls, m = _classes[key]
    else:
        m = u2(*params) if len(params) == 4 else None
        if kind in ("U", "UT"):
            if kind == "U":
                given = np.array(m)
            elif round(params[0] * 1000) % 3 == 0:
                # real numbers
                given = np.array(ry(params[2]).real.T, order="C").T
                m = np.array(given, dtype=complex)
            else:
                given = np.array(m.T, order="C").T

            class UserOp(ops.Operation):
                _num_qubits = 1

                @mixedproperty
                def matrix(cls):
                    return given

            cls = UserOp
        elif kind in ("CU", "CCU"):
            target, m = user_op_class("UT" if round(params[1] * 1000) % 2 else "U", params)
            nc = 1 if kind == "CU" else 2

            class UserControlled(ops.ControlledOperation):
                _num_control = nc
                _num_target = 1
                _target_operation = target

            cls = UserControlled
        elif kind == "CCRY":

            class UserCCRY(ParametricControlledOperation):
                _num_control = 2
                _num_target = 1
                _num_params = 1
                _target_operation = ops.RY

            cls = UserCCRY
        elif kind == "K1":
            sub = Circuit(1)
            with sub.context as regs:
                ops.Rotation(list(params[1:]), regs.q[0])
                ops.Hadamard(regs.q[0])
                ops.T(regs.q[0])
            cls = ops.create_operation(sub, name="KOne")
        elif kind == "KP":
            psub = ParametricCircuit(1)
            with psub.context as regs:
                ops.RX(regs.p[0], regs.q[0])
                ops.T(regs.q[0])
                ops.RZ(regs.p[1], regs.q[0])
            cls = ops.create_operation(psub, name="KPar")
        else:
            raise KeyError(kind)
        if len(_classes) > 1000:
            _classes.clear()
        _classes[key] = (cls, m)
    # reference
    if kind in ("U", "UT"):
        return cls, m
    if kind == "CU":
        return cls, controlled(m, 1)
    if kind == "CCU":
        return cls, controlled(m, 2)
    if kind == "CCRY":
        return cls, (None if not params else controlled(ry(params[0]), 2))
    if kind == "K1":
        return cls, _T @ _H @ rot(*params[1:])
    if kind == "KP":
        return cls, (None if not params else rz(params[1]) @ _T @ rx(params[0]))
    raise KeyError(kind)


def many_controlled(num_control, target, params):
    """A user-defined operation controlling the target gate by num_control qubits."""
    import dwave.gate.operations as ops
    from dwave.gate.operations.base import ParametricControlledOperation

    base, np_ = (user_op_class(target, params)[0], 0) if target in ("U", "UT") else (
        getattr(ops, target), NUM_PARAMS[target])
    body = {"_num_control": num_control, "_num_target": 1, "_target_operation": base}
    if np_:
        body["_num_params"] = np_
    bases = (ParametricControlledOperation if np_ else ops.ControlledOperation,)
    return type(base)(f"C{num_control}{target}", bases, body)


USER_QUBITS = {"U": 1, "UT": 1, "CU": 2, "CCU": 3, "CCRY": 3, "K1": 1, "KP": 1}
USER_PARAMS = {"U": 4, "UT": 4, "CU": 4, "CCU": 4, "CCRY": 1, "K1": 4, "KP": 2}
USER_RUNTIME_PARAMS = {"U": 0, "UT": 0, "CU": 0, "CCU": 0, "CCRY": 1, "K1": 0, "KP": 2}


def gate_arity(g):
    return USER_QUBITS[g] if g in USER_QUBITS else NUM_QUBITS[g]


def gate_params(g):
    return USER_PARAMS[g] if g in USER_PARAMS else NUM_PARAMS[g]


def gate_ref(g, params):
    if g in USER_QUBITS:
        return user_op_class(g, params)[1]
    return ref_matrix(g, params)


def gate_class(g, params=()):
    import dwave.gate.operations as ops

    if g in USER_QUBITS:
        # run-time parameters (possibly variables) are no part of the class
        return user_op_class(g, () if USER_RUNTIME_PARAMS[g] else params)[0]
    return getattr(ops, g)


def gate_args(g, params):
    """Parameters to pass at construction ([] for none)."""
    if g in USER_QUBITS and not USER_RUNTIME_PARAMS[g]:
        return []
    return list(params)


def is_controlled(g):
    return g in CTRL or g in PCTRL or g in ("CNOT", "CU", "CCU", "CCRY")


def num_control(g):
    return 2 if g in ("CCU", "CCRY") else 1


# ------------------------------------------------------------------------------------------ #
# Hypothesis strategies


def angles():
    from hypothesis import strategies as st

    return st.one_of(
        st.sampled_from(
            [0.0, PI, -PI, PI / 2, -PI / 2, PI / 4, 2 * PI, 4 * PI, 1e-9, 1e-8, 1e-5, 0.5, 1.0, 2.0,
             -1.0, 7, 3, 0, 100.25, 33.0, -44.5, 1000.3]
        ),
        st.floats(-4 * PI, 4 * PI, allow_nan=False, width=64).map(lambda x: round(x, 6)),
        st.floats(-12, 12, allow_nan=False, allow_subnormal=False),
    )


def distinct(n, k):
    """k distinct indices below n, in any order."""
    from hypothesis import strategies as st

    return st.permutations(list(range(n))).map(lambda p: p[:k])


def gate_plans(n, gates, conds=None, how=True):
    """One gate application on n qubits: {"g","p","q","h"}; q is a list of qubit indices."""
    from hypothesis import strategies as st

    usable = [g for g in gates if gate_arity(g) <= n]

    def mk(g):
        return st.fixed_dictionaries(
            {
                "g": st.just(g),
                "p": st.lists(angles(), min_size=gate_params(g), max_size=gate_params(g)),
                "q": distinct(n, gate_arity(g)),
                "h": st.integers(0, 5) if how else st.just(0),
            }
        )

    return st.sampled_from(usable).flatmap(mk)


ALL_GATES = BUILTIN + sorted(ALIASES)
# weights: multi-qubit and parametric gates more often than the rest
GATE_POOL = (
    BUILTIN + ["Rotation", "CRotation", "CRX", "CRY", "CRZ", "CX", "CCX", "CSWAP", "SWAP", "CY",
               "CHadamard", "RX", "RY", "RZ", "Hadamard", "Hadamard"] + ["CNOT", "Toffoli", "Phase"]
)
USER_POOL = ["U", "UT", "CU", "CCU", "CCRY", "K1", "KP"]


def register_plans(max_qubits, min_qubits=1, prefix="r"):
    """How the registers come about: a list of construction steps.

    ["reg", size] adds a register of this size, ["one", r] adds a single element to register r
    (modulo the number of registers).  The circuit's qubits are the concatenation of its registers.
    """
    from hypothesis import strategies as st

    def split(total):
        return st.one_of(
            st.just([["init", total]]),
            st.lists(st.integers(0, 3), min_size=1, max_size=4).flatmap(
                lambda sizes: st.lists(st.integers(0, 3), max_size=3).map(
                    lambda ones: _fit(sizes, ones, total)
                )
            ),
        )

    return st.integers(min_qubits, max_qubits).flatmap(split)


def _fit(sizes, ones, total):
    steps, used = [], 0
    for s in sizes:
        s = min(s, total - used)
        steps.append(["reg", s])
        used += s
    k = 0
    while used < total:
        r = ones[k % len(ones)] if ones else k
        steps.append(["one", r])
        used += 1
        k += 1
    return steps


def plan_total(steps):
    return sum(s[1] if s[0] in ("init", "reg") else 1 for s in steps)


def build_registers(circuit, steps, kind="q", labels=None):
    """Applies the steps to the circuit (not for "init"); returns the sizes per register."""
    from dwave.gate.primitives import Bit, Qubit

    sizes = []
    add_reg = circuit.add_qregister if kind == "q" else circuit.add_cregister
    for s in steps:
        if s[0] == "init":
            sizes.append(s[1])
        elif s[0] == "reg":
            lab = f"{kind}r{len(sizes)}"
            add_reg(s[1], label=lab)
            sizes.append(s[1])
        else:
            r = s[1] % len(sizes)
            regs = list(circuit.qregisters if kind == "q" else circuit.cregisters)
            # every other item has the label of another one: labels need not be unique
            item = (Qubit("0") if kind == "q" else Bit("0")) if s[1] >= 2 else None
            if kind == "q":
                circuit.add_qubit(item, qreg_label=regs[r])
            else:
                circuit.add_bit(item, creg_label=regs[r])
            sizes[r] += 1
    return sizes


def new_circuit(qsteps, csteps=None, cls=None):
    """A circuit whose registers are built according to the plans; returns (circuit, q, c) where q
    and c list the qubits and bits in the documented order (registers one after the other)."""
    from dwave.gate.circuit import Circuit

    cls = cls or Circuit
    kw = {}
    if qsteps and qsteps[0][0] == "init":
        kw["num_qubits"] = qsteps[0][1]
    if csteps and csteps[0][0] == "init":
        kw["num_bits"] = csteps[0][1]
    circuit = cls(**kw)
    build_registers(circuit, qsteps, "q")
    if csteps:
        build_registers(circuit, csteps, "c")
    q = [x for reg in circuit.qregisters.values() for x in reg]
    c = [x for reg in circuit.cregisters.values() for x in reg]
    return circuit, q, c


def make_op(plan, qubits, how=0):
    """Creates (inside a context: applies) the planned operation, through one of the documented
    call forms.  Returns the operation."""
    g = plan["g"]
    cls = gate_class(g, plan["p"])
    args = gate_args(g, plan["p"])
    qs = [qubits[i] for i in plan["q"]]
    if len(args) == 1 and how % 2 == 0:
        args = args[0]  # a bare number is a valid parameter
    if is_controlled(g):
        nc = num_control(g)
        control, target = qs[:nc], qs[nc:]
        if how == 1:
            call = dict(qubits=list(qs))
        elif how == 2:
            call = dict(qubits=tuple(qs))
        elif how == 3 and nc == 1:
            call = dict(control=control[0], target=target[0])
        elif how == 4:
            call = dict(control=list(control), target=list(target))
        else:
            call = dict(control=tuple(control), target=target[0])
    else:
        if len(qs) == 1 and how in (0, 3):
            call = dict(qubits=qs[0])
        elif how == 2:
            call = dict(qubits=list(qs))
        else:
            call = dict(qubits=tuple(qs))
    if not (isinstance(args, list) and not args):
        return cls(args, **call)
    return cls(**call)


def apply_ops(circuit, qubits, plans):
    """Applies the planned gates within the circuit's context, with various call forms."""
    from dwave.gate.circuit import CircuitContext

    made = []
    for p in plans:
        gate_class(p["g"], p["p"])  # user-defined classes are created outside of the context
    with circuit.context:
        for p in plans:
            h = p.get("h", 0)
            if h == 5:
                # create without applying, then re-apply the same instance
                with CircuitContext.active_context.freeze:
                    op = make_op(p, qubits, 0)
                op = op()
            else:
                op = make_op(p, qubits, h)
            made.append(op)
    return made


def ref_evolve(n, plans, state=None):
    s = zero_state(n) if state is None else state
    for p in plans:
        s = apply_tensor(s, gate_ref(p["g"], p["p"]), p["q"])
    return s


def ref_unitary(n, plans):
    u = np.eye(2**n, dtype=complex)
    for p in plans:
        u = full_unitary(gate_ref(p["g"], p["p"]), p["q"], n) @ u
    return u


def circuits(max_qubits, max_ops, gates, min_qubits=1, min_ops=0, how=True):
    """{"qs": register steps, "ops": gate plans}."""
    from hypothesis import strategies as st

    return register_plans(max_qubits, min_qubits).flatmap(
        lambda qs: st.fixed_dictionaries(
            {
                "qs": st.just(qs),
                "ops": st.lists(
                    gate_plans(plan_total(qs), gates, how=how), min_size=min_ops, max_size=max_ops
                ),
            }
        )
    )


def random_plans(seed, n, k, gates):
    """k gate plans on n qubits, made from a seed: for circuits too long to be drawn gate by gate."""
    import random

    r = random.Random(seed)
    usable = [g for g in gates if gate_arity(g) <= n]
    plans = []
    sets = [[round(r.uniform(-7, 7), 6) for _ in range(4)] for _ in range(3)]
    for _ in range(k):
        g = r.choice(usable)
        own_class = g in USER_QUBITS and not USER_RUNTIME_PARAMS[g]  # one class per parameter set
        plans.append(
            {
                "g": g,
                "p": (
                    r.choice(sets)
                    if own_class
                    else [round(r.uniform(-7, 7), 6) for _ in range(gate_params(g))]
                ),
                "q": r.sample(range(n), gate_arity(g)),
                "h": r.randrange(6),
            }
        )
    return plans


def random_registers(seed, n):
    """Construction steps of up to n registers with n elements altogether."""
    import random

    r = random.Random(seed)
    steps = []
    while n:
        size = r.choice([1, 1, 2, 3, n])
        steps.append(["reg", min(size, n)])
        n -= min(size, n)
    return steps


def params_of(circuit):
    """The circuit's parameter register (empty for circuits without parameters).

    It has no public name outside of the context, so it is recognized by its type.
    """
    from dwave.gate.registers import SelfIncrementingRegister

    for value in vars(circuit).values():
        if isinstance(value, SelfIncrementingRegister):
            return value
    return []


def expect_raises(excs, fn, what):
    from vf.core import fail

    try:
        r = fn()
    except excs:
        return
    except Exception as e:  # noqa: BLE001
        names = getattr(excs, "__name__", None) or "/".join(e.__name__ for e in excs)
        fail(f"{what}: expected {names}, got {type(e).__name__}: {e}")
    fail(f"{what}: accepted (returned {r!r})")


def outcome(fn):
    """("ok", value) or ("err", exception type name)."""
    try:
        return "ok", fn()
    except Exception as e:  # noqa: BLE001
        return "err", e
