"""Histories of work on circuits: steps, the world they are run in, and what can be observed.

Used by C27 (the same results whatever else was done) and by the `edited` subs of several checks (an
edited circuit gives the same as one that is built with the same content at once).
"""

import contextlib
import copy
import pickle
import re

import numpy as np
from hypothesis import strategies as st

from checks import lib
from vf.core import require

POOL = lib.GATE_POOL + lib.USER_POOL + ["Rotation", "CRX", "KP", "CCRY", "CCU"]
EXPORT = ["X", "Hadamard", "RX", "RZ", "CX", "CZ", "T", "S", "Y", "Z", "RY", "CX"]
N = 3  # qubits are indices modulo the number of qubits of the circuit


# ---------------------------------------------------------------------------------------------
# steps


def _plan():
    return st.one_of(lib.gate_plans(N, POOL), lib.gate_plans(N, EXPORT))


def _op():
    cond = st.one_of(st.just([]), st.just([]), st.lists(st.integers(0, 3), min_size=1, max_size=2))
    var = st.one_of(st.none(), st.none(), st.integers(0, 3))
    return st.one_of(
        st.builds(lambda p, c, v: ["g", p, c, v], _plan(), cond, var),
        st.builds(lambda p: ["g", p, [], None], _plan()),
        st.builds(lambda p: ["g", p, [], None], lib.gate_plans(N, EXPORT)),
        st.builds(lambda q, b, c: ["m", q, b, c], st.lists(st.integers(0, 3), min_size=1, max_size=2),
                  st.booleans(), cond),
        st.builds(lambda q: ["b", q], st.lists(st.integers(0, 3), min_size=1, max_size=3)),
        st.builds(lambda k, v, q: ["k", k, v, q], st.integers(0, 3),
                  st.lists(lib.angles(), min_size=4, max_size=4), lib.distinct(N, N)),
    )


def _templates():
    return st.fixed_dictionaries(
        {"of": st.integers(0, 3), "v": st.lists(lib.angles(), min_size=4, max_size=4),
         "shift": st.integers(0, 3), "bits": st.booleans()}
    )


OBS = [
    "desc", "repr", "copy", "pickle", "simulate", "simulate", "mixed", "little", "unitary", "qasm",
    "qasm-labels", "qasm-defs", "qir", "qir-external", "bitcode", "reload", "matrices", "classes",
    "wrap", "template", "eval", "eq", "find", "registers", "state", "context", "locked",
]
BAD = [
    "qubits", "params", "foreign", "nested", "template-size", "template-args", "set_state",
    "qir", "qasm", "load", "load-bits", "raise", "raise-frozen", "double-qubit", "double-register",
    "unset", "sample", "remove", "matrix-class", "unknown", "freeze-outside", "unitary", "wrap-context",
    "simulate", "bit-set",
]
MISC = ["ids", "classes", "subclass", "custom", "registers", "variables", "modules", "kernel", "seedless",
        "decompositions", "names", "bits"]


def steps():
    slot = st.integers(0, 3)
    noise = st.integers(2, 3)
    seed = st.integers(0, 5)  # few: equal seeds and names come from different steps
    make = st.builds(
        lambda s, q, c, k, lab: ["new", s, q, c, k, lab], slot, lib.register_plans(3),
        st.lists(st.integers(0, 2), max_size=2), st.sampled_from(["Circuit", "Circuit", "ParametricCircuit"]),
        st.booleans(),
    )
    apply = st.builds(
        lambda s, o, f, e: ["ops", s, o, f, e], slot, st.lists(_op(), min_size=1, max_size=5),
        st.sampled_from(["context", "context", "context", "frozen", "append"]), st.booleans(),
    )
    template = st.builds(lambda s, t: ["apply", s, t], slot, _templates())
    obs = st.builds(lambda s, w, d: ["obs", s, w, d], st.integers(0, 1), st.sampled_from(OBS), seed)
    peek = st.builds(lambda s, w, d: ["peek", s, w, d], slot, st.sampled_from(OBS), seed)
    edit = st.builds(
        lambda s, w, i, d: ["edit", s, w, i, d], slot,
        st.sampled_from(EDITS),
        st.integers(0, 7), seed,
    )
    bad = st.builds(lambda s, w, i: ["bad", s, w, i], slot, st.sampled_from(BAD), st.integers(0, 5))
    noisebad = st.builds(lambda s, w, i: ["bad", s, w, i], noise, st.sampled_from(BAD), st.integers(0, 5))
    misc = st.builds(lambda w, i: ["misc", 2, w, i], st.sampled_from(MISC), st.integers(0, 5))
    twin = st.builds(
        lambda s, o, k, r: ["twin", s, o, k, r], slot, st.integers(0, 3),
        st.sampled_from(["operations", "operations", "registers"]), st.integers(0, 3),
    )
    return st.one_of(make, twin, apply, apply, apply, template, obs, obs, obs, peek, peek, edit, bad, noisebad, misc)


def _full(args):
    """Makes the circuits first, and observes everything at the end."""
    first, rest, last = args
    out = [["new", i, *f] for i, f in enumerate(first)]
    return out + rest + [["obs", s, w, d] for s, w, d in last]


def cases():
    new = st.tuples(
        lib.register_plans(3), st.lists(st.integers(0, 2), max_size=2),
        st.sampled_from(["Circuit", "Circuit", "ParametricCircuit"]), st.booleans(),
    )
    last = st.tuples(st.integers(0, 1), st.sampled_from(OBS), st.integers(0, 5))
    return st.tuples(
        st.lists(new, min_size=3, max_size=4), st.lists(steps(), min_size=3, max_size=14),
        st.lists(last, min_size=2, max_size=6),
    ).map(_full).map(_lists)


EDITS = ["remove", "param", "qubit", "bit", "qreg", "creg", "reset", "reset-all", "lock", "unlock", "simulate",
         "simulate", "set_state", "cond", "value", "label", "variable", "setq", "setq", "move", "replace"]


def _random_circuit(r):
    n = r.choice([1, 2, 3, 3, 3])
    steps_ = r.choice([[["init", n]], [["reg", n - 1], ["reg", 1]], [["reg", 1], ["one", 0], ["one", 2]]])
    return [steps_, r.choice([[], [1], [3], [2, 1]]), r.choice(["Circuit", "Circuit", "ParametricCircuit"]), False]


def _random_item(r):
    x = r.random()
    cond = [r.randrange(4) for _ in range(r.choice([0, 0, 0, 1, 2]))]
    if x < 0.68:
        pool = POOL if r.random() < 0.6 else EXPORT
        plan = lib.random_plans(r.randrange(2**32), N, 1, pool)[0]
        if r.random() < 0.5:  # few values: the same operations occur again
            plan["p"] = [r.choice([0.5, 1.25, 2.0]) for _ in plan["p"]]
        if r.random() < 0.6:
            cond = []
        return ["g", plan, cond, r.choice([None, None, 0, 1, 2])]
    if x < 0.82:
        return ["m", [r.randrange(4) for _ in range(r.choice([1, 2]))], r.random() < 0.7, cond if r.random() < 0.3 else [],
                *r.choice([["h"], []])]
    if x < 0.86:
        return ["b", [r.randrange(4) for _ in range(r.choice([1, 2, 3]))]]
    return ["k", r.randrange(4), [round(r.uniform(-7, 7), 3) for _ in range(4)], r.sample(range(N), N)]


def _random_step(seed):
    import random

    r = random.Random(seed)
    slot = r.randrange(4)
    k = r.choices(["new", "ops", "apply", "obs", "peek", "edit", "bad", "noisebad", "misc"],
                  [1, 12, 5, 9, 7, 6, 3, 4, 5])[0]
    big = r.choice([0, 1, 2, 3, 4, 5, r.randrange(2**32)])
    if k == "new":
        return ["new", slot, *_random_circuit(r)]
    if k == "ops":
        return ["ops", slot, [_random_item(r) for _ in range(r.choice([1, 2, 3, 5]))],
                r.choice(["context", "context", "context", "context", "frozen", "append"]), r.random() < 0.2]
    if k == "apply":
        return ["apply", slot, {"of": r.randrange(4), "v": [round(r.uniform(-7, 7), 3) for _ in range(4)],
                                "shift": r.randrange(4), "bits": r.random() < 0.7}]
    if k == "obs":
        return ["obs", r.randrange(2), r.choice(OBS), big]
    if k == "peek":
        return ["peek", slot, r.choice(OBS), big]
    if k == "edit":
        return ["edit", slot, r.choice(EDITS), r.randrange(8), big]
    if k == "misc":
        return ["misc", 2, r.choice(MISC), r.randrange(6)]
    return ["bad", 2 + slot % 2 if k == "noisebad" else slot, r.choice(BAD), r.randrange(6)]


def _long(args):
    import random

    first, seeds = args
    r = random.Random(first)
    out = [["new", i, *_random_circuit(r)] for i in range(4)] + [_random_step(x) for x in seeds]
    for slot in (0, 1):
        out += [["obs", slot, w, r.randrange(6)] for w in ["desc", "simulate", *r.sample(OBS, 3)]]
    return out


def long_cases():
    seeds = st.lists(st.integers(0, 2**40), min_size=12, max_size=60)
    return st.tuples(st.integers(0, 2**32), seeds).map(_long).map(_lists)


def _lists(x):
    if isinstance(x, (list, tuple)):
        return [_lists(y) for y in x]
    if isinstance(x, dict):
        return {k: _lists(v) for k, v in x.items()}
    return x


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype and np.allclose(a, b, rtol=0, atol=1e-12)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (complex, float)):
        return a == b or abs(a - b) <= 1e-12 or (a != a and b != b)
    return a == b


def _show(x):
    t = repr(x)
    return t if len(t) < 600 else t[:600] + "..."


class Skip(Exception):
    pass


class Broken(BaseException):
    """Not taken for an exception of the library."""


def array(a):
    return None if a is None else np.array(a)


class World:
    def __init__(self):
        self.circuits = {}
        self.shared = {}

    # ---- helpers
    def global_state(self, s):
        """No context is left active."""
        from dwave.gate.circuit import Circuit, CircuitContext

        if CircuitContext.active_context is not None:
            raise Broken(f"a context is active after {s}")
        c = Circuit(1)
        with c.context:
            pass

    def readable(self, slot, other):
        """Circuits that are observed only use each other."""
        return other if slot >= 2 else other % 2

    def desc(self, c, states=True):
        from dwave.gate.primitives import Variable

        qs, bs = list(c.qubits), list(c.bits)

        def param(p):
            return ("var", p.name, p.value) if isinstance(p, Variable) else ("num", complex(p))

        return (
            type(c).__name__,
            [(str(k), [q.label for q in r], r.frozen) for k, r in c.qregisters.items()],
            [(str(k), [(b.label, b.value) for b in r], r.frozen) for k, r in c.cregisters.items()],
            [
                (
                    type(o).__name__,
                    None if o.qubits is None else [qs.index(q) for q in o.qubits],
                    o.num_qubits,
                    [qs.index(q) for q in getattr(o, "control", None) or []],
                    [qs.index(q) for q in getattr(o, "target", None) or []],
                    [param(p) for p in getattr(o, "parameters", [])],
                    None if getattr(o, "bits", None) is None else [bs.index(b) if b in bs else -1 for b in o.bits],
                    [bs.index(b) if b in bs else -1 for b in o._cond or []],
                    o.is_blocked,
                    array(getattr(o, "state", None)) if states else None,
                )
                for o in c.circuit
            ],
            c.is_locked(), c.num_parameters, c.parametric, c.num_qubits, c.num_bits,
            [param(v) for v in lib.params_of(c)],
        )

    def measured(self, c):
        import dwave.gate.operations as ops

        return any(isinstance(o, ops.Measurement) for o in c.circuit)

    def values(self, c, v):
        return (list(v) * (1 + c.num_parameters // len(v)))[: c.num_parameters]

    # ---- building
    def do_new(self, slot, qsteps, csizes, kind, labels):
        import dwave.gate.circuit as dc

        csteps = [["reg", n] for n in csizes] or None
        c, _, _ = lib.new_circuit(qsteps, csteps, cls=getattr(dc, kind))
        self.circuits[slot] = c
        return self.desc(c)

    def do_twin(self, slot, of, kind, rotate):
        """A circuit with the same qubits, in another order, bits and operations as another one."""
        from dwave.gate.circuit import Circuit

        other = self.circuits.get(self.readable(slot, of))
        if other is None or (other.num_parameters and kind != "registers"):
            raise Skip
        q, b = list(other.qubits), list(other.bits)
        k = rotate % max(1, len(q))
        c = Circuit()
        for x in q[k:] + q[:k]:
            c.add_qubit(x)
        for x in b[::-1]:
            c.add_bit(x)
        if kind == "operations":
            c.extend(other.circuit)
        self.circuits[slot] = c
        return self.desc(c)

    def prepare(self, slot, items):
        """Operation classes cannot be made within a context."""
        for x in items:
            if x[0] == "g":
                lib.gate_class(x[1]["g"], x[1]["p"])

    def make(self, slot, c, item, regs):
        import dwave.gate.operations as ops

        q, b = list(c.qubits), list(c.bits)
        n = len(q)
        if n == 0:
            raise Skip
        if item[0] == "g":
            _, plan, cond, var = item
            if lib.gate_arity(plan["g"]) > n:
                return None
            at = []
            for i in plan["q"]:
                i %= n
                while i in at:
                    i = (i + 1) % n
                at.append(i)
            plan = {**plan, "q": at}
            if var is not None and regs is not None and len(regs) == 3 and plan["p"] and plan["g"] not in lib.USER_POOL:
                plan["p"] = [regs[0][var], *plan["p"][1:]]
            op = lib.make_op(plan, q, plan.get("h", 0))
            if cond and b:
                op.conditional([b[i % len(b)] for i in cond])
            return op
        if item[0] == "m":
            _, at, store, cond = item[:4]
            at = sorted({i % n for i in at})
            if len(item) > 4:  # an outcome that is random
                ops.Hadamard(q[at[0]])
            op = ops.Measurement(tuple(q[i] for i in at))
            if store and len(b) >= len(at):
                op | b
            if cond and b:
                op.conditional(b[cond[0] % len(b)])
            return op
        if item[0] == "b":
            return ops.Barrier(tuple(q[i] for i in sorted({i % n for i in item[1]})))
        _, k, v, at = item
        cls = self.shared.get((slot >= 2, k))
        if cls is None or cls.num_qubits > n:
            return None
        qs = tuple(q[i] for i in ([i for i in at if i < n])[: cls.num_qubits])
        if getattr(cls, "_num_params", 0):
            return cls((list(v) * 3)[: cls._num_params], qs)
        return cls(qs)

    def do_ops(self, slot, items, how, fails):
        from dwave.gate.circuit import CircuitContext

        c = self.circuits[slot]
        self.prepare(slot, items)
        c.unlock()
        if how == "append":
            made = [self.make(slot, c, x, None) for x in items]
            c.extend([m for m in made if m is not None])
        else:
            try:
                with c.context as regs:
                    with CircuitContext.freeze if how == "frozen" else contextlib.nullcontext():
                        for x in items:
                            self.make(slot, c, x, regs)
                    if fails:
                        raise KeyError
            except KeyError:
                pass
        return self.desc(c)

    def do_apply(self, slot, t):
        c = self.circuits[slot]
        other = self.circuits.get(self.readable(slot, t["of"]))
        if other is None or other is c or other.num_qubits > c.num_qubits:
            raise Skip
        if slot >= 2 and self.has_values(other):
            raise Skip
        before = self.desc(other)
        q, b = list(c.qubits), list(c.bits)
        qs = [q[(i + t["shift"]) % len(q)] for i in range(other.num_qubits)]
        args = [self.values(other, t["v"])] if type(other).__name__ == "ParametricCircuit" else []
        args.append(qs)
        if t["bits"] and other.num_bits and other.num_bits <= len(b):
            args.append(b[: other.num_bits])
        c.unlock()
        with c.context:
            other(*args)
        after = self.desc(other)
        if not same(before, after) and not other.num_parameters:
            raise Broken(f"the template changed: {before} {after}")
        return self.desc(c)

    # ---- observations
    def do_peek(self, slot, what, seed):
        if what == "template" and self.has_values(self.circuits[slot]):
            raise Skip
        return self.do_obs(slot, what, seed, False)

    def has_values(self, c):
        """Using a parametric circuit as a template resets its variables."""
        return any(v.value is not None for v in lib.params_of(c))

    def do_obs(self, slot, what, seed, keep=True):
        from dwave.gate.circuit import Circuit, ParametricCircuit
        from dwave.gate.simulator import simulate
        from dwave.gate.tools import build_unitary
        import dwave.gate.operations as ops

        c = self.circuits[slot]
        parametric = isinstance(c, ParametricCircuit)
        if what == "desc":
            return self.desc(c)
        if what == "repr":
            return re.sub(r"id: \w+", "", repr(c) + str(c) + repr(c.circuit) + str(c.qubits) + repr(c.bits))
        if what in ("copy", "pickle"):
            x = copy.deepcopy(c) if what == "copy" else pickle.loads(pickle.dumps(c))
            return self.desc(x, states=keep)
        if what in ("simulate", "mixed", "little"):
            x = copy.deepcopy(c)
            simulate(x, mixed_state=what == "mixed", little_endian=what == "little", rng_seed=seed)
            state = array(x.density_matrix if what == "mixed" else x.state)
            return state, array(x.density_matrix), [b.value for b in x.bits]
        if what == "unitary":
            return array(build_unitary(c))
        if what.startswith("qasm"):
            kw = {"qasm": {}, "qasm-labels": {"reg_labels": True}, "qasm-defs": {"gate_definitions": True}}[what]
            return c.to_qasm(**kw)
        if what in ("qir", "qir-external"):
            return c.to_qir(add_external=what != "qir")
        if what == "bitcode":
            code = c.to_qir(add_external=True, bitcode=True)
            return self.desc(Circuit.from_qir(code, bitcode=True))
        if what == "reload":
            x = Circuit.from_qir(c.to_qir(add_external=True))
            simulate(x, rng_seed=seed)
            return self.desc(x), array(x.state)
        if what == "matrices":
            out = []
            for i, o in enumerate(c.circuit):
                r = lib.outcome(lambda: array(o.matrix))
                out.append((type(o).__name__, r[1] if r[0] == "ok" else type(r[1]).__name__))
            return out
        if what == "classes":
            out = []
            for o in c.circuit:
                for a in ("matrix", "num_qubits", "num_parameters", "num_control", "num_target", "decomposition",
                          "name", "target_operation"):
                    r = lib.outcome(lambda: getattr(type(o), a))
                    r = r[1] if r[0] == "ok" else type(r[1]).__name__
                    out.append((a, array(r) if isinstance(r, np.ndarray) else str(r)))
            return out
        if what == "wrap":
            cls = ops.create_operation(c, name=f"W{seed % 3}")
            if keep:
                self.shared[(slot >= 2, seed % 4)] = cls
            args = [self.values(c, [0.5, 1.25, 2.0])] if c.parametric else []
            return cls.num_qubits, cls.__name__, array(cls(*args).matrix)
        if what == "template":
            x = Circuit(c.num_qubits, c.num_bits)
            args = [self.values(c, [0.5, 1.25, 2.0])] if parametric else []
            with x.context as regs:
                c(*args, list(regs.q), *([list(regs.c)] if c.num_bits else []))
            simulate(x, rng_seed=seed)
            return self.desc(x), array(x.state)
        if what == "eval":
            out = []
            for o in c.circuit:
                if hasattr(o, "eval"):
                    r = lib.outcome(lambda: o.eval([0.5] * len(o.parameters)).parameters)
                    out.append(r[1] if r[0] == "ok" else type(r[1]).__name__)
            if parametric:
                x = c.eval([[0.25] * len(getattr(o, "parameters", [])) for o in c.circuit])
                out.append(self.desc(x, states=keep))
            return out
        if what == "eq":
            return [[bool(a == b) for a in c.circuit] for b in c.circuit]
        if what == "find":
            return [c.find_qubit(q) for q in c.qubits] + [
                c.find_bit(b, creg_label=True) for b in c.bits
            ] + [list(c.qubits).index(c.get_qubit(q.label)) for q in c.qubits]
        if what == "registers":
            q, b = c.qubits, c.bits
            return [
                [q.index(x) for x in q], [x in q for x in q], [b.index(x) for x in b],
                [x.label for x in q[::-1]], len(q + c.qubits[:0]), [x.label for x in b],
                [repr(x) for x in lib.params_of(c)], [len(r) for r in c.qregisters.values()],
                [list(q).index(x) for r in c.qregisters.values() for x in r],
            ]
        if what == "state":
            r = lib.outcome(lambda: array(c.state))
            d = lib.outcome(lambda: array(c.density_matrix))
            return [x[1] if x[0] == "ok" else type(x[1]).__name__ for x in (r, d)]
        if what == "context":
            locked = c.is_locked()
            if locked:
                raise Skip
            with c.context as regs:
                out = [[x.label for x in regs.q], [x.label for x in regs.c]]
            c.unlock()
            return out
        return c.is_locked(), c.parametric, c.num_parameters

    # ---- changes
    def do_edit(self, slot, what, i, seed):
        import dwave.gate.operations as ops
        from dwave.gate.primitives import Bit, Qubit
        from dwave.gate.simulator import simulate

        c = self.circuits[slot]
        op = c.circuit[i % len(c.circuit)] if c.circuit else None
        if what in ("remove", "param", "cond", "setq", "move", "replace") and op is None:
            raise Skip
        if what == "move":
            # to the end
            c.unlock()
            c.remove(op)
            c.append(op)
        if what == "replace":
            # by another operation on the same qubits
            if isinstance(op, ops.Measurement) or not op.qubits or len(op.qubits) > 2:
                raise Skip
            others = [[ops.X, ops.Y, ops.Z, ops.Hadamard, ops.S, ops.T], [ops.CX, ops.CZ]][len(op.qubits) - 1]
            c.unlock()
            c.remove(op)
            c.append(others[seed % len(others)](qubits=op.qubits))
        if what == "setq":
            # other qubits of the circuit
            if isinstance(op, ops.Measurement) or not op.qubits:
                raise Skip
            qs, k = list(c.qubits), 1 + seed % max(1, c.num_qubits)
            op.qubits = [qs[(k + (i % 2 * 2 - 1) * qs.index(x)) % len(qs)] for x in op.qubits]
        if what == "remove":
            c.remove(op)
        elif what == "param":
            if not getattr(op, "parameters", None):
                raise Skip
            op.parameters[i % len(op.parameters)] = (seed % 1000) / 100
        elif what == "qubit":
            labels = list(c.qregisters)
            c.add_qubit(*([Qubit("x")] if i % 2 else []), qreg_label=labels[i % len(labels)] if labels and i % 3 else None)
        elif what == "bit":
            labels = list(c.cregisters)
            c.add_bit(*([Bit("x")] if i % 2 else []), creg_label=labels[i % len(labels)] if labels and i % 3 else None)
        elif what == "qreg":
            c.add_qregister(i % 2, **({"label": f"l{i}"} if i % 3 else {}))
        elif what == "creg":
            c.add_cregister(i % 3, **({"label": f"l{i}"} if i % 2 else {}))
        elif what.startswith("reset"):
            c.reset(**({} if what == "reset" else {"keep_registers": False}))
        elif what == "lock":
            c.lock()
        elif what == "unlock":
            c.unlock()
        elif what == "simulate":
            simulate(c, mixed_state=i % 3 == 0, rng_seed=seed)
        elif what == "set_state":
            psi = np.random.default_rng(seed).normal(size=(1 << c.num_qubits, 2)) @ [1, 1j]
            c.set_state(psi, force=bool(i % 2), normalize=True)
        elif what == "cond":
            if not c.num_bits:
                raise Skip
            op.conditional(c.bits[i % c.num_bits])
        elif what == "value":
            if not c.num_bits:
                raise Skip
            c.bits[i % c.num_bits].set(seed % 2, force=True)
        elif what == "label":
            for x in list(c.qubits)[i % 2 :: 3]:
                x.label = f"y{seed % 5}"
        elif what == "variable":
            vs = list(lib.params_of(c))
            if not vs:
                raise Skip
            vs[i % len(vs)].set(i / 4) if seed % 3 else vs[i % len(vs)].reset()
        return self.desc(c)

    # ---- failing steps
    def do_bad(self, slot, what, i):
        import dwave.gate.operations as ops
        from dwave.gate.circuit import Circuit, CircuitContext, ParametricCircuit
        from dwave.gate.primitives import Bit, Qubit, Variable
        from dwave.gate.qir.loader import load_qir_bitcode, load_qir_string
        from dwave.gate.simulator import simulate
        from dwave.gate.tools import build_unitary

        c = self.circuits[slot]
        q = list(c.qubits)
        c.unlock()
        names = ["X", "RX", "CX", "CCX", "SWAP", "CRotation"]
        cls = getattr(ops, names[i])
        k = lib.gate_params(names[i])
        args = [[0.5] * k] if k else []
        errors = []

        def attempt(fn):
            try:
                fn()
            except Exception as e:  # noqa: BLE001
                errors.append(type(e).__name__)

        if what == "qubits":
            with c.context:
                attempt(lambda: cls(*args, qubits=tuple(q) + (Qubit("f"),) * (cls.num_qubits + 1)))
                attempt(lambda: cls(*args))
        elif what == "params":
            with c.context:
                attempt(lambda: ops.RX([], qubits=tuple(q[:1])))
                attempt(lambda: ops.Rotation([1.0], qubits=tuple(q[:1])))
        elif what == "foreign":
            with c.context:
                attempt(lambda: cls(*args, qubits=tuple(Qubit(str(j)) for j in range(cls.num_qubits))))
        elif what == "nested":
            other = Circuit(1)

            def nest():
                with c.context:
                    with other.context:
                        pass

            attempt(nest)
        elif what == "template-size":
            with c.context:
                other = Circuit(len(q) + 1)
                attempt(lambda: other(q))
                attempt(lambda: Circuit(1, 1)(q[:1], list(c.bits) + [Bit("a"), Bit("b")]))
        elif what == "template-args":
            other = ParametricCircuit(1)
            with other.context as regs:
                ops.RX(regs.p[0], regs.q[0])
                ops.RY(regs.p[1], regs.q[0])
            with c.context:
                attempt(lambda: other([0.5], q[:1]))
                attempt(lambda: other([0.5, 1.0], q + [Qubit("f")]))
            errors.append([v.value for v in lib.params_of(other)])
        elif what == "set_state":
            attempt(lambda: c.set_state(np.zeros(1 << c.num_qubits), force=True))
            attempt(lambda: c.set_state(np.ones(3), force=True, normalize=True))
        elif what == "qir":
            attempt(lambda: _conditional(c).to_qir())
            attempt(lambda: _unsupported(c).to_qir())
            attempt(lambda: _unsupported(c).to_qir(add_external=True))
        elif what == "qasm":
            attempt(lambda: _conditional(c).to_qasm())
            attempt(lambda: c.to_qasm(version="3.0"))
        elif what == "load":
            attempt(lambda: load_qir_string("nonsense"))
            attempt(lambda: load_qir_string(_QIR.replace("@__quantum__qis__x__body", "@__quantum__qis__foo__body")))
        elif what == "load-bits":
            attempt(lambda: load_qir_bitcode(b"nonsense"))
        elif what in ("raise", "raise-frozen"):

            def raising():
                with c.context:
                    with CircuitContext.freeze if what != "raise" else contextlib.nullcontext():
                        raise RuntimeError

            attempt(raising)
        elif what == "double-qubit":
            attempt(lambda: c.add_qubit(q[i % len(q)]))
            attempt(lambda: c.add_qubit("no qubit"))
        elif what == "double-register":
            attempt(lambda: c.add_qregister(1, label=next(iter(c.qregisters))))
        elif what == "unset":
            x = Circuit(1)

            def unset():
                with x.context as regs:
                    ops.RX(Variable("a"), regs.q[0])

            attempt(unset)
        elif what == "sample":
            attempt(lambda: ops.Measurement().sample())
        elif what == "remove":
            attempt(lambda: c.remove(ops.X(Qubit("f"))))
        elif what == "matrix-class":
            for name in ("RX", "CRX", "Rotation", "Measurement", "CRotation"):
                attempt(lambda: getattr(ops, name).matrix)
                attempt(lambda: setattr(getattr(ops, name), "matrix", 3))
        elif what == "unknown":
            attempt(lambda: simulate(_unsupported(c)))
        elif what == "freeze-outside":

            def freeze():
                with CircuitContext.freeze:
                    pass

            attempt(freeze)
        elif what == "unitary":
            attempt(lambda: build_unitary(_unsupported(c)))
            attempt(lambda: build_unitary(Circuit()))
        elif what == "wrap-context":
            op = ops.create_operation(_unsupported(c), name="Bad")
            attempt(lambda: op.matrix)
            with c.context:
                attempt(lambda: op.matrix)
                attempt(lambda: op())
        elif what == "simulate":
            x = copy.deepcopy(c)
            x.unlock()
            with x.context:
                if q:
                    ops.Measurement(x.qubits[0])
            attempt(lambda: simulate(x, little_endian=True))
        elif what == "bit-set":
            b = Bit("a")
            b.set(1)
            attempt(lambda: b.set(0))
        return errors, self.desc(c)

    # ---- other uses of the library
    def do_misc(self, slot, what, i):
        import dwave.gate.operations as ops
        from dwave.gate import registers as regs_
        from dwave.gate.circuit import Circuit, ParametricCircuit
        from dwave.gate.primitives import Bit, Qubit, Variable
        from dwave.gate.qir.compiler import BaseModule
        from dwave.gate.simulator import simulate
        from dwave.gate.simulator.simulator import sample_qubit

        if what == "ids":
            for _ in range(50 * (i + 1)):
                Qubit("a"), Bit("b")
        elif what == "classes":
            for name in lib.ALL_GATES[i::6]:
                cls = getattr(ops, name)
                for a in ("matrix", "num_qubits", "num_control", "num_parameters", "decomposition", "name",
                          "target_operation", "num_target"):
                    lib.outcome(lambda: getattr(cls, a))
                repr(cls), str(cls)
        elif what == "subclass":
            base = [ops.CX, ops.RX, ops.Hadamard, ops.CRX, ops.ControlledOperation, ops.Operation][i]
            cls = type(base)(base.__name__, (base,), {"_num_qubits": 5} if i < 3 else {})
            lib.outcome(lambda: cls.num_qubits)
            lib.outcome(lambda: cls.matrix)
            cls2 = type(base)("CCY", (ops.ControlledOperation,),
                              {"_num_control": 2, "_num_target": 1, "_target_operation": ops.Y})
            lib.outcome(lambda: cls2.matrix)
            lib.outcome(lambda: cls2().num_qubits)
        elif what == "custom":
            name = ["X", "RX", "CX", "KOne", "W0", "W1"][i]
            x = ParametricCircuit(2) if i % 2 else Circuit(2)
            with x.context as r:
                ops.RX(r.p[0] if i % 2 else 0.3, r.q[1])
                ops.CX(r.q[0], r.q[1])
            cls = ops.create_operation(x, name=name)
            cls(*([[0.7]] if i % 2 else [])).matrix
        elif what == "registers":
            r = regs_.SelfIncrementingRegister()
            r[3 + i]
            r.freeze()
            qr = regs_.QuantumRegister([Qubit("a")])
            qr.freeze()
            lib.outcome(lambda: qr.add(Qubit("b")))
            qr.to_qasm("lab", 3)
        elif what == "variables":
            for n in "0123":
                Variable(n).set(9.5)
            x = ParametricCircuit(1)
            with x.context as r:
                for j in range(i + 1):
                    ops.RX(r.p[j], r.q[0])
            y = Circuit(1)
            with y.context as r:
                x([7.0] * (i + 1), r.q[0])
            x.eval([[2.0]] * (i + 1), inplace=True)
        elif what == "modules":
            m = BaseModule("m", 2, 2)
            m.add_external_function("foo", [m.Types.DOUBLE])
            m.add_external_function("rot", [m.Types.DOUBLE])
            m.compile()
            lib.outcome(m.compile)
            m.reset()
        elif what == "kernel":
            rng = np.random.default_rng(i)
            s = np.ones(8, dtype=complex) / np.sqrt(8)
            for j in range(3):
                sample_qubit(j, s, rng, little_endian=bool(i % 2))
        elif what == "seedless":
            x = Circuit(2, 2)
            with x.context as r:
                ops.Hadamard(r.q[0])
                m = ops.Measurement(tuple(r.q)) | r.c
            simulate(x)
            m.sample(num_samples=3)
            m.expval(num_samples=3)
        elif what == "decompositions":
            for name in lib.ALL_GATES:
                r = lib.outcome(lambda: getattr(ops, name).decomposition)
                if r[0] == "ok":
                    list(r[1])
        elif what == "names":
            for name in lib.BUILTIN:
                k = lib.gate_params(name)
                op = getattr(ops, name)(*([[0.1] * k] if k else []))
                op.name, repr(op), lib.outcome(op.to_qasm), op == op
        elif what == "bits":
            b = Bit("0")
            b.set(1)
            b.reset()
            bool(b), b == 1, hash(b)
        return None


_QIR = """
%Qubit = type opaque
declare void @__quantum__qis__x__body(%Qubit*)
define void @main() #0 {
entry:
  call void @__quantum__qis__x__body(%Qubit* null)
  ret void
}
attributes #0 = { "entry_point" "num_required_qubits"="1" "num_required_results"="0" }
"""


def _conditional(c):
    import dwave.gate.operations as ops
    from dwave.gate.circuit import Circuit

    x = Circuit(1, 1)
    with x.context as r:
        ops.X(r.q[0]).conditional(r.c[0])
    return x


def _unsupported(c):
    import dwave.gate.operations as ops
    from dwave.gate.circuit import Circuit

    x = Circuit(3)
    cls = type(ops.Operation)("Unsupported", (ops.Operation,), {"_num_qubits": 2})
    with x.context as r:
        ops.X(r.q[2])
        cls((r.q[0], r.q[1]))
    return x


# ---------------------------------------------------------------------------------------------
# edited circuits give the same as circuits with the same content that are built at once


def fresh(c):
    """A circuit with equal registers, operations, and values of bits and variables."""
    import dwave.gate.operations as ops
    from dwave.gate.primitives import Bit, Qubit, Variable

    x = type(c)()
    for add, kind, mine, theirs in (
        ("add_qregister", Qubit, x.qregisters, c.qregisters),
        ("add_cregister", Bit, x.cregisters, c.cregisters),
    ):
        for label, reg in theirs.items():
            getattr(x, add)(label=label)
            for item in reg:
                new = kind(item.label)
                if kind is Bit and item.value is not None:
                    new.set(item.value)
                mine[label].add(new)
    x.__dict__.pop("qubits", None)
    x.__dict__.pop("bits", None)
    qs, bs, vs = list(c.qubits), list(c.bits), list(lib.params_of(c))
    with x.context as regs:
        if vs:
            regs[0][len(vs) - 1]
        for old in c.circuit:
            at = [regs.q[qs.index(q)] for q in old.qubits]
            args = []
            if hasattr(old, "parameters"):
                args = [[regs[0][vs.index(p)] if isinstance(p, Variable) else p for p in old.parameters]]
            new = type(old)(*args, qubits=at)
            if isinstance(old, ops.Measurement) and old.bits is not None:
                new | [regs.c[bs.index(b)] if b in bs else b for b in old.bits]
            if old._cond:
                new.conditional([regs.c[bs.index(b)] if b in bs else b for b in old._cond])
    for old, new in zip(vs, lib.params_of(x)):
        if old.value is not None:
            new.set(old.value)
    if not c.is_locked():
        x.unlock()
    return x


SAME_SIZE = ["param", "param", "setq", "setq", "move", "move", "replace", "replace", "replace", "variable", "label", "value"]
"""Edits after which the numbers of operations, qubits and bits are what they were."""
PLAIN = EXPORT + ["Rotation", "CRX", "SWAP", "CCX", "CHadamard", "CRotation"]


def edited_cases(reads=(), k=12, edits=(), plain=False):
    """Two circuits, anything done with them, observations in between.

    If ``plain``, many of the circuits only have operations that can be exported.
    """
    anything = _edited_any(reads, k, edits)
    if not reads:
        return anything
    rounds = _edited_rounds(reads, plain)
    return st.one_of(anything, rounds, rounds) if plain else st.one_of(anything, rounds)


def _edited_rounds(reads, plain):
    """One or two circuits, read and edited in turns."""
    slot, seed = st.integers(0, 1), st.integers(0, 5)
    new = st.tuples(
        lib.register_plans(3), st.lists(st.integers(0, 2), max_size=2),
        st.just("Circuit") if plain else st.sampled_from(["Circuit", "Circuit", "Circuit", "ParametricCircuit"]),
        st.booleans(),
    )
    gate = st.builds(lambda p: ["g", p, [], None], lib.gate_plans(N, PLAIN if plain else POOL))
    some = st.lists(gate if plain else _op(), min_size=1, max_size=4)
    read = st.builds(lambda s, w, d: ["obs", s, w, d], slot, st.sampled_from(reads), seed)
    edit = st.builds(
        lambda s, w, i, d: ["edit", s, w, i, d], slot, st.sampled_from(SAME_SIZE), st.integers(0, 7), seed
    )
    rounds = st.lists(st.tuples(read, edit), min_size=1, max_size=4)

    def build(args):
        news, items, rest, solo = args
        out = []
        for i, (n, o) in enumerate(zip(news, items)):
            out += [["new", i, *n], ["ops", i, o, "context", False]]
        for pair in rest:
            for s in pair:
                out.append([s[0], 0 if solo else s[1], *s[2:]])
        return _lists(out)

    return st.tuples(
        st.lists(new, min_size=1, max_size=2), st.lists(some, min_size=2, max_size=2), rounds, st.booleans()
    ).map(build)


def _edited_any(reads, k, edits):
    new = st.tuples(
        lib.register_plans(3), st.lists(st.integers(0, 2), max_size=2),
        st.sampled_from(["Circuit", "Circuit", "Circuit", "ParametricCircuit"]), st.booleans(),
    )
    ops = st.lists(_op(), min_size=1, max_size=5)

    def build(args):
        news, items, rest = args
        out = []
        for i, (n, o) in enumerate(zip(news, items)):
            out += [["new", i, *n], ["ops", i, o, "context", False]]
        return _lists(out + rest)

    return st.tuples(
        st.lists(new, min_size=1, max_size=2), st.lists(ops, min_size=2, max_size=2),
        st.lists(edited_steps(reads, edits), min_size=2, max_size=k),
    ).map(build)


def edited_steps(reads, edits):
    slot, seed = st.integers(0, 1), st.integers(0, 5)
    apply = st.builds(
        lambda s, o, f: ["ops", s, o, f, False], slot, st.lists(_op(), min_size=1, max_size=3),
        st.sampled_from(["context", "context", "append"]),
    )
    template = st.builds(lambda s, t: ["apply", s, t], slot, _templates())
    obs = st.builds(lambda s, w, d: ["obs", s, w, d], slot, st.sampled_from(OBS), seed)
    if reads:
        mine = st.builds(lambda s, w, d: ["obs", s, w, d], slot, st.sampled_from(reads), seed)
        obs = st.one_of(mine, mine, obs)
    edit = st.builds(
        lambda s, w, i, d: ["edit", s, w, i, d], slot,
        st.sampled_from([e for e in EDITS if e not in ("reset", "reset-all")] + ["setq", "param", "param", "remove", *edits]),
        st.integers(0, 7), seed,
    )
    twin = st.builds(
        lambda s, o, k, r: ["twin", s, o, k, r], slot, slot,
        st.sampled_from(["operations", "operations", "registers"]), st.integers(0, 3),
    )
    bad = st.builds(lambda s, w, i: ["bad", s, w, i], slot, st.sampled_from(BAD), st.integers(0, 5))
    return st.one_of(twin, apply, template, obs, obs, obs, edit, edit, edit, bad)


def check_edited(case, ctx, whats):
    """Both circuits are as if built at once, as far as the observations go."""
    w = World()
    changed = set()
    for s in case:
        if s[0] != "new" and w.circuits.get(s[1]) is None and s[0] != "twin":
            continue
        try:
            getattr(w, "do_" + s[0])(*s[1:])
            if s[0] in ("edit", "twin", "apply") and s[2] not in ("lock", "unlock"):
                changed.add(s[1])
        except Exception:  # noqa: BLE001, S112 (judged by other subs)
            continue
    for slot, c in sorted(w.circuits.items()):
        x = fresh(c)
        wx = World()
        wx.circuits[slot] = x
        for what in whats:
            got = lib.outcome(lambda: w.do_obs(slot, what, 3, False))
            want = lib.outcome(lambda: wx.do_obs(slot, what, 3, False))
            require(
                got[0] == want[0]
                and (same(got[1], want[1]) if got[0] == "ok" else type(got[1]) is type(want[1])),
                lambda: f"{what} of the edited circuit: {_show(got)}, of a new one with the same content: "
                f"{_show(want)}; operations {_show(w.desc(c, False))}",
            )
            ctx.label(f"{what}: {'result' if got[0] == 'ok' else 'raises'}")
            if got[0] == "ok" and len(c.circuit) > 1 and slot in changed:
                ctx.nontrivial()
