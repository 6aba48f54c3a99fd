"""C24: operations validate, compare and re-apply consistently."""

import contextlib

import numpy as np
from hypothesis import strategies as st

from checks import lib, world
from vf.core import Check, require

check = Check(
    "C24",
    rule=(
        "histories of constructing (every call form, valid and invalid), re-applying, editing and "
        "comparing operations, within a context, a frozen context or none, against a model of what "
        "each operation holds; non-trivial: a re-application on other qubits, an invalid "
        "construction, or operations of the same kind that differ"
    ),
    assumptions=[
        "distinct operation classes which share a name may compare either way, but never raise",
        "the split of a right number of qubits into controls and targets is not validated",
        "re-applying drops measured bits and conditions",
    ],
)

KINDS = lib.BUILTIN + sorted(lib.ALIASES) + lib.USER_POOL + ["Measurement", "Barrier"]
ANY = ("Measurement", "Barrier")
N = 5


def values():
    return st.one_of(
        st.sampled_from([0, 0.0, 1, -1, True, 0.5, 1j, 2 + 1j, 1e-30, 3.25]),
        st.floats(-10, 10, allow_nan=False).map(lambda x: float(x)),
        st.sampled_from(["np", "v:a", "v:b", "v:a", "V:c"]),
    )


def _encode(v):
    return {"c": [v.real, v.imag]} if isinstance(v, complex) else v


def _steps():
    gate = st.sampled_from(KINDS)
    qs = st.permutations(range(N)).map(list)
    vals = st.lists(values().map(_encode), min_size=4, max_size=4)
    form = st.integers(0, 6)
    make = st.tuples(st.just("make"), gate, qs, vals, form, st.sampled_from([0, 1, 1, 1, 1, 2]))
    twin = st.tuples(
        st.just("twin"), st.integers(0, 20), st.sampled_from(["same", "qubits", "order", "param", "kind"]),
        qs, vals, form,
    )
    bad = st.tuples(
        st.just("bad"), gate, qs, vals, form,
        st.sampled_from(["few", "many", "no-params", "few-params", "many-params", "missing",
                         "control-only", "target-only", "no-target"]),
    )
    call = st.tuples(st.just("call"), st.integers(0, 20), st.sampled_from(
        ["same", "other", "other", "few", "many", "control", "target", "kw", "single"]), qs)
    edit = st.tuples(st.just("edit"), st.integers(0, 20), st.sampled_from(
        ["param", "eval", "qubits", "bad-qubits", "list"]), qs, vals)
    return st.lists(st.one_of(make, make, twin, bad, call, call, edit).map(list), min_size=2, max_size=12)


class Rec:
    def __init__(self, op, g, cls, qubits, params, control=None, target=None):
        self.op, self.g, self.cls, self.qubits, self.params = op, g, cls, qubits, params
        self.control, self.target = control, target


def _same_items(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def _same_values(a, b):
    from dwave.gate.primitives import Variable

    if not isinstance(a, list) or len(a) != len(b):
        return False
    return all(x is y or (not isinstance(x, Variable) and type(x) is type(y) and x == y) for x, y in zip(a, b))


@check.sub(
    "history",
    strategy=lambda: st.fixed_dictionaries(
        {
            "where": st.sampled_from(["context", "parametric", "parametric", "none", "frozen"]),
            "steps": _steps(),
        }
    ),
    quick=9000,
    thorough=200000,
)
def history(case, ctx):
    import dwave.gate.operations as ops
    from dwave.gate.circuit import Circuit, CircuitContext, ParametricCircuit

    parametric = case["where"] == "parametric"
    circuit = ParametricCircuit() if parametric else Circuit()
    circuit.add_qregister(2)
    circuit.add_qregister(N - 2)
    within = case["where"] in ("context", "parametric")
    world = World(circuit, within, case["where"] != "none", ctx)
    with contextlib.ExitStack() as stack:
        if case["where"] != "none":
            regs = stack.enter_context(circuit.context)
            if parametric:
                regs.p[0]
        if case["where"] == "frozen":
            stack.enter_context(CircuitContext.freeze)
        for step in case["steps"]:
            getattr(world, "do_" + step[0])(*step[1:])
            world.verify(step)
        world.compare(ops)
    world.verify("leaving the context")
    world.compare(ops)
    ctx.label(case["where"])


class World:
    def __init__(self, circuit, within, active, ctx):
        from dwave.gate.circuit import ParametricCircuit
        from dwave.gate.primitives import Variable

        self.circuit, self.within, self.active, self.ctx = circuit, within, active, ctx
        self.qubits = [q for reg in circuit.qregisters.values() for q in reg]
        self.vars = {"v:a": Variable("a"), "v:b": Variable("b"), "V:c": Variable("c")}
        self.vars["V:c"].set(0.5)
        # circuits without parameters replace variables with their values
        self.evaluates = within and not isinstance(circuit, ParametricCircuit)
        self.recs = []
        self.applied = []
        self.lists = []
        for g in lib.USER_POOL:  # custom operations cannot be made within a context
            self.kind(g, ())

    # ---- helpers
    def value(self, v):
        if isinstance(v, dict):
            return complex(*v["c"])
        if v == "np":
            return np.float64(0.25)
        if isinstance(v, str):
            return self.vars[v]
        return v

    def pick(self, i):
        return self.recs[i % len(self.recs)] if self.recs else None

    def kind(self, g, vals):
        if g in ANY:
            import dwave.gate.operations as ops

            return getattr(ops, g), None, 0
        if g in lib.USER_QUBITS:
            fixed = [0.3, 1.1, 0.2, 0.7][: lib.gate_params(g)]
            cls = lib.gate_class(g, fixed)
            k = lib.USER_RUNTIME_PARAMS[g]
        else:
            cls = lib.gate_class(g)
            k = lib.gate_params(g)
        return cls, lib.gate_arity(g), k

    def keep(self, op, g, cls, qubits, params, what, **kw):
        require(type(op) is cls, lambda: f"{what}: gives {op!r}, no {cls.__name__}")
        rec = Rec(op, g, cls, qubits, params, **kw)
        self.recs.append(rec)
        if self.within:
            self.applied.append(rec)
        return rec

    def lent(self, items):
        """A list passed to a constructor, which the caller changes afterwards."""
        self.lists.append(list(items))
        return self.lists[-1]

    def build(self, cls, g, qubits, params, form):
        """Calls the constructor in one of the accepted forms."""
        from dwave.gate.registers.registers import QuantumRegister, Register

        args = []
        if params is not None:
            p = list(params)
            if len(p) == 1 and form % 3 == 0:
                args = [p[0]]
            else:
                args = [tuple(p) if form % 3 == 1 else p]
                reg = Register(p) if form in (5, 6) else ()
                if len(reg) == len(p) and all(a is b for a, b in zip(reg, p)):
                    args = [reg]
        if qubits is None:
            if args and form % 2:
                return cls(parameters=args[0])
            return cls(*args)
        if lib.is_controlled(g):
            nc = lib.num_control(g)
            c, t = qubits[:nc], qubits[nc:]
            if form == 0:
                return cls(*args, c if nc > 1 else c[0], t[0])
            if form == 1:
                return cls(*args, self.lent(c), self.lent(t))
            if form == 2:
                return cls(*args, tuple(c), target=tuple(t))
            if form == 3:
                kw = {"parameters": args[0]} if args else {}
                return cls(target=t[0], control=tuple(c), **kw)
            if form == 4:
                return cls(*args, qubits=tuple(qubits))
            if form == 6:
                # takes precedence over control and target
                return cls(*args, t[0], tuple(c), qubits=tuple(qubits))
            return cls(*args, qubits=self.lent(qubits))
        if len(qubits) == 1 and form in (0, 1):
            return cls(*args, qubits[0])
        if form == 2:
            return cls(*args, self.lent(qubits))
        if form == 3:
            kw = {"parameters": args[0]} if args else {}
            return cls(qubits=tuple(qubits), **kw)
        if form == 4 and len(set(map(id, qubits))) == len(qubits):
            return cls(*args, QuantumRegister(list(qubits)))
        return cls(*args, tuple(qubits))

    def construct(self, fn, g, cls, qubits, params, what):
        """Constructs a valid operation; the model of it is kept."""
        params = None if params is None else list(params)
        if self.evaluates and params:
            if any(p is self.vars["v:a"] or p is self.vars["v:b"] for p in params):
                self.reject(cls, ValueError, fn, f"{what} with an unset variable")
                return None
            params = [0.5 if p is self.vars["V:c"] else p for p in params]
        op = fn()
        for given in self.lists:
            given[:] = given[:1] * 3
        self.lists.clear()
        self.keep(op, g, cls, qubits, params, what)
        return op

    # ---- steps
    def do_make(self, g, qs, vals, form, how):
        cls, n, k = self.kind(g, vals)
        if n is None:
            n = 1 + qs[0]
        qubits = tuple(self.qubits[i] for i in qs[:n])
        params = [self.value(v) for v in vals[:k]] if k else None
        if how == 0:
            if self.active:
                return self.reject(cls, (TypeError,), lambda: self.build(cls, g, None, params, form),
                                   f"{g} without qubits in a context")
            qubits = None
        self.construct(lambda: self.build(cls, g, qubits, params, form), g, cls, qubits, params,
                       f"{g} on {qs[:n]} (form {form})")
        if params:
            params[0] = "changed"  # operations must not share the list they are given
        if g in lib.ALIASES:
            self.ctx.label("alias")

    def do_twin(self, i, how, qs, vals, form):
        rec = self.pick(i)
        if rec is None or rec.qubits is None:
            return
        g, cls, qubits, params = rec.g, rec.cls, rec.qubits, rec.params
        if how == "qubits":
            qubits = tuple(self.qubits[j] for j in qs[: len(qubits)])
        elif how == "order":
            qubits = qubits[::-1]
        elif how == "param" and params:
            params = list(params)
            params[qs[0] % len(params)] = self.value(vals[0])
        elif how == "kind":
            same = [
                x for x in KINDS
                if x not in ANY and (lib.gate_arity(x) == len(qubits)) and self.kind(x, ())[2] == len(params or ())
            ]
            if g in ANY or not same:
                return
            g = same[qs[0] % len(same)]
            cls = self.kind(g, ())[0]
        self.construct(lambda: self.build(cls, g, qubits, params, form), g, cls, qubits, params,
                       f"another {g}")
        self.ctx.nontrivial(how != "same")

    def reject(self, cls, excs, fn, what):
        self.ctx.nontrivial()
        lib.expect_raises(excs, fn, what)

    def do_bad(self, g, qs, vals, form, how):
        cls, n, k = self.kind(g, vals)
        if n is None:
            return
        params = [self.value(v) for v in vals[:k]] if k else None
        name = f"{g} with {how} (form {form})"
        if how in ("few", "many"):
            m = n + 1 if how == "many" else n - 1
            if m == 0 and (self.active or lib.is_controlled(g)):
                return
            q = tuple(self.qubits[i] for i in (qs * 2)[:m])
            if lib.is_controlled(g):
                f = lambda: cls(*([params] if params else []), qubits=list(q) if form % 2 else q)  # noqa: E731
                if how == "many" and form >= 3:
                    nc = lib.num_control(g)
                    f = lambda: cls(*([params] if params else []), q[:nc], q[nc:])  # noqa: E731
                elif how == "few" and m == 1:
                    f = lambda: cls(*([params] if params else []), qubits=[q[0]])  # noqa: E731
            else:
                if m == 1 and form % 2:
                    q = q[0]
                f = lambda: cls(*([params] if params else []), q)  # noqa: E731
            return self.reject(cls, ValueError, f, name)
        if how.endswith("params"):
            if not params:
                return
            m = {"no-params": 0, "few-params": k - 1, "many-params": k + 1}[how]
            q = tuple(self.qubits[i] for i in qs[:n])
            p = [self.value(v) for v in (vals * 2)[:m]]
            if form % 2:
                p = tuple(p)
            elif m == 1 and k > 1:
                p = p[0]
            kw = dict(qubits=q) if form < 4 or self.active else {}
            return self.reject(cls, ValueError, lambda: cls(p, **kw), name)
        args = [params] if params else []
        if how == "missing":
            if self.active:
                self.reject(cls, TypeError, lambda: cls(*args), name)
            return
        if not lib.is_controlled(g) or not self.active:
            return
        nc = lib.num_control(g)
        c = tuple(self.qubits[i] for i in qs[:nc])
        t = self.qubits[qs[nc]]
        f = {
            "control-only": lambda: cls(*args, control=c),
            "target-only": lambda: cls(*args, target=t),
            "no-target": lambda: cls(*args, c, []),
        }[how]
        self.reject(cls, (TypeError, ValueError), f, name)

    def do_call(self, i, how, qs):
        rec = self.pick(i)
        if rec is None:
            return
        op, g, cls = rec.op, rec.g, rec.cls
        n = len(rec.qubits) if rec.qubits else (lib.gate_arity(g) if g not in ANY else 2)
        params = None if rec.params is None else list(rec.params)
        new = tuple(self.qubits[j] for j in qs[:n])
        what = f"re-applying {op} with {how}"
        if how == "same" or (how in ("control", "target") and not lib.is_controlled(g)):
            if rec.qubits is None:
                if self.active:
                    self.reject(cls, TypeError, lambda: op(), what)
                return
            call, want = (lambda: op()), rec.qubits
        elif how in ("few", "many"):
            if g in ANY:
                return
            m = n + 1 if how == "many" else n - 1
            if m == 0:
                return
            q = tuple(self.qubits[j] for j in (qs * 2)[:m])
            if lib.is_controlled(g):
                nc = lib.num_control(g)
                if how == "few":
                    if nc < 2:
                        return
                    return self.reject(cls, ValueError, lambda: op(q[:1], q[1:]), what)
                return self.reject(cls, ValueError, lambda: op(q[:nc], q[nc:]), what)
            return self.reject(cls, ValueError, lambda: op(q), what)
        elif lib.is_controlled(g):
            nc = lib.num_control(g)
            c, t = new[:nc], new[nc:]
            if how in ("control", "target"):
                if rec.qubits is None:
                    if self.active:
                        self.reject(cls, TypeError, lambda: op(**{how: c if how == "control" else t}), what)
                    return
                if how == "control":
                    t = rec.qubits[nc:]
                    c = tuple(q for q in (self.qubits[j] for j in qs) if q is not t[0])[:nc]
                    call = lambda: op(list(c))  # noqa: E731
                else:
                    c = rec.qubits[:nc]
                    t = tuple(q for q in (self.qubits[j] for j in qs) if all(q is not x for x in c))[:1]
                    call = lambda: op(target=t[0])  # noqa: E731
                want = c + t
            else:
                want = new
                if how == "kw":
                    call = lambda: op(target=list(t), control=tuple(c))  # noqa: E731
                elif how == "single" and nc == 1:
                    call = lambda: op(c[0], t[0])  # noqa: E731
                else:
                    call = lambda: op(c, t)  # noqa: E731
        else:
            want = new
            if how == "kw":
                call = lambda: op(qubits=list(new))  # noqa: E731
            elif how == "single" and n == 1:
                call = lambda: op(new[0])  # noqa: E731
            else:
                call = lambda: op(new)  # noqa: E731
        self.ctx.nontrivial(how != "same")
        got = self.construct(call, g, cls, want, params, what)
        require(got is not op, lambda: f"{what}: returns the operation itself")
        if self.evaluates and any(p in self.vars.values() for p in params or ()):
            return
        if rec.qubits is not None and _same_items(want, rec.qubits):
            require(got == op and op == got and not (got != op), lambda: f"{what}: {got} != {op}")

    def do_edit(self, i, how, qs, vals):
        rec = self.pick(i)
        if rec is None:
            return
        op = rec.op
        what = f"{how} of {op}"
        if how == "param":
            if rec.params:
                j = qs[0] % len(rec.params)
                v = self.value(vals[0])
                op.parameters[j] = v
                rec.params[j] = v
        elif how == "list":
            if rec.params:  # a copy of the parameters is independent
                other = list(op.parameters)
                other.append(1)
        elif how == "eval":
            if rec.params and any(isinstance(p, type(self.vars["v:a"])) for p in rec.params):
                nums = [0.5 + k for k in range(len(rec.params))]
                var = type(self.vars["v:a"])
                want = [x if isinstance(p, var) else p for p, x in zip(rec.params, nums)]
                new = op.eval(nums)
                require(new is not op and new.parameters == want, lambda: f"{what}: {new.parameters}")
                op.eval(nums, inplace=True)
                rec.params = want
        elif how == "qubits":
            n = lib.gate_arity(rec.g) if rec.g not in ANY else 1 + qs[-1]
            new = tuple(self.qubits[j] for j in qs[:n])
            op.qubits = list(new) if qs[0] % 2 else new
            if n == 1 and qs[1] % 2 and not lib.is_controlled(rec.g):
                op.qubits = new[0]
            rec.qubits = new
            if rec.g == "Measurement":
                from dwave.gate.primitives import Bit

                bits = [Bit("b") for _ in range(n + 1)]
                lib.expect_raises(ValueError, lambda: op | bits[: n - 1], f"{what}: too few bits")
                op | bits
                require(_same_items(op.bits, bits[:n]), lambda: f"{what}: {n} qubits but bits {op.bits}")
        elif rec.g not in ANY:
            n = lib.gate_arity(rec.g)
            m = n + 1 if qs[0] % 2 or n == 1 else n - 1

            def set_qubits():
                op.qubits = tuple(self.qubits[j] for j in (qs * 2)[:m])

            self.reject(rec.cls, ValueError, set_qubits, what)

    # ---- oracle
    def verify(self, step):
        for rec in self.recs:
            op = rec.op
            if rec.qubits is None:
                require(op.qubits is None, lambda: f"after {step}: {op} has qubits {op.qubits}")
            else:
                require(
                    isinstance(op.qubits, tuple) and _same_items(op.qubits, rec.qubits),
                    lambda: f"after {step}: {rec.g} has qubits {op.qubits}, expected {rec.qubits}",
                )
                require(op.num_qubits == len(rec.qubits), lambda: f"after {step}: {op}.num_qubits = {op.num_qubits}")
                if lib.is_controlled(rec.g):
                    nc = lib.num_control(rec.g)
                    require(
                        _same_items(op.control, rec.qubits[:nc]) and _same_items(op.target, rec.qubits[nc:]),
                        lambda: f"after {step}: {rec.g} has control {op.control} and target {op.target}, "
                        f"expected {rec.qubits[:nc]} and {rec.qubits[nc:]}",
                    )
            if rec.params is not None:
                require(
                    _same_values(op.parameters, rec.params),
                    lambda: f"after {step}: {rec.g} has parameters {op.parameters!r}, expected {rec.params!r}",
                )
        got = self.circuit.circuit
        require(
            len(got) == len(self.applied) and all(a is r.op for a, r in zip(got, self.applied)),
            lambda: f"after {step}: circuit {got}, expected {[r.op for r in self.applied]}",
        )

    def compare(self, ops):
        for a in self.recs:
            for b in self.recs:
                eq, ne = a.op == b.op, a.op != b.op
                require(eq is not ne, lambda: f"{a.op} == {b.op}: {eq}, != {ne}")
                if a.cls is not b.cls and a.cls.__name__ == b.cls.__name__:
                    continue
                want = (
                    a.cls is b.cls
                    and (a.qubits is None) == (b.qubits is None)
                    and (a.qubits is None or _same_items(a.qubits, b.qubits))
                    and (a.params is None or all(x == y for x, y in zip(a.params, b.params)))
                )
                require(bool(eq) == want, lambda: f"{a.op} == {b.op}: {eq}, expected {want}")
                if a is not b and a.cls is b.cls and not want:
                    self.ctx.nontrivial()
            for other in (None, 3, "X", a.cls, a.qubits, self.circuit, object(), [], a.params, np.eye(2)):
                r = a.op == other
                require(r is False or r is NotImplemented or not np.any(r), lambda: f"{a.op} == {other!r}: {r}")


# ---------------------------------------------------------------------------------------------
# operations of different classes which share their name


@check.sub(
    "names",
    strategy=lambda: st.tuples(
        st.sampled_from(["RX", "X", "CX", "CRX", "Rotation", "Measurement", "SWAP"]),
        st.sampled_from(["plain", "parametric", "two", "controlled"]),
        st.booleans(),
    ).map(list),
    quick=60,
    thorough=120,
)
def names(case, ctx):
    """Comparing never raises, even if a custom operation is named like another one."""
    import dwave.gate.operations as ops
    from dwave.gate.circuit import Circuit, ParametricCircuit

    name, kind, with_qubits = case
    reg = Circuit(3)
    q = [x for r in reg.qregisters.values() for x in r]
    n = 2 if name in ("CX", "CRX", "SWAP") else 1
    args = {"RX": [0.3], "CRX": [0.3], "Rotation": [[0.1, 0.2, 0.3]]}.get(name, [])
    builtin = getattr(ops, name)
    a = builtin(*args, **({"qubits": tuple(q[:n])} if with_qubits else {}))

    if kind == "controlled":
        cls = type(name, (ops.ControlledOperation,),
                   {"_num_control": 1, "_num_target": 1, "_target_operation": ops.Y})
        b = cls(qubits=tuple(q[:2])) if with_qubits else cls()
    else:
        m = 2 if kind == "two" else n
        sub = ParametricCircuit(m) if kind == "parametric" else Circuit(m)
        with sub.context as regs:
            if kind == "parametric":
                ops.RY(regs.p[0], regs.q[0])
            ops.Hadamard(regs.q[m - 1])
        cls = ops.create_operation(sub, name=name)
        pre = [0.3] if kind == "parametric" else []
        b = cls(*pre, tuple(q[:m])) if with_qubits else cls(*pre)
    ctx.nontrivial()
    for x, y in ((a, b), (b, a)):
        for r in (lambda: x == y, lambda: x != y, lambda: x in [y], lambda: [x].count(y)):
            o = lib.outcome(r)
            require(o[0] == "ok", lambda: f"comparing {x} with {y} (another class) raises {o[1]!r}")


# ---------------------------------------------------------------------------------------------
# the bits of measurements


@check.sub(
    "bits",
    strategy=lambda: st.integers(1, 4).flatmap(
        lambda k: st.fixed_dictionaries(
            {
                "k": st.just(k),
                "q": lib.distinct(5, k),
                "qform": st.sampled_from(["one", "tuple", "list"]),
                "cregs": st.lists(st.integers(0, 4), min_size=1, max_size=3),
                "context": st.booleans(),
                "values": st.lists(st.sampled_from([None, 0, 1]), max_size=6),
                "pipes": st.lists(
                    st.fixed_dictionaries(
                        {
                            "how": st.sampled_from(
                                ["one", "list", "tuple", "slice", "creg", "all", "new"]
                            ),
                            "at": st.integers(0, 11),
                            "n": st.integers(0, 6),
                            "perm": st.permutations(list(range(6))),
                        }
                    ),
                    min_size=1, max_size=4,
                ),
            }
        )
    ),
    quick=1500,
    thorough=30000,
)
def bits(case, ctx):
    """A measurement keeps the first bits given, one for each of its qubits, and needs enough."""
    import dwave.gate.operations as ops
    from dwave.gate.circuit import Circuit
    from dwave.gate.primitives import Bit

    circuit = Circuit(case.get("nq", 5))
    for n in case["cregs"]:
        circuit.add_cregister(n)
    q, c = list(circuit.qubits), list(circuit.bits)
    for b, v in zip(c, case["values"]):
        if v is not None:
            b.set(v)
    qs = [q[i] for i in case["q"]]
    form = {"one": qs[0] if len(qs) == 1 else tuple(qs), "tuple": tuple(qs), "list": list(qs)}
    if case["context"]:
        with circuit.context:
            m = ops.Measurement(form[case["qform"]])
    else:
        m = ops.Measurement(form[case["qform"]])
    k, want = case["k"], None
    require(m.bits is None, lambda: f"a new measurement has bits {m.bits}")
    for j, s in enumerate(case["pipes"]):
        what = f"pipe {j} {s}"
        rest = [c[i] for i in s["perm"] if i < len(c)][: s["n"]]
        if s["how"] == "one":
            if not c:
                continue
            arg = c[s["at"] % len(c)]
            mine = [arg]
        elif s["how"] == "creg":
            arg = list(circuit.cregisters.values())[s["at"] % len(case["cregs"])]
            mine = list(arg)
        elif s["how"] == "all":
            arg, mine = circuit.bits, c
        elif s["how"] == "slice":
            sl = slice(s["n"] % (len(c) + 1), None)
            arg, mine = circuit.bits[sl], c[sl]
        elif s["how"] == "new":
            arg = mine = [Bit("new") for _ in range(s["n"])]
        else:
            arg, mine = (list if s["how"] == "list" else tuple)(rest), rest
        if len(mine) < k:
            lib.expect_raises(ValueError, lambda: m | arg, f"{what}: {len(mine)} bits for {k} qubits")
        else:
            r = m | arg
            require(r is m, lambda: f"{what}: returned {r!r}")
            want = mine[:k]
            if len(mine) > k or mine != sorted(mine, key=c.index if s["how"] != "new" else id):
                ctx.nontrivial()
        require(
            m.bits is None if want is None else _same_items(m.bits, want),
            lambda: f"{what}: bits {m.bits}, expected {want}",
        )
        require(_same_items(m.qubits, qs), lambda: f"{what}: qubits {m.qubits}")
    require(
        [b.value for b in c]
        == [case["values"][i] if i < len(case["values"]) else None for i in range(len(c))],
        "piping a measurement changed values",
    )
    require(
        len(circuit.circuit) == (1 if case["context"] else 0)
        and all(o is m for o in circuit.circuit),
        lambda: f"circuit {circuit.circuit}",
    )


@check.sub(
    "many-bits",
    strategy=lambda: st.fixed_dictionaries(
        {"k": st.integers(1, 30), "cregs": st.integers(1, 12), "pipes": st.integers(1, 5),
         "context": st.booleans(), "seed": st.integers(0, 2**32 - 1)}
    ),
    quick=200,
    thorough=4000,
)
def many_bits(case, ctx):
    """Measurements and barriers of up to thirty qubits."""
    import random

    import dwave.gate.operations as ops
    from dwave.gate.circuit import Circuit

    r = random.Random(case["seed"])
    cregs = [r.choice([0, 1, 2, 5, case["k"]]) for _ in range(case["cregs"])]
    total = sum(cregs)
    at = r.sample(range(30), case["k"])
    bits(
        {
            "k": case["k"], "q": at, "nq": 30, "cregs": cregs,
            "qform": r.choice(["tuple", "list"]), "context": case["context"],
            "values": [r.choice([None, 0, 1]) for _ in range(total)],
            "pipes": [
                {"how": r.choice(["one", "list", "tuple", "slice", "creg", "all", "new"]),
                 "at": r.randrange(12), "n": r.choice([case["k"], r.randrange(40)]),
                 "perm": r.sample(range(total), total)}
                for _ in range(case["pipes"])
            ],
        },
        ctx,
    )
    circuit = Circuit(30)
    with circuit.context as regs:
        qs = tuple(regs.q[i] for i in at)
        b = ops.Barrier(qs)
    require(circuit.circuit == [b] and circuit.circuit[0] is b, "barrier not applied")
    require(_same_items(b.qubits, qs), lambda: f"barrier on {b.qubits}, expected {qs}")
    require(b.num_qubits == len(qs), lambda: f"{b.num_qubits} qubits, expected {len(qs)}")


EDITED = ["eq", "classes", "find"]


@check.sub("edited", lambda: world.edited_cases(EDITED), quick=1000, thorough=20000)
def edited(case, ctx):
    """As a circuit with the same content that is built at once, after any edits and reads."""
    world.check_edited(case, ctx, EDITED)


def _hierarchies():
    cls = st.fixed_dictionaries(
        {
            "base": st.integers(-1, 5),
            "nc": st.sampled_from([None, None, 1, 1, 2, 3]),
            "nt": st.sampled_from([None, None, 1, 1, 1, 2]),
            "t": st.sampled_from([None, None, "X", "Y", "Hadamard", "S"]),
        }
    )
    read = st.tuples(
        st.integers(0, 5),
        st.sampled_from(["num_qubits", "num_control", "num_target", "target_operation", "matrix", "name",
                         "instance", "wrong", "applied", "unapplied"]),
    ).map(list)
    return st.fixed_dictionaries(
        {
            "classes": st.lists(cls, min_size=2, max_size=5),
            "reads": st.lists(read, min_size=2, max_size=12),
        }
    )


@check.sub("hierarchies", _hierarchies, quick=1500, thorough=30000)
def hierarchies(case, ctx):
    """Controlled operations derived from one another: what each is does not depend on the others."""
    import dwave.gate.operations as ops
    from dwave.gate.circuit import Circuit
    from dwave.gate.operations.base import OperationError
    from dwave.gate.primitives import Qubit

    made, model = [], []
    for i, s in enumerate(case["classes"]):
        b = s["base"] % (i + 1) - 1 if s["base"] >= 0 else -1
        attrs = {}
        m = dict(model[b]) if b >= 0 else {"nc": None, "nt": None, "t": None}
        for key, attr in (("nc", "_num_control"), ("nt", "_num_target"), ("t", "_target_operation")):
            if s[key] is not None:
                attrs[attr] = getattr(ops, s[key]) if key == "t" else s[key]
                m[key] = s[key]
        base = made[b] if b >= 0 else ops.ControlledOperation
        made.append(type(base)(f"G{i}", (base,), attrs))
        model.append(m)
    seen = set()
    for k, what in case["reads"]:
        k %= len(made)
        cls, m = made[k], model[k]
        total = m["nc"] + m["nt"] if m["nc"] and m["nt"] else None
        if what in ("num_control", "num_target", "name"):
            want = {"num_control": m["nc"], "num_target": m["nt"], "name": f"G{k}"}[what]
            require(getattr(cls, what) == want, lambda: f"{what} of {m} is {getattr(cls, what)}")
        elif what == "num_qubits":
            r = lib.outcome(lambda: cls.num_qubits)
            if total is None:
                require(r[0] == "err", lambda: f"num_qubits of {m}: {r}")
                require(isinstance(r[1], AttributeError), lambda: f"num_qubits of {m}: {r}")
            else:
                require(r == ("ok", total), lambda: f"num_qubits of {m}: {r}")
        elif what == "target_operation":
            if m["t"] is None:
                lib.expect_raises(OperationError, lambda: cls.target_operation, f"target of {m}")
            else:
                require(cls.target_operation is getattr(ops, m["t"]), lambda: f"target of {m}")
        elif total is None or m["t"] is None or m["nt"] != 1:
            continue
        elif what == "matrix":
            want = lib.controlled(lib.ref_matrix(m["t"]), m["nc"])
            require(lib.close(cls.matrix, want), lambda: f"matrix of {m}: {lib.show(cls.matrix)}")
        elif what == "wrong":
            for n in (total - 1, total + 1):
                lib.expect_raises(ValueError, lambda: cls(qubits=[Qubit(str(i)) for i in range(n)]),
                                  f"{n} qubits for {m}")
        elif what == "unapplied":
            op = cls()
            require(op.qubits is None, "an operation without qubits has some")
            require(lib.close(op.matrix, lib.controlled(lib.ref_matrix(m["t"]), m["nc"])),
                    lambda: f"matrix of an instance of {m}")
        else:
            c = Circuit(total)
            with c.context as regs:
                op = cls(qubits=list(regs.q)[::-1])
                if what == "applied":
                    want = lib.full_unitary(lib.controlled(lib.ref_matrix(m["t"]), m["nc"]),
                                            list(range(total))[::-1], total)
                    require(lib.close(op.matrix, want), lambda: f"matrix of {m} within a context")
            require(op.num_qubits == total, lambda: f"num_qubits of an instance of {m}: {op.num_qubits}")
            require(
                op.control == tuple(c.qubits)[::-1][: m["nc"]] and op.target == tuple(c.qubits)[::-1][m["nc"]:],
                lambda: f"{m}: control {op.control}, target {op.target}",
            )
        seen.add(k)
    ctx.nontrivial(len(seen) > 1)
