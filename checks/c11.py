"""C11: circuit contexts record exactly the operations applied while active."""

from hypothesis import strategies as st

from checks import lib
from vf.core import Check, require

check = Check(
    "C11",
    rule=(
        "random histories over three circuits (one parametric) of entering, freezing, nesting, "
        "applying, rejected operations, exceptions, locking, direct edits, templates, simulation "
        "and resets, against a model of which circuit holds which operations; non-trivial: "
        "operations recorded in at least one context and at least one rejection, exception, freeze "
        "or reset"
    ),
    assumptions=["contexts are used through 'with' in a single thread"],
)

NC, NQ, NB = 3, 3, 2

OPS = ["X", "CX", "RX", "SWAP", "CCX", "CRotation", "Measurement", "Barrier", "reapply", "template",
       "U", "reapply-new", "multi", "ptemplate"]
BADS = ["type-of-ptemplate", "noqubits", "noqubits-p", "noqubits-c", "few", "many", "foreign", "foreign-c", "params",
        "unset", "type-of-template"]


def _leaf():
    i, c = st.integers(0, 5), st.integers(0, NC - 1)
    return st.one_of(
        st.builds(lambda o, i: {"k": "op", "o": o, "i": i}, st.sampled_from(OPS), i),
        st.builds(lambda o, i: {"k": "op", "o": o, "i": i}, st.sampled_from(OPS), i),
        st.builds(lambda o, i: {"k": "bad", "o": o, "i": i}, st.sampled_from(BADS), i),
        st.builds(
            lambda o, c, i: {"k": o, "c": c, "i": i},
            st.sampled_from(["lock", "unlock", "unlock", "unlock", "append", "append", "extend",
                             "remove", "remove-missing", "simulate", "context", "append-foreign"]),
            c, i,
        ),
        st.builds(lambda c, keep: {"k": "reset", "c": c, "keep": keep}, c,
                  st.sampled_from([True, True, False])),
        st.builds(lambda i: {"k": "matrix", "i": i}, i),
        st.builds(lambda i: {"k": "setvar", "i": i}, i),
    )


def _body(children):
    return st.lists(
        st.one_of(
            _leaf(), _leaf(), _leaf(), _leaf(),
            st.builds(
                lambda b, via, catch, r: {"k": "freeze", "b": b, "via": via, "catch": catch,
                                          "raise": r},
                children, st.sampled_from(["own", "class", "saved"]), st.booleans(),
                st.sampled_from([False, False, True]),
            ),
            st.builds(
                lambda b, c, r, u, s: {"k": "with", "b": b, "c": c, "raise": r, "unlock": u,
                                       "saved": s},
                children, st.integers(0, NC - 1), st.sampled_from([False, False, True]),
                st.sampled_from([True, True, True, False]), st.booleans(),
            ),
        ),
        min_size=2, max_size=8,
    )


def histories():
    leaf = st.lists(_leaf(), min_size=1, max_size=4)
    inner = _body(leaf)
    mid = _body(inner)
    some = st.lists(
        st.builds(lambda o, i: {"k": "op", "o": o, "i": i}, st.sampled_from(OPS),
                  st.integers(0, 5)), min_size=1, max_size=2,
    )
    session = st.builds(
        lambda b, c, r, u, s: {"k": "with", "b": b, "c": c, "raise": r, "unlock": u, "saved": s},
        st.tuples(some, mid, some).map(lambda t: t[0] + t[1] + t[2]), st.integers(0, NC - 1), st.sampled_from([False, False, False, True]),
        st.sampled_from([True, True, True, False]), st.booleans(),
    )
    freeze = st.builds(
        lambda b, v: {"k": "freeze", "b": b, "via": v, "catch": True, "raise": False}, leaf,
        st.sampled_from(["own", "class"]),
    )
    rest = st.lists(
        st.one_of(session, session, session, _leaf(), _leaf(), freeze), min_size=2, max_size=8
    )
    return st.tuples(session, rest).map(lambda t: [t[0]] + t[1])


class Stop(Exception):
    pass


class World:
    def __init__(self, ctx):
        import dwave.gate.operations as ops
        from dwave.gate.circuit import Circuit, CircuitContext, ParametricCircuit

        self.ops, self.CC, self.ctx = ops, CircuitContext, ctx
        self.circuits = [Circuit(NQ, NB), ParametricCircuit(NQ, NB), Circuit()]
        self.circuits[2].add_qregister(2, "a")
        self.circuits[2].add_qregister(1, "b")
        self.circuits[2].add_cregister(2, "c")
        with self.circuits[1].context as regs:
            regs.p[0]  # makes the circuit parametric
        self.circuits[1].unlock()
        self.q = [list(c.qubits) for c in self.circuits]
        self.c = [list(c.bits) for c in self.circuits]
        self.saved = [c.context for c in self.circuits]
        self.model = [[], [], []]
        self.locked = [False] * 3
        self.active = None
        self.frozen = False
        self.resets = [False] * 3  # since the active context was entered
        self.tpl = Circuit(2)
        with self.tpl.context as r:
            ops.Hadamard(r.q[0])
            ops.CX(r.q[0], r.q[1])
        self.tpl_ops = list(self.tpl.circuit)
        self.ptpl = ParametricCircuit(1)
        with self.ptpl.context as r:
            ops.RX(r.p[0], r.q[0])
            ops.RZ(r.p[1], r.q[0])
        self.variables = [o.parameters[0] for o in self.ptpl.circuit]
        self.values = [None, None]  # set by the user
        self.applied = False  # the parametric template, in the active context
        lib.gate_class("U", [0.1, 0.2, 0.3, 0.4])
        self.recorded = self.special = 0
        self.check("start")

    def check(self, what):
        active = self.CC.active_context
        if self.active is None:
            require(active is None, lambda: f"{what}: a context is active")
        else:
            require(active is not None, lambda: f"{what}: no active context")
            require(
                active.circuit is self.circuits[self.active],
                lambda: f"{what}: the context of another circuit is active",
            )
            require(
                active.frozen is self.frozen, lambda: f"{what}: frozen is {active.frozen}"
            )
        for i, c in enumerate(self.circuits):
            got, want = c.circuit, self.model[i]
            require(
                len(got) == len(want) and all(a is b for a, b in zip(got, want)),
                lambda: f"{what}: circuit {i} holds {got}, expected {want}",
            )
            require(
                bool(c.is_locked()) == self.locked[i],
                lambda: f"{what}: circuit {i} locked: {c.is_locked()}, expected {self.locked[i]}",
            )
            require(list(c.qubits) == self.q[i], lambda: f"{what}: qubits of circuit {i} changed")
            require(list(c.bits) == self.c[i], lambda: f"{what}: bits of circuit {i} changed")
        require(
            len(self.tpl.circuit) == 2
            and all(a is b for a, b in zip(self.tpl.circuit, self.tpl_ops)),
            lambda: f"{what}: the template was changed",
        )
        if self.active is None:
            require(
                [v.value for v in self.variables] == self.values,
                lambda: f"{what}: the variables of the parametric template have the values "
                f"{[v.value for v in self.variables]} instead of {self.values}",
            )

    # ---- operations

    def make(self, o, i, c):
        """Creates one or more operations on the qubits of circuit c; returns them (or None for
        those which are not returned)."""
        ops, q = self.ops, self.q[c]
        a, b, d = q[i % 3], q[(i + 1) % 3], q[(i + 2) % 3]
        if o == "X":
            return [ops.X(a)]
        if o == "CX":
            return [ops.CX(a, b)]
        if o == "RX":
            return [ops.RX(0.5 * i, a)]
        if o == "SWAP":
            return [ops.SWAP([a, b])]
        if o == "CCX":
            return [ops.CCX([d, a, b])]
        if o == "CRotation":
            return [ops.CRotation([0.1, 0.2, 0.3], control=b, target=a)]
        if o == "Measurement":
            m = ops.Measurement(a) | self.c[c][i % NB]
            return [m]
        if o == "Barrier":
            return [ops.Barrier((a, d))]
        if o == "U":
            return [lib.gate_class("U", [0.1, 0.2, 0.3, 0.4])(a)]
        if o == "multi":
            return [ops.X(a), ops.X(a), ops.Z(b)]
        if o == "reapply":
            x = ops.Y(a)
            return [x, x()]
        if o == "reapply-new":
            x = ops.CZ(a, b)
            return [x, x(b, d), x()]
        if o == "template":
            before = len(self.CC.active_context.circuit.circuit) if self.active is not None else 0
            self.tpl([b, a])
            new = self.CC.active_context.circuit.circuit[before:]
            if not self.frozen:
                require(
                    len(new) == 2 and type(new[0]) is ops.Hadamard and type(new[1]) is ops.CX
                    and new[0].qubits == (b,) and new[1].qubits == (b, a),
                    lambda: f"the template appended {new}",
                )
            return list(new)
        if o == "ptemplate":
            self.applied = True
            before = len(self.CC.active_context.circuit.circuit) if self.active is not None else 0
            self.ptpl([0.25 * i, 1.5], a)
            new = self.CC.active_context.circuit.circuit[before:]
            if not self.frozen:
                require(
                    [(type(x), x.qubits, list(x.parameters)) for x in new]
                    == [(ops.RX, (a,), [0.25 * i]), (ops.RZ, (a,), [1.5])],
                    lambda: f"the parametric template appended {new}",
                )
            return list(new)
        raise KeyError(o)

    def op(self, s):
        o, i = s["o"], s["i"]
        c = self.active if self.active is not None else i % NC
        if self.active is None:
            if o == "template":
                lib.expect_raises(Exception, lambda: self.tpl(self.q[c][:2]), "outside of context")
            elif o == "ptemplate":
                lib.expect_raises(
                    Exception, lambda: self.ptpl([0.5, i], self.q[c][:1]), "outside of context"
                )
            elif self.q[c]:
                self.make(o, i, c)
            return
        if self.locked[c] and not self.frozen:
            self.special += 1
            before = list(self.circuits[c].circuit)
            lib.expect_raises(
                self.err, lambda: self.make(o, i, c), "operation on a locked circuit"
            )
            require(len(before) == len(self.circuits[c].circuit), "appended to a locked circuit")
            return
        new = self.make(o, i, c)
        if not self.frozen:
            self.model[c] += new
            self.recorded += 1

    def bad(self, s):
        ops, i = self.ops, s["i"]
        c = self.active if self.active is not None else i % NC
        q = self.q[c]
        o = s["o"]
        inside = self.active is not None
        from dwave.gate.primitives import Qubit, Variable

        self.special += 1
        if o == "type-of-ptemplate" and inside:
            self.applied = True
        calls = {
            "noqubits": (lambda: ops.X(), inside),
            "noqubits-p": (lambda: ops.RX(0.2), inside),
            "noqubits-c": (lambda: ops.CX(control=q[0]), inside),
            "few": (lambda: ops.SWAP([q[0]]), True),
            "many": (lambda: ops.X([q[0], q[1]]), True),
            "foreign": (lambda: ops.X(self.q[(c + 1) % NC][0]), inside and not self.frozen),
            "foreign-c": (lambda: ops.CX(q[0], Qubit("0")), inside and not self.frozen),
            "params": (lambda: ops.Rotation([0.1], q[0]), True),
            "unset": (
                lambda: ops.RX(Variable("u"), q[0]), inside and not self.frozen and c != 1,
            ),
            "type-of-template": (lambda: self.tpl(q), True),
            "type-of-ptemplate": (lambda: self.ptpl([0.5, 1.0], q[:2]), True),
        }
        fn, expected = calls[o]
        if self.active is not None and self.locked[c] and not self.frozen:
            expected = True
        kind, res = lib.outcome(fn)
        if expected:
            require(kind == "err", lambda: f"{o} accepted: {res!r}")
        else:
            require(kind == "ok", lambda: f"{o} rejected: {res!r}")
            if o == "unset" and inside and not self.frozen:
                self.model[c].append(res)  # parametric circuits accept unset variables

    # ---- everything

    @property
    def err(self):
        from dwave.gate.circuit import CircuitError

        return CircuitError

    def run(self, body):
        for s in body:
            self.step(s)
            self.check(str({k: v for k, v in s.items() if k != "b"}))

    def step(self, s):
        k = s["k"]
        if k == "op":
            self.op(s)
        elif k == "bad":
            self.bad(s)
        elif k == "matrix":
            m = self.model[self.active] if self.active is not None else sum(self.model, [])
            m = [o for o in m if not any(hasattr(p, "name") for p in getattr(o, "parameters", []))]
            if m:
                m[s["i"] % len(m)].matrix
        elif k == "with":
            self.session(s)
        elif k == "freeze":
            self.freeze(s)
        else:
            getattr(self, k.replace("-", "_"))(s)

    def session(self, s):
        c = s["c"]
        circuit = self.circuits[c]
        if self.active is None and s["unlock"]:
            circuit.unlock()
            self.locked[c] = False
        context = self.saved[c] if s["saved"] else circuit.context
        if self.active is not None or self.locked[c]:
            self.special += 1
            exc = (RuntimeError, self.err)
            if self.active is None:
                exc = self.err
            elif not self.locked[c]:
                exc = RuntimeError
            lib.expect_raises(exc, context.__enter__, "entering")
            return
        try:
            with context as regs:
                self.active, self.frozen = c, False
                self.check("entered")
                require(
                    list(regs.q) == self.q[c] and list(regs.c) == self.c[c], "wrong registers"
                )
                if c == 1:
                    require(
                        regs.p is lib.params_of(circuit) and not regs.p.frozen,
                        "wrong or frozen parameters",
                    )
                self.run(s["b"])
                if s["raise"]:
                    self.special += 1
                    raise Stop
        except Stop:
            pass
        if self.applied:  # its variables are reset with the context, and only with that one
            self.values, self.applied = [None, None], False
        self.active, self.frozen = None, False
        self.locked[c] = True
        if c == 1:
            require(lib.params_of(circuit).frozen, "the parameters are not frozen")

    def freeze(self, s):
        if self.active is None:
            from dwave.gate.circuit import CircuitContext

            self.special += 1
            lib.expect_raises(self.err, CircuitContext.freeze.__enter__, "freezing no context")
            lib.expect_raises(
                self.err, self.circuits[0].context.freeze.__enter__, "freezing an inactive context"
            )
            return
        self.special += 1
        was = self.frozen
        manager = {
            "own": lambda: self.CC.active_context.freeze,
            "class": lambda: self.CC.freeze,
            "saved": lambda: self.circuits[self.active].context.freeze,
        }[s["via"]]()
        try:
            with manager:
                self.frozen = True
                self.check("frozen")
                self.run(s["b"])
                if s["raise"]:
                    raise Stop
        except Stop:
            self.frozen = was
            if not s["catch"]:
                raise
        self.frozen = was

    def setvar(self, s):
        if self.active is None:
            self.values[s["i"] % 2] = 0.5 * s["i"]
            self.variables[s["i"] % 2].set(0.5 * s["i"])

    def lock(self, s):
        self.circuits[s["c"]].lock()
        self.locked[s["c"]] = True

    def unlock(self, s):
        self.circuits[s["c"]].unlock()
        self.locked[s["c"]] = False

    def context(self, s):
        c = self.circuits[s["c"]]
        require(c.context is c.context and c.context.circuit is c, "not the circuit's own context")
        require(c.context.active_context is self.CC.active_context, "several active contexts")
        if self.active is None:
            require(c.context.active_context is None, "an active context")

    def _detached(self, c, i):
        """An operation on circuit c that was not applied."""
        return self.ops.T(self.q[c][i % 3])

    def append(self, s):
        c, i = s["c"], s["i"]
        if self.active is not None and not self.frozen:
            return
        op = self._detached(c, i)
        if self.locked[c]:
            self.special += 1
            lib.expect_raises(self.err, lambda: self.circuits[c].append(op), "locked")
        else:
            self.circuits[c].append(op)
            self.model[c].append(op)

    def append_foreign(self, s):
        c, i = s["c"], s["i"]
        if self.active is not None and not self.frozen:
            return
        op = self._detached((c + 1) % NC, i)
        self.special += 1
        lib.expect_raises(
            (ValueError, self.err), lambda: self.circuits[c].append(op), "foreign qubits"
        )

    def extend(self, s):
        c, i = s["c"], s["i"]
        if self.active is not None and not self.frozen:
            return
        new = [self._detached(c, i + j) for j in range(1 + i % 4)]
        if self.locked[c]:
            lib.expect_raises(self.err, lambda: self.circuits[c].extend(new), "locked")
        elif i % 5 == 0:
            # the operations before the one that is rejected may have been appended
            self.special += 1
            k = i % len(new)
            new.insert(k, self._detached((c + 1) % NC, i))
            lib.expect_raises(ValueError, lambda: self.circuits[c].extend(new), "foreign qubits")
            got = self.circuits[c].circuit[len(self.model[c]):]
            require(
                len(got) <= k and all(a is b for a, b in zip(got, new)),
                lambda: f"{got} appended of {new}",
            )
            self.model[c] += got
        else:
            self.circuits[c].extend(new)
            self.model[c] += new

    def remove(self, s):
        c = s["c"]
        if not self.model[c]:
            return
        op = self.model[c][s["i"] % len(self.model[c])]
        first = next(j for j, x in enumerate(self.model[c]) if x == op)
        self.circuits[c].remove(op)
        del self.model[c][first]

    def remove_missing(self, s):
        from dwave.gate.primitives import Qubit

        if self.active is not None and not self.frozen:
            return
        op = self.ops.X(Qubit("0"))
        lib.expect_raises(ValueError, lambda: self.circuits[s["c"]].remove(op), "not in circuit")

    def simulate(self, s):
        from dwave.gate.simulator import simulate

        c = s["c"]
        if any(hasattr(o, "parameters") and any(hasattr(p, "name") for p in o.parameters)
               for o in self.model[c]):
            return  # unset variables
        simulate(self.circuits[c], mixed_state=s["i"] % 2 == 1, rng_seed=s["i"])

    def reset(self, s):
        c = s["c"]
        circuit = self.circuits[c]
        self.special += 1
        circuit.reset() if s["keep"] else circuit.reset(keep_registers=False)
        self.model[c] = []
        self.locked[c] = False
        require(circuit.state is None and circuit.density_matrix is None, "state after reset")
        require(not circuit.is_locked(), "locked after reset")
        if not s["keep"]:
            require(
                circuit.num_qubits == 0 and circuit.num_bits == 0
                and not circuit.qregisters and not circuit.cregisters,
                "registers after reset",
            )
            circuit.add_qregister(NQ)
            circuit.add_cregister(NB)
            self.q[c], self.c[c] = list(circuit.qubits), list(circuit.bits)
            require(len(self.q[c]) == NQ and len(self.c[c]) == NB, "wrong registers")
        else:
            require(all(b.value is None for b in circuit.bits), "bits keep values after reset")


@check.sub("history", histories, quick=7000, thorough=120000)
def history(case, ctx):
    w = World(ctx)
    w.run(case)
    ctx.nontrivial(w.recorded > 0 and w.special > 0)
    require(w.CC.active_context is None, "a context remained active")
    # every circuit can be used again
    for i, c in enumerate(w.circuits):
        c.unlock()
        with c.context as regs:
            w.ops.X(regs.q[0])
        require(len(c.circuit) == len(w.model[i]) + 1, "circuit cannot be used after the history")


def _random_body(r, depth, size):
    out = []
    for _ in range(r.randint(1, size)):
        x, i, c = r.random(), r.randrange(6), r.randrange(NC)
        if x < 0.55:
            out.append({"k": "op", "o": r.choice(OPS), "i": i})
        elif x < 0.65:
            out.append({"k": "bad", "o": r.choice(BADS), "i": i})
        elif x < 0.8 or not depth:
            out.append({"k": r.choice(["lock", "unlock", "append", "extend", "remove", "simulate",
                                       "context", "append-foreign", "matrix", "setvar"]), "c": c, "i": i})
        elif x < 0.82:
            out.append({"k": "reset", "c": c, "keep": r.random() < 0.7})
        elif x < 0.95:
            out.append({"k": "freeze", "b": _random_body(r, depth - 1, size),
                        "via": r.choice(["own", "class", "saved"]), "catch": r.random() < 0.5,
                        "raise": r.random() < 0.2})
        else:
            out.append({"k": "with", "b": _random_body(r, depth - 1, 3), "c": c,
                        "raise": r.random() < 0.3, "unlock": r.random() < 0.7,
                        "saved": r.random() < 0.5})
    return out


@check.sub(
    "long-history",
    lambda: st.fixed_dictionaries(
        {"sessions": st.integers(2, 12), "size": st.integers(3, 25), "depth": st.integers(1, 6),
         "seed": st.integers(0, 2**32 - 1)}
    ),
    quick=150,
    thorough=3000,
)
def long_history(case, ctx):
    """Many contexts one after the other, with many operations and deep nesting."""
    import random

    r = random.Random(case["seed"])
    steps = []
    for _ in range(case["sessions"]):
        steps.append(
            {"k": "with", "b": _random_body(r, case["depth"], case["size"]), "c": r.randrange(NC),
             "raise": r.random() < 0.15, "unlock": r.random() < 0.85, "saved": r.random() < 0.5}
        )
        steps += _random_body(r, 0, 2)
    history(steps, ctx)


@check.sub(
    "errors-in-body",
    lambda: st.fixed_dictionaries(
        {
            "exc": st.sampled_from(["KeyError", "ValueError", "KeyboardInterrupt", "SystemExit",
                                    "GeneratorExit", "StopIteration", "own"]),
            "before": st.integers(0, 3),
            "freeze": st.integers(0, 2),
            "cls": st.sampled_from(["Circuit", "ParametricCircuit"]),
        }
    ),
    quick=300,
    thorough=2000,
)
def errors_in_body(case, ctx):
    """Any exception leaves the context, is passed on, and does not affect the next one."""
    import builtins

    import dwave.gate.operations as ops
    from dwave.gate import circuit as dc

    exc = ops.base.OperationError if case["exc"] == "own" else getattr(builtins, case["exc"])
    circuit = getattr(dc, case["cls"])(2)
    ctx.nontrivial()
    caught = None
    try:
        with circuit.context as regs:
            for _ in range(case["before"]):
                ops.X(regs.q[0])
            if case["freeze"] == 0:
                raise exc("x")
            with circuit.context.freeze:
                ops.X(regs.q[0])
                if case["freeze"] == 1:
                    raise exc("x")
                with circuit.context.freeze:
                    raise exc("x")
    except BaseException as e:  # noqa: BLE001
        caught = e
    require(type(caught) is exc, lambda: f"raised {caught!r} instead of {exc}")
    require(dc.CircuitContext.active_context is None, "still active")
    require(circuit.is_locked(), "not locked")
    require(len(circuit.circuit) == case["before"], "wrong operations")
    circuit.unlock()
    with circuit.context as regs:
        require(not circuit.context.frozen, "still frozen")
        ops.Y(regs.q[1])
    require(len(circuit.circuit) == case["before"] + 1, "the circuit does not record any more")
