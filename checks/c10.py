"""C10: applying a circuit as a template maps every qubit, bit and condition."""

from hypothesis import strategies as st

from checks import lib, world
from vf.core import Check, require

check = Check(
    "C10",
    rule=(
        "random templates (gates, measurements, conditionals, barriers) applied repeatedly, nested "
        "and on permuted qubits and bits, compared with the operations inlined by a model, by "
        "structure and by simulation with the same seed; non-trivial: a permuted mapping of at "
        "least two qubits and at least two operations"
    ),
    assumptions=[
        "passed qubits and bits are distinct",
        "without passed bits, measurements are stored nowhere and conditions are unspecified",
    ],
)

POOL = lib.GATE_POOL + lib.USER_POOL


def step(n, nb):
    cond = (
        st.one_of(st.just([]), st.just([]),
                  st.lists(st.integers(0, nb - 1), min_size=1, max_size=2, unique=True))
        if nb else st.just([])
    )
    gate = st.builds(
        lambda p, c: {"k": "g", "plan": p, "cond": c}, lib.gate_plans(n, POOL), cond
    )
    meas = st.integers(1, min(n, 3)).flatmap(
        lambda k: st.builds(
            lambda q, b, c: {"k": "m", "q": q, "b": b[:k] if b and len(b) >= k else None,
                             "cond": c},
            lib.distinct(n, k),
            lib.distinct(nb, nb) if nb else st.none(),
            cond,
        )
    )
    barrier = st.builds(
        lambda q, k: {"k": "b", "q": q[: 1 + k % n], "cond": []}, lib.distinct(n, n),
        st.integers(0, 3),
    )
    return st.one_of(gate, gate, gate, meas, barrier)


def templates(least=1):
    return st.tuples(lib.register_plans(3), st.integers(0, 3)).flatmap(
        lambda t: st.fixed_dictionaries(
            {
                "qs": st.just(t[0]),
                "nb": st.just(t[1]),
                "bsplit": st.booleans(),
                "steps": st.lists(step(lib.plan_total(t[0]), t[1]), min_size=least, max_size=5),
                "cls": st.sampled_from(["Circuit", "Circuit", "ParametricCircuit"]),
            }
        )
    )


N, NB = 4, 4


def _flat(steps):
    """Model operations: (kind, gate, params, qubits, bits, cond)."""
    out = []
    for s in steps:
        if s["k"] == "g":
            out.append(("g", s["plan"]["g"], tuple(s["plan"]["p"]), s["plan"]["q"], None, s["cond"]))
        elif s["k"] == "m":
            out.append(("m", None, (), s["q"], s["b"], s["cond"]))
        else:
            out.append(("b", None, (), s["q"], None, s["cond"]))
    return out


def _map(ops, q, b):
    return [
        (
            k, g, p, [q[i] for i in qs],
            None if bs is None or b is None else [b[i] for i in bs],
            None if b is None and c else [b[i] for i in c],
        )
        for k, g, p, qs, bs, c in ops
    ]


def _build(t):
    from dwave.gate import circuit as dc
    import dwave.gate.operations as ops

    cls = getattr(dc, t["cls"])
    nb = t["nb"]
    csteps = [["reg", nb - 1], ["reg", 1]] if t["bsplit"] and nb > 1 else [["init", nb]]
    for s in t["steps"]:
        if s["k"] == "g":
            lib.gate_class(s["plan"]["g"], s["plan"]["p"])
    circuit, q, c = lib.new_circuit(t["qs"], csteps, cls=cls)
    with circuit.context:
        for s in t["steps"]:
            if s["k"] == "g":
                op = lib.make_op(s["plan"], q, s["plan"]["h"])
            elif s["k"] == "m":
                op = ops.Measurement(tuple(q[i] for i in s["q"]))
                if s["b"] is not None:
                    op | [c[i] for i in s["b"]]
            else:
                op = ops.Barrier(tuple(q[i] for i in s["q"]))
            if s["cond"]:
                op.conditional([c[i] for i in s["cond"]])
    return circuit, q, c


def _inline(circuit, q, c, ops_):
    """Applies the model's operations directly."""
    import dwave.gate.operations as ops

    for _, g, p, *_ in ops_:
        if g:
            lib.gate_class(g, list(p))
    with circuit.context:
        for k, g, p, qs, bs, cond in ops_:
            if k == "g":
                op = lib.make_op({"g": g, "p": list(p), "q": qs}, q, 1)
            elif k == "m":
                op = ops.Measurement(tuple(q[i] for i in qs))
                if bs is not None:
                    op | [c[i] for i in bs]
            else:
                op = ops.Barrier(tuple(q[i] for i in qs))
            if cond:
                op.conditional([c[i] for i in cond])


def _compare(got, want, q, c, what):
    import dwave.gate.operations as ops

    require(len(got) == len(want), lambda: f"{what}: {len(got)} operations, expected {len(want)}")
    for op, (k, g, p, qs, bs, cond) in zip(got, want):
        cls = {"m": ops.Measurement, "b": ops.Barrier}.get(k) or lib.gate_class(g, list(p))
        require(type(op) is cls, lambda: f"{what}: {op} instead of {cls}")
        require(
            len(op.qubits) == len(qs) and all(a is q[i] for a, i in zip(op.qubits, qs)),
            lambda: f"{what}: {op} is not on qubits {qs}",
        )
        if k == "g" and lib.gate_args(g, list(p)):
            require(list(op.parameters) == list(p), lambda: f"{what}: {op} parameters, not {p}")
        if k == "g" and lib.is_controlled(g):
            nc = lib.num_control(g)
            require(
                list(op.control) == [q[i] for i in qs[:nc]]
                and list(op.target) == [q[i] for i in qs[nc:]],
                f"{what}: wrong control or target",
            )
        if k == "m":
            if bs is None:
                require(not op.bits, lambda: f"{what}: {op} stores its result")
            else:
                require(
                    op.bits is not None and len(op.bits) == len(bs)
                    and all(a is c[i] for a, i in zip(op.bits, bs)),
                    lambda: f"{what}: {op} is not stored in {bs}",
                )
        if cond is not None:
            mine = list(op._cond or [])
            require(
                len(mine) == len(cond) and all(any(a is c[i] for a in mine) for i in cond),
                lambda: f"{what}: {op} is conditioned on {mine}, expected bits {cond}",
            )


def _snap(circuit):
    return (
        [
            (id(o), o.qubits, list(getattr(o, "parameters", [])), getattr(o, "bits", None),
             sorted(map(id, o._cond)) if o._cond else None)
            for o in circuit.circuit
        ],
        list(circuit.qubits), list(circuit.bits), [b.value for b in circuit.bits],
        circuit.is_locked(), circuit.state is None,
    )


def _call(tpl, t, qs, bs, form):
    """The documented ways of passing qubits and bits."""
    args = [[]] if t["cls"] == "ParametricCircuit" else []
    if len(qs) == 1 and form % 2:
        qs = qs[0]
    elif form % 3 == 1:
        qs = tuple(qs)
    if bs is None:
        return tpl(*args, qs) if form % 2 else tpl(*args, qubits=qs)
    if len(bs) == 1 and form % 2:
        bs = bs[0]
    elif form % 3 == 2:
        bs = tuple(bs)
    if form % 5 == 0:
        return tpl(*args, qubits=qs, bits=bs)
    return tpl(*args, qs, bs)


@check.sub(
    "apply",
    lambda: st.fixed_dictionaries(
        {
            "t": st.lists(templates(), min_size=1, max_size=2),
            "outer": st.sampled_from(["Circuit", "Circuit", "ParametricCircuit"]),
            "layout": st.sampled_from([[["init", N]], [["reg", 2], ["reg", 2]],
                                       [["reg", 1], ["reg", 2], ["one", 0]]]),
            "calls": st.lists(
                st.fixed_dictionaries(
                    {
                        "t": st.integers(0, 1),
                        "q": lib.distinct(N, N),
                        "b": lib.distinct(NB, NB),
                        "bits": st.sampled_from([True, True, True, False]),
                        "form": st.integers(0, 29),
                        "frozen": st.sampled_from([False] * 5 + [True]),
                        "new": st.sampled_from([False, False, True]),
                        "lock": st.booleans(),
                    }
                ),
                min_size=1, max_size=4,
            ),
            "preset": st.lists(st.sampled_from([None, 0, 1]), min_size=NB, max_size=NB),
            "mine": st.one_of(st.none(), st.lists(st.sampled_from([0, 1]), min_size=3, max_size=3)),
            "seed": st.integers(0, 2**32 - 1),
        }
    ),
    quick=2500,
    thorough=40000,
)
def apply(case, ctx):
    from dwave.gate import circuit as dc
    from dwave.gate.simulator import simulate

    built = [(_build(t), t) for t in case["t"]]
    for (tpl, _, tc), t in built:
        if case["mine"]:
            for b, v in zip(tc, case["mine"]):
                b.set(v, force=True)
    outer, oq, oc = lib.new_circuit(case["layout"], [["init", NB]], getattr(dc, case["outer"]))
    plain, pq, pc = lib.new_circuit(case["layout"], [["init", NB]])
    for b, b2, v in zip(oc, pc, case["preset"]):
        if v is not None:
            b.set(v)
            b2.set(v)
    snaps = [_snap(tpl) for (tpl, _, _), _ in built]
    want = []
    k = 0
    while k < len(case["calls"]):
        outer.unlock()
        with outer.context:
            while True:
                call = case["calls"][k]
                (tpl, tq, tc), t = built[call["t"] % len(built)]
                q = call["q"][: len(tq)]
                b = call["b"][: len(tc)] if call["bits"] and tc else None
                qs = [oq[i] for i in q]
                bs = None if b is None else [oc[i] for i in b]
                if call["frozen"]:
                    with outer.context.freeze:
                        _call(tpl, t, qs, bs, call["form"])
                else:
                    r = _call(tpl, t, qs, bs, call["form"])
                    require(r is None, "applying a circuit returned something")
                    want += _map(_flat(t["steps"]), q, b if tc else [])
                    ctx.nontrivial(len(q) > 1 and q != sorted(q) and len(t["steps"]) > 1)
                k += 1
                if k >= len(case["calls"]) or case["calls"][k]["new"]:
                    break
        for (tpl, _, _), s in zip([x for x, _ in built], snaps):
            require(_snap(tpl) == s, "applying a circuit changed it")
        _compare(outer.circuit, want, oq, oc, "outer circuit")
    if any(c is None for *_, c in want):
        ctx.label("condition without bits")
        return
    _inline(plain, pq, pc, want)
    if any(k == "m" and bs is None for k, _, _, _, bs, _ in want):
        ctx.label("unstored measurement")
    a, ra = lib.outcome(lambda: simulate(outer, rng_seed=case["seed"]))
    b, rb = lib.outcome(lambda: simulate(plain, rng_seed=case["seed"]))
    require(a == b, lambda: f"simulation: {ra!r} versus {rb!r} for the inlined operations")
    ctx.label(f"simulation {a}")
    if a == "ok":
        require(lib.close(outer.state, plain.state), "states differ from the inlined operations")
        require([x.value for x in oc] == [x.value for x in pc], "bits differ")
    for (tpl, _, _), s in zip([x for x, _ in built], snaps):
        require(_snap(tpl) == s, "simulating the outer circuit changed a template")


def random_template(r, n, nb, k, cls):
    """A template with k steps on n qubits and nb bits, made with a random number generator."""
    seed = r.randrange(2**32)
    steps = []
    for plan in lib.random_plans(seed, n, k, POOL):
        cond = r.sample(range(nb), r.randint(1, nb)) if nb and r.random() < 0.3 else []
        x = r.random()
        if x < 0.15:
            qs = r.sample(range(n), r.randint(1, n))
            bs = r.sample(range(nb), len(qs)) if len(qs) <= nb and r.random() < 0.8 else None
            steps.append({"k": "m", "q": qs, "b": bs, "cond": cond})
        elif x < 0.25:
            steps.append({"k": "b", "q": r.sample(range(n), r.randint(1, n)), "cond": cond})
        else:
            plan["h"] %= 5
            steps.append({"k": "g", "plan": plan, "cond": cond})
    return {"qs": lib.random_registers(seed, n), "nb": nb, "bsplit": r.random() < 0.5,
            "steps": steps, "cls": cls}


@check.sub(
    "large",
    lambda: st.fixed_dictionaries(
        {
            "n": st.integers(2, 14), "nb": st.integers(0, 14), "k": st.integers(3, 60),
            "more": st.integers(0, 3), "calls": st.integers(1, 3),
            "cls": st.sampled_from(["Circuit", "ParametricCircuit"]),
            "seed": st.integers(0, 2**32 - 1),
        }
    ),
    quick=300,
    thorough=6000,
)
def large(case, ctx):
    """Templates with many qubits, bits, conditions and operations; structure only."""
    import random

    from dwave.gate.circuit import Circuit

    r = random.Random(case["seed"])
    n, nb = case["n"], case["nb"]
    t = random_template(r, n, nb, case["k"], case["cls"])
    steps = t["steps"]
    tpl, _, _ = _build(t)
    snap = _snap(tpl)
    outer = Circuit(n + case["more"], nb + case["more"])
    oq, oc = list(outer.qubits), list(outer.bits)
    want = []
    with outer.context:
        for _ in range(case["calls"]):
            q, b = r.sample(range(len(oq)), n), r.sample(range(len(oc)), nb)
            _call(tpl, t, [oq[i] for i in q], [oc[i] for i in b] if nb else None, r.randrange(30))
            want += _map(_flat(steps), q, b)
    ctx.nontrivial()
    ctx.label(f"conditions: {max(len(s['cond']) for s in steps)}")
    _compare(outer.circuit, want, oq, oc, "outer circuit")
    require(_snap(tpl) == snap, "applying a circuit changed it")


@check.sub(
    "nested",
    lambda: st.fixed_dictionaries(
        {
            "t": st.lists(templates(), min_size=2, max_size=3),
            "maps": st.lists(st.tuples(lib.distinct(3, 3), lib.distinct(3, 3)), min_size=2,
                             max_size=2),
            "own": st.lists(lib.gate_plans(3, lib.GATE_POOL), max_size=2),
            "form": st.integers(0, 29),
        }
    ),
    quick=1000,
    thorough=15000,
)
def nested(case, ctx):
    """Templates that apply templates themselves."""
    from dwave.gate.circuit import Circuit

    t = case["t"][0]
    tpl, tq, tc = _build(t)
    inner = _flat(t["steps"])
    for (qm, bm), form in zip(case["maps"], (case["form"], case["form"] + 1)):
        mid = Circuit(3, 3)
        q, b = qm[: len(tq)], bm[: len(tc)]
        model = []
        with mid.context as regs:
            for p in case["own"]:
                lib.make_op(p, list(regs.q), 1)
                model.append(("g", p["g"], tuple(p["p"]), p["q"], None, []))
            _call(tpl, t, [regs.q[i] for i in q], [regs.c[i] for i in b] if b else None, form)
            model += _map(inner, q, b)
        _compare(mid.circuit, model, list(mid.qubits), list(mid.bits), "middle circuit")
        tpl, tq, tc, inner = mid, list(mid.qubits), list(mid.bits), model
        t = {"cls": "Circuit"}
    outer = Circuit(N, NB)
    with outer.context as regs:
        tpl([regs.q[3], regs.q[1], regs.q[0]], [regs.c[2], regs.c[0], regs.c[3]])
    ctx.nontrivial(len(inner) > 1)
    _compare(
        outer.circuit, _map(inner, [3, 1, 0], [2, 0, 3]), list(outer.qubits), list(outer.bits),
        "outer circuit",
    )


@check.sub(
    "rejected",
    lambda: st.fixed_dictionaries(
        {
            "t": templates(0),
            "how": st.sampled_from(["qubits", "bits", "nobits", "outside", "self", "self-frozen"]),
            "delta": st.sampled_from([-3, -2, -1, 1, 2, 3]),
            "before": st.integers(0, 2),
        }
    ),
    quick=700,
    thorough=8000,
)
def rejected(case, ctx):
    import dwave.gate.operations as ops
    from dwave.gate.circuit import Circuit, CircuitContext, CircuitError
    from dwave.gate.primitives import Bit

    t, how = case["t"], case["how"]
    tpl, tq, tc = _build(t)
    n, nb = len(tq), len(tc)
    args = [[]] if t["cls"] == "ParametricCircuit" else []
    outer = Circuit(8, 8)
    with outer.context as regs:
        for _ in range(case["before"]):
            ops.X(regs.q[0])
    outer.unlock()
    snap, osnap = _snap(tpl), _snap(outer)
    oq, oc = list(outer.qubits), list(outer.bits)
    ctx.nontrivial()
    ctx.label(how)
    if how == "outside":
        require(CircuitContext.active_context is None, "a context is active")
        lib.expect_raises(CircuitError, lambda: tpl(*args, oq[:n]), "outside of a context")
        lib.expect_raises(
            CircuitError, lambda: tpl(*args, oq[:n], oc[:nb] or None), "outside of a context"
        )
    elif how.startswith("self"):
        tpl.unlock()
        with tpl.context:
            if how == "self-frozen":
                with tpl.context.freeze:
                    lib.expect_raises(TypeError, lambda: tpl(*args, tq, tc or None), "to itself")
            else:
                lib.expect_raises(TypeError, lambda: tpl(*args, tq), "to itself")
                lib.expect_raises(TypeError, lambda: tpl(*args, tq, tc or None), "to itself")
        if not snap[4]:
            tpl.unlock()
    else:
        with outer.context:
            if how == "qubits":
                k = n + case["delta"]
                if k < 0:
                    k = 0
                lib.expect_raises(ValueError, lambda: tpl(*args, oq[:k]), f"{k} for {n} qubits")
                lib.expect_raises(
                    ValueError, lambda: tpl(*args, oq[:k], oc[:nb] or None), f"{k} for {n} qubits"
                )
                if n != 1:
                    lib.expect_raises(ValueError, lambda: tpl(*args, oq[0]), "one qubit")
            else:
                k = max(nb + case["delta"], 1)
                if k == nb:
                    k += 1
                lib.expect_raises(
                    ValueError, lambda: tpl(*args, oq[:n], oc[:k]), f"{k} for {nb} bits"
                )
                if nb != 1:
                    lone = Bit("x")
                    lone.set(0)
                    lib.expect_raises(ValueError, lambda: tpl(*args, oq[:n], oc[0]), "one bit")
                    lib.expect_raises(ValueError, lambda: tpl(*args, oq[:n], lone), "one zero bit")
        outer.unlock()
    require(_snap(tpl) == snap, "the template was changed")
    require(_snap(outer) == osnap, "something was appended")


@check.sub(
    "outside-bits",
    lambda: st.fixed_dictionaries(
        {
            "nb": st.integers(1, 4),
            "out": st.integers(1, 3),
            "conds": st.lists(
                st.lists(st.tuples(st.booleans(), st.integers(0, 3)), max_size=5), min_size=1, max_size=4
            ),
            "perm": lib.distinct(5, 4),
            "values": st.lists(st.integers(0, 1), min_size=8, max_size=8),
            "nested": st.booleans(),
        }
    ),
    quick=500,
    thorough=8000,
)
def outside_bits(case, ctx):
    """Conditions on bits that the template does not have stay as they are."""
    import dwave.gate.operations as ops
    from dwave.gate.circuit import Circuit
    from dwave.gate.primitives import Bit

    nb, outside = case["nb"], [Bit(f"o{i}") for i in range(case["out"])]
    tpl = Circuit(1, nb)
    conds = [[(mine, i % (nb if mine else len(outside))) for mine, i in c] for c in case["conds"]]
    with tpl.context as regs:
        for c in conds:
            op = ops.X(regs.q[0])
            if c:
                op.conditional([regs.c[i] if mine else outside[i] for mine, i in c])
    outer = Circuit(1, 5)
    at = case["perm"][:nb]
    to = [outer.bits[i] for i in at]
    with outer.context as regs:
        if case["nested"]:
            mid = Circuit(1, nb)
        else:
            tpl(regs.q, to)
    if case["nested"]:
        with mid.context as regs:
            tpl(regs.q, list(regs.c)[::-1])
        to = to[::-1]
        outer.unlock()
        with outer.context as regs:
            mid(regs.q, [outer.bits[i] for i in at])
    require(len(outer.circuit) == len(conds), "operations are missing")
    every = [*outer.bits, *outside]
    # one bit after the other is the only one that is 0; then any values
    for values in [[int(b is not x) for b in every] for x in every] + [case["values"]]:
        for b, v in zip(every, values):
            b.set(v, force=True)
        for op, c in zip(outer.circuit, conds):
            bits = [to[i] if mine else outside[i] for mine, i in c]
            require(
                op.is_blocked is any(b.value == 0 for b in bits),
                lambda: f"{op}: blocked {op.is_blocked}, conditioned on {bits}",
            )
            ctx.nontrivial(len({mine for mine, _ in c}) == 2)


EDITED = ["template"]


@check.sub("edited", lambda: world.edited_cases(EDITED), quick=1000, thorough=20000)
def edited(case, ctx):
    """As a circuit with the same content that is built at once, after any edits and reads."""
    world.check_edited(case, ctx, EDITED)
