"""C09: binding parameters replaces exactly the variables, by index and by value."""

import copy

from hypothesis import strategies as st

from checks import lib, world
from vf.core import Check, require

check = Check(
    "C09",
    rule=(
        "random parametric operations and circuits mixing numbers and (set or unset) variables, "
        "bound explicitly, by value, in place, or by applying templates repeatedly; non-trivial: "
        "at least one variable and one number, or two bindings of the same template"
    ),
    assumptions=[
        "ParametricCircuit.eval takes one parameter list per operation (as its tests do)",
        "after a failed in-place evaluation the operation is unspecified",
    ],
)

PAR = [g for g in lib.BUILTIN if lib.gate_params(g)] + ["KP", "CCRY"]
CONST = [g for g in lib.BUILTIN if not lib.gate_params(g)]


def values():
    return st.one_of(
        lib.angles(), st.sampled_from([0, 0.0, -0.0, 1, 2.5]),
    )


def _same(a, b):
    return not hasattr(a, "name") and a == b


def op_plans(n, gates, nvars=4):
    def mk(g):
        k = lib.gate_arity(g)
        np_ = lib.gate_params(g)
        par = st.one_of(
            st.tuples(st.just("v"), st.integers(0, nvars - 1)),
            st.tuples(st.just("v"), st.integers(0, nvars - 1)),
            st.tuples(st.just("n"), values()),
        )
        return st.fixed_dictionaries(
            {
                "g": st.just(g),
                "pv": st.lists(par, min_size=np_, max_size=np_),
                "q": lib.distinct(n, k),
                "h": st.integers(0, 4),
            }
        )

    return st.sampled_from([g for g in gates if lib.gate_arity(g) <= n]).flatmap(mk)


def _params(op):
    return list(op.parameters) if hasattr(op, "parameters") else []


def _ids(op):
    return (type(op), op.qubits, [(id(p), p) for p in _params(op)])


@check.sub(
    "operation",
    lambda: st.fixed_dictionaries(
        {
            "op": op_plans(3, PAR),
            "vals": st.lists(st.one_of(st.none(), values()), min_size=4, max_size=4),
            "explicit": st.one_of(
                st.none(), st.just([]), st.lists(values(), min_size=3, max_size=3),
                st.lists(values(), max_size=2),
            ),
            "inplace": st.booleans(),
            "kw": st.booleans(),
            "where": st.sampled_from(["none", "bare", "context"]),
        }
    ),
    quick=3000,
    thorough=60000,
)
def operation(case, ctx):
    from dwave.gate.circuit import Circuit
    from dwave.gate.primitives import Qubit, Variable

    o = case["op"]
    vs = [Variable(str(i)) for i in range(4)]
    pars = [vs[v] if k == "v" else v for k, v in o["pv"]]
    qubits = [Qubit(str(i)) for i in range(3)]
    lib.gate_class(o["g"])
    if case["where"] == "bare":
        op = lib.gate_class(o["g"])(pars)
    else:
        op = lib.make_op({"g": o["g"], "p": pars, "q": o["q"]}, qubits, o["h"])
    for v, x in zip(vs, case["vals"]):
        if x is not None:
            v.set(x)
    ctx.nontrivial(any(k == "v" for k, _ in o["pv"]) and (
        any(k == "n" for k, _ in o["pv"]) or case["explicit"] is None))
    explicit = case["explicit"]
    if explicit:
        explicit = explicit[: len(pars)]
    want, missing = [], False
    for i, (k, v) in enumerate(o["pv"]):
        if k == "n":
            want.append(v)
        elif explicit:
            if i < len(explicit):
                want.append(explicit[i])
            else:
                missing = True
        elif case["vals"][v] is not None:
            want.append(case["vals"][v])
        else:
            missing = True
    before = _ids(op)
    passed = None if explicit is None else list(explicit)
    args = {"inplace": case["inplace"]} if case["kw"] or case["inplace"] else {}
    outer = Circuit(2)

    def run():
        if passed is None and case["kw"]:
            return op.eval(**args)
        return op.eval(passed, **args)

    if case["where"] == "context":
        with outer.context:
            kind, res = lib.outcome(run)
        require(len(outer.circuit) == 0, "evaluating applied an operation")
    else:
        kind, res = lib.outcome(run)
    require(passed == explicit, "the passed parameters were changed")
    require([v.value for v in vs] == case["vals"], "evaluating changed a variable")
    if missing:
        require(kind == "err", lambda: f"{pars} with {explicit} evaluated to {_params(res)}")
        if not explicit:
            require(isinstance(res, ValueError), lambda: f"raised {res!r}")
        if not case["inplace"]:
            require(_ids(op) == before, "a failed evaluation changed the operation")
        return
    require(kind == "ok", lambda: f"evaluating {pars} with {explicit}: {res!r}")
    got = _params(res)
    require(
        len(got) == len(want) and all(_same(a, b) for a, b in zip(got, want)),
        lambda: f"evaluated to {got}, expected {want}",
    )
    require(type(res) is type(op) and res.qubits == before[1], "type or qubits changed")
    if lib.is_controlled(o["g"]) and res.qubits:
        require(res.control == op.control and res.target == op.target, "control/target changed")
    require(
        lib.close(res.matrix, lib.gate_ref(o["g"], want)), "wrong matrix after evaluation"
    )
    if case["inplace"]:
        require(res is op, "in-place evaluation returned another operation")
    else:
        require(res is not op and _ids(op) == before, "evaluating a copy changed the original")
        res.parameters[0] = 77
        require(_ids(op) == before, "the copy shares parameters with the original")


def _template(plans, n, cls=None):
    from dwave.gate.circuit import ParametricCircuit

    circuit = (cls or ParametricCircuit)(n)
    with circuit.context as regs:
        for o in plans:
            pars = [regs.p[v] if k == "v" else v for k, v in o["pv"]]
            lib.make_op({"g": o["g"], "p": pars, "q": o["q"]}, list(regs.q), o["h"])
    num = max([v for o in plans for k, v in o["pv"] if k == "v"] + [-1]) + 1
    return circuit, num


@check.sub(
    "circuit",
    lambda: st.fixed_dictionaries(
        {
            "ops": st.lists(op_plans(3, PAR * 2 + CONST), min_size=1, max_size=5),
            "vals": st.lists(st.one_of(values(), values(), st.none()), min_size=4, max_size=4),
            "explicit": st.one_of(
                st.none(),
                st.lists(st.lists(values(), min_size=3, max_size=3), min_size=5, max_size=5),
            ),
            "inplace": st.booleans(),
        }
    ),
    quick=2000,
    thorough=30000,
)
def circuit_eval(case, ctx):
    from dwave.gate.simulator import simulate

    circuit, num = _template(case["ops"], 3)
    require(circuit.num_parameters == num, lambda: f"{circuit.num_parameters} parameters, not {num}")
    reg = lib.params_of(circuit)
    for v, x in zip(list(reg), case["vals"]):
        if x is not None:
            v.set(x)
    before = [_ids(op) for op in circuit.circuit]
    ops_before = list(circuit.circuit)
    explicit = case["explicit"]
    want, missing = [], False
    for j, o in enumerate(case["ops"]):
        row = []
        for i, (k, v) in enumerate(o["pv"]):
            if k == "n":
                row.append(v)
            elif explicit:
                row.append(explicit[j][i])
            elif case["vals"][v] is not None:
                row.append(case["vals"][v])
            else:
                missing = True
        want.append(row)
    kinds = [k for o in case["ops"] for k, _ in o["pv"]]
    ctx.nontrivial("v" in kinds and len(case["ops"]) > 1)
    passed = copy.deepcopy(explicit[: len(ops_before)]) if explicit else None
    if explicit and len(ops_before) > 1 and any(k == "v" for k, _ in case["ops"][-1]["pv"]):
        # an operation without a row of its own must not borrow that of another
        kind, res = lib.outcome(lambda: circuit.eval(copy.deepcopy(passed[:-1])))
        require(kind == "err", lambda: f"evaluated with too few rows to {[_params(op) for op in res.circuit]}")
        require([_ids(op) for op in circuit.circuit] == before, "failure changed the circuit")
    # also with the default and with positional arguments
    how = len(case["ops"]) % 3
    if case["inplace"]:
        args = [lambda: circuit.eval(passed, inplace=True), lambda: circuit.eval(passed, True)]
    else:
        args = [lambda: circuit.eval(passed), lambda: circuit.eval(passed, inplace=False)]
    if passed is None:
        args.append(lambda: circuit.eval(**({"inplace": True} if case["inplace"] else {})))
    kind, res = lib.outcome(args[how % len(args)])
    require([v.value for v in reg] == case["vals"][:num], "evaluating changed a variable")
    if missing:
        require(kind == "err" and isinstance(res, ValueError), lambda: f"no value, but {res!r}")
        if not case["inplace"]:
            require([_ids(op) for op in circuit.circuit] == before, "failure changed the circuit")
        return
    require(kind == "ok", lambda: f"evaluating: {res!r}")
    got = [_params(op) for op in res.circuit]
    require(
        len(got) == len(want)
        and all(len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
                for a, b in zip(got, want)),
        lambda: f"evaluated to {got}, expected {want}",
    )
    require(
        [type(op) for op in res.circuit] == [b[0] for b in before]
        and [op.qubits for op in res.circuit] == [b[1] for b in before],
        "operations or qubits changed",
    )
    if case["inplace"]:
        require(res is circuit and all(a is b for a, b in zip(res.circuit, ops_before)),
                "in-place evaluation replaced the circuit or its operations")
    else:
        require(res is not circuit, "evaluation returned the circuit itself")
        require([_ids(op) for op in circuit.circuit] == before, "evaluating changed the original")
        require(all(a is not b for a, b in zip(res.circuit, ops_before)), "operations are shared")
    if not any(o["g"] in ("KP", "CCRY") for o in case["ops"]):
        simulate(res)
        ref = lib.ref_evolve(
            3, [{"g": o["g"], "p": w, "q": o["q"]} for o, w in zip(case["ops"], want)]
        )
        require(lib.close(res.state, lib.to_vec(ref)), "evaluated circuit simulates wrongly")


def _calls():
    return st.lists(
        st.fixed_dictionaries(
            {
                "t": st.integers(0, 1),
                "p": st.lists(
                    st.one_of(st.tuples(st.just("n"), values()),
                              st.tuples(st.just("n"), values()),
                              st.tuples(st.just("v"), st.integers(0, 2))),
                    min_size=4, max_size=4,
                ),
                "q": lib.distinct(4, 3),
                "short": st.sampled_from([False] * 6 + [True]),
                "tuple": st.booleans(),
                "new": st.booleans(),
                "frozen": st.sampled_from([False] * 4 + [True]),
            }
        ),
        min_size=1, max_size=5,
    )


@check.sub(
    "templates",
    lambda: st.fixed_dictionaries(
        {
            "t": st.lists(
                st.lists(op_plans(3, PAR * 2 + CONST), min_size=1, max_size=4),
                min_size=2, max_size=2,
            ),
            "calls": _calls(),
            "outer": st.sampled_from(["Circuit", "Circuit", "ParametricCircuit"]),
            "raise": st.booleans(),
            # values given to the variables of the templates by hand, between the contexts
            "hand": st.lists(
                st.one_of(st.none(), st.tuples(st.integers(0, 1), st.integers(0, 3), values())),
                min_size=5, max_size=5,
            ),
        }
    ),
    quick=2500,
    thorough=40000,
)
def templates(case, ctx):
    """Applying parametric circuits with parameters, repeatedly and interleaved."""
    from dwave.gate import circuit as dc

    tpl = [_template(p, 3) for p in case["t"]]
    parametric = case["outer"] == "ParametricCircuit"
    outer = getattr(dc, case["outer"])(4)
    oq = list(outer.qubits)
    befores = [[_ids(op) for op in c.circuit] for c, _ in tpl]
    expected = []
    sessions = []
    for call in case["calls"]:
        if call["new"] or not sessions:
            sessions.append([])
        sessions[-1].append(call)
    ctx.nontrivial(len(case["calls"]) > 1 and any(num for _, num in tpl))

    class Stop(Exception):
        pass

    values_now = [[None] * num for _, num in tpl]
    for k, session in enumerate(sessions):
        outer.unlock()
        hand = case.get("hand", [None] * 5)[k]
        if hand and tpl[hand[0]][1]:
            ti, vi = hand[0], hand[1] % tpl[hand[0]][1]
            list(lib.params_of(tpl[ti][0]))[vi].set(hand[2])
            values_now[ti][vi] = hand[2]
        try:
            with outer.context as regs:
                for call in session:
                    circ, num = tpl[call["t"]]
                    if values_now[call["t"]] != [None] * num:
                        # variables that have a value already are not called
                        continue
                    p = [
                        (regs.p[v] if parametric else 0.5 * v) if kk == "v" else v
                        for kk, v in call["p"]
                    ][:num]
                    p = tuple(p) if call["tuple"] else p
                    qs = [oq[i] for i in call["q"]]
                    if call["short"] and num:
                        kind, _ = lib.outcome(lambda: circ(p[:-1], qs))
                        require(kind == "err", "accepted too few parameters")
                        require(len(outer.circuit) == len(expected), "applied despite the error")
                        continue
                    if call["frozen"]:
                        with outer.context.freeze:
                            circ(p, qs)
                        require(len(outer.circuit) == len(expected), "applied while frozen")
                        continue
                    circ(p, qs)
                    for o in case["t"][call["t"]]:
                        want = [p[v] if kk == "v" else v for kk, v in o["pv"]]
                        expected.append((o["g"], [qs[i] for i in o["q"]], want))
                if case["raise"] and k == 0:
                    raise Stop
        except Stop:
            pass
        for (circ, num), before, want in zip(tpl, befores, values_now):
            require([_ids(op) for op in circ.circuit] == before, "the template was changed")
            got = [v.value for v in lib.params_of(circ)]
            require(
                got == want,
                lambda: f"the template's variables have the values {got} instead of {want}",
            )
            require(circ.num_parameters == num, "the template's parameters changed")
        got = list(outer.circuit)
        require(len(got) == len(expected), lambda: f"{len(got)} operations, not {len(expected)}")
        for op, (g, qs, want) in zip(got, expected):
            require(type(op) is lib.gate_class(g), lambda: f"{op} instead of {g}")
            require(list(op.qubits) == qs, lambda: f"{op} is not on {qs}")
            ps = _params(op)
            require(
                len(ps) == len(want)
                and all((a is b) if hasattr(b, "name") else _same(a, b) for a, b in zip(ps, want)),
                lambda: f"{op} instead of parameters {want}",
            )


def _random_ops(r, k, nvars):
    """k operations using nvars variables, where nearly every variable is used."""
    out = []
    for plan in lib.random_plans(r.randrange(2**32), 3, k, PAR):
        pv = [("v", r.randrange(nvars)) if r.random() < 0.8 else ("n", x) for x in plan["p"]]
        out.append({"g": plan["g"], "pv": pv, "q": plan["q"], "h": plan["h"] % 5})
    return out


@check.sub(
    "many-variables",
    lambda: st.fixed_dictionaries(
        {"vars": st.integers(5, 40), "ops": st.integers(5, 40), "calls": st.integers(1, 4),
         "explicit": st.booleans(), "inplace": st.booleans(), "seed": st.integers(0, 2**32 - 1)}
    ),
    quick=400,
    thorough=8000,
)
def many_variables(case, ctx):
    """Dozens of variables and operations: names with several digits, long value lists."""
    import random

    r = random.Random(case["seed"])

    def val():
        return round(r.uniform(-7, 7), 5)

    ops_ = _random_ops(r, case["ops"], case["vars"])
    circuit_eval(
        {
            "ops": ops_,
            "vals": [val() for _ in range(case["vars"])],
            "explicit": [[val() for _ in range(3)] for _ in ops_] if case["explicit"] else None,
            "inplace": case["inplace"],
        },
        ctx,
    )
    calls = [
        {
            "t": r.randrange(2),
            "p": [("v", r.randrange(30)) if r.random() < 0.2 else ("n", val())
                  for _ in range(case["vars"])],
            "q": r.sample(range(4), 3),
            "short": False, "tuple": r.random() < 0.5, "new": r.random() < 0.5, "frozen": False,
        }
        for _ in range(case["calls"])
    ]
    templates(
        {
            "t": [ops_, _random_ops(r, case["ops"], case["vars"])],
            "calls": calls,
            "outer": r.choice(["Circuit", "ParametricCircuit"]),
            "raise": False,
            "hand": [None] * 5,
        },
        ctx,
    )


@check.sub(
    "append",
    lambda: st.fixed_dictionaries(
        {
            "ops": st.lists(op_plans(3, PAR * 2 + CONST), min_size=1, max_size=4),
            "vals": st.lists(st.one_of(values(), st.none()), min_size=4, max_size=4),
            "how": st.sampled_from(["context", "append", "extend", "reapply", "extend-all"]),
            "parametric": st.booleans(),
        }
    ),
    quick=1200,
    thorough=20000,
)
def append(case, ctx):
    """Circuits that are not parametric only ever contain values."""
    from dwave.gate.circuit import Circuit, ParametricCircuit
    from dwave.gate.primitives import Variable

    vs = [Variable(f"x{i}") for i in range(4)]
    for v, x in zip(vs, case["vals"]):
        if x is not None:
            v.set(x)
    circuit = ParametricCircuit(3) if case["parametric"] else Circuit(3)
    if case["parametric"]:
        with circuit.context as regs:
            regs.p[0]
        circuit.unlock()
    q = list(circuit.qubits)
    expected = []
    ctx.nontrivial(any(k == "v" for o in case["ops"] for k, _ in o["pv"]))
    plans = []
    for o in case["ops"]:
        lib.gate_class(o["g"])
        pars = [vs[v] if k == "v" else v for k, v in o["pv"]]
        plans.append({"g": o["g"], "p": pars, "q": o["q"]})
    if case["how"] == "extend-all":
        new = [lib.make_op(plan, q, o["h"]) for plan, o in zip(plans, case["ops"])]
        kind, res = lib.outcome(lambda: circuit.extend(new))
        want = [
            [case["vals"][v] if k == "v" and not case["parametric"] else (vs[v] if k == "v" else v)
             for k, v in o["pv"]]
            for o in case["ops"]
        ]
        bad = next((i for i, w in enumerate(want) if any(x is None for x in w)), None)
        got = [_params(op) for op in circuit.circuit]
        if bad is None:
            require(kind == "ok", lambda: f"{res!r}")
            require(len(got) == len(want), lambda: f"circuit has {got}, expected {want}")
        else:
            require(kind == "err" and isinstance(res, ValueError), lambda: f"{res!r}")
            require(len(got) <= bad, lambda: f"circuit has {got}, expected at most {want[:bad]}")
        require(
            all(
                len(a) == len(b)
                and all((x is y) if hasattr(y, "name") else _same(x, y) for x, y in zip(a, b))
                for a, b in zip(got, want)
            ),
            lambda: f"circuit has {got}, expected {want}",
        )
        return
    for o, plan in zip(case["ops"], plans):
        pars = plan["p"]

        def run():
            circuit.unlock()
            if case["how"] == "context":
                with circuit.context:
                    lib.make_op(plan, q, o["h"])
            elif case["how"] == "reapply":
                op = lib.make_op(plan, q, o["h"])
                with circuit.context:
                    op()
            elif case["how"] == "append":
                circuit.append(lib.make_op(plan, q, o["h"]))
            else:
                circuit.extend([lib.make_op(plan, q, o["h"])])

        kind, res = lib.outcome(run)
        if case["parametric"]:
            want = pars
        else:
            want = [case["vals"][v] if k == "v" else v for k, v in o["pv"]]
        if any(w is None for w in want):
            require(kind == "err" and isinstance(res, ValueError), lambda: f"{res!r}")
        else:
            require(kind == "ok", lambda: f"{res!r}")
            expected.append(want)
        got = [_params(op) for op in circuit.circuit]
        require(
            len(got) == len(expected)
            and all(
                len(a) == len(b)
                and all((x is y) if hasattr(y, "name") else _same(x, y) for x, y in zip(a, b))
                for a, b in zip(got, expected)
            ),
            lambda: f"circuit has {got}, expected {expected}",
        )


EDITED = ["eval", "matrices"]


@check.sub("edited", lambda: world.edited_cases(EDITED), quick=1000, thorough=20000)
def edited(case, ctx):
    """As a circuit with the same content that is built at once, after any edits and reads."""
    world.check_edited(case, ctx, EDITED)
