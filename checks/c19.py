"""C19: compiled QIR contains exactly the circuit's operations."""

from hypothesis import strategies as st

from checks import lib, world, qirlib
from checks.qirtext import Qir, expected_call, qis, same_calls
from vf.core import Check, require

check = Check(
    "C19",
    rule=(
        "random circuits over random register layouts, compiled with and without external "
        "functions, read by an independent QIR reader; non-trivial: several registers, a gate on "
        "several qubits or with parameters, and a measurement or an external function"
    ),
    assumptions=[
        "finite real parameters; no bit is measured twice",
    ],
)


def verify(text, circuit, model, meas, what):
    prog = Qir(text)
    prog.check_declarations()
    want = [expected_call(*m) for m in model]
    want += [
        (qis("mz"), [("Qubit", a), ("Result", b)]) for m in meas for a, b in zip(m["q"], m["b"])
    ]
    got = prog.quantum()
    require(same_calls(got, want), lambda: f"{what}: calls {got}, expected {want}")
    outs = [b for m in meas for b in m["b"]]
    require(
        [a[0] for a in prog.outputs()] == [("Result", b) for b in outs],
        lambda: f"{what}: recorded {prog.outputs()}, expected {outs}",
    )
    # everything else that is called is the runtime's initialization, first
    rest = [(i, n) for i, (n, _) in enumerate(prog.calls)
            if "__qis__" not in n and n != "__quantum__rt__result_record_output"]
    require(rest == [(0, "__quantum__rt__initialize")], lambda: f"{what}: runtime calls {rest}")
    names = [n for n, _ in prog.calls]
    last_q = max([i for i, n in enumerate(names) if "__qis__" in n], default=-1)
    first_out = min([i for i, n in enumerate(names) if n.endswith("record_output")], default=99999)
    require(last_q < first_out, f"{what}: results are recorded before the end")
    require(
        prog.attrs.get("num_required_qubits") == str(circuit.num_qubits)
        and prog.attrs.get("num_required_results") == str(circuit.num_bits),
        lambda: f"{what}: required {prog.attrs}, expected {circuit.num_qubits} qubits and "
        f"{circuit.num_bits} results",
    )
    require("entry_point" in prog.attrs, f"{what}: no entry point")
    require(
        prog.flags == {
            "qir_major_version": "1", "qir_minor_version": "0",
            "dynamic_qubit_management": "false", "dynamic_result_management": "false",
        },
        lambda: f"{what}: module flags {prog.flags}",
    )
    return prog


@check.sub(
    "compile",
    lambda: st.booleans().flatmap(
        lambda e: st.fixed_dictionaries(
            {"c": qirlib.circuits(external=e), "ext": st.just(e) if e else st.booleans()}
        )
    ),
    quick=4000,
    thorough=80000,
)
def compile_(case, ctx):
    import pyqir

    circuit, q, c, model = qirlib.build(case["c"])
    before = list(circuit.circuit)
    kw = {"add_external": True} if case["ext"] else {}
    text = circuit.to_qir(**kw)
    prog = verify(text, circuit, model, case["c"]["meas"], "text")
    require(circuit.to_qir(**kw) == text, "compiling again gives something else")
    code = circuit.to_qir(bitcode=True, **kw)
    require(isinstance(code, bytes), f"bitcode is {type(code)}")
    module = pyqir.Module.from_bitcode(pyqir.Context(), code)
    require(module.verify() is None, lambda: f"invalid bitcode: {module.verify()}")
    verify(str(module), circuit, model, case["c"]["meas"], "bitcode")
    require(circuit.circuit == before, "compiling changed the circuit")
    if case["ext"]:
        ext = {qis(qirlib.QIS[m[0]][0]) for m in model if qirlib.QIS[m[0]][1]}
        require(ext <= set(prog.declared), "external functions are not declared")
    ctx.nontrivial(
        len(circuit.qregisters) > 1
        and any(len(m[2]) > 1 or m[1] for m in model)
        and (bool(case["c"]["meas"]) or qirlib.needs_external(case["c"]))
    )
    for m in model:
        ctx.label(m[0])


@check.sub(
    "wide",
    lambda: st.booleans().flatmap(
        lambda e: st.fixed_dictionaries(
            {"c": qirlib.wide_circuits(external=e), "ext": st.just(e) if e else st.booleans()}
        )
    ),
    quick=400,
    thorough=8000,
)
def wide(case, ctx):
    compile_(case, ctx)


@check.sub("long", qirlib.long_circuits, quick=100, thorough=2000)
def long(case, ctx):
    """Hundreds of operations on dozens of qubits in several registers."""
    compile_(
        {"c": qirlib.random_circuit(
            case["seed"], case["n"], case["nb"], case["k"], case["external"]),
         "ext": case["external"]},
        ctx,
    )


BAD = ["external", "userop", "usercontrolled", "conditional", "mid", "mid-external", "barrier",
       "custom", "nobits", "complex", "condmeasure"]


@check.sub(
    "rejected",
    lambda: st.fixed_dictionaries(
        {
            "bad": st.sampled_from(BAD),
            "ext": st.booleans(),
            "before": st.lists(qirlib.gates(3, qirlib.BASE_POOL), max_size=3),
            "after": st.lists(qirlib.gates(3, qirlib.BASE_POOL), max_size=3),
            "gate": qirlib.gates(3, qirlib.EXTERNAL, ident=False),
            "midgate": qirlib.gates(3, qirlib.BASE_POOL, ident=False),
            "p": st.lists(lib.angles(), min_size=4, max_size=4),
            "mq": lib.distinct(3, 2),
        }
    ),
    quick=2000,
    thorough=40000,
)
def rejected(case, ctx):
    import dwave.gate.operations as ops
    from dwave.gate.circuit import Circuit

    bad, ext = case["bad"], case["ext"]
    c = Circuit(3, 3)
    user = lib.user_op_class({"usercontrolled": "CU", "custom": "K1"}.get(bad, "U"),
                             tuple(case["p"]))[0]
    error = Exception
    with c.context as regs:
        q = list(regs.q)
        for p in case["before"]:
            lib.make_op(p, q, p["h"])
        if bad == "external":
            lib.make_op(case["gate"], q)
            ext = False
            error = NotImplementedError
        elif bad in ("userop", "custom"):
            user(q[1])
            error = NotImplementedError
        elif bad == "usercontrolled":
            user(qubits=(q[2], q[0]))
            error = NotImplementedError
        elif bad == "barrier":
            ops.Barrier(tuple(q))
            error = NotImplementedError
        elif bad == "conditional":
            lib.make_op(case["midgate"], q).conditional(regs.c[0])
            error = NotImplementedError
        elif bad == "condmeasure":
            (ops.Measurement(q[0]) | regs.c[1]).conditional(regs.c[0])
            error = NotImplementedError
        elif bad in ("mid", "mid-external"):
            ops.Measurement([q[i] for i in case["mq"]]) | list(regs.c[:2])
            lib.make_op(case["midgate" if bad == "mid" else "gate"], q)
            if bad == "mid-external":
                ext = True
            error = ValueError
        elif bad == "nobits":
            ops.Measurement([q[i] for i in case["mq"]])
        elif bad == "complex":
            ops.RX(0.5 + 1j, q[0])
        if bad not in ("mid", "mid-external"):
            for p in case["after"]:
                lib.make_op(p, q, p["h"])
    before = list(c.circuit)
    for bc in (False, True):
        lib.expect_raises(error, lambda: c.to_qir(add_external=ext, bitcode=bc), bad)
    if not ext:
        lib.expect_raises(error, c.to_qir, f"{bad}, default arguments")
    require(c.circuit == before, "the circuit was changed")
    ctx.nontrivial(bool(case["before"]))
    ctx.label(bad)


EDITED = ["qir", "qir-external"]


@check.sub("edited", lambda: world.edited_cases(EDITED, plain=True), quick=1000, thorough=20000)
def edited(case, ctx):
    """As a circuit with the same content that is built at once, after any edits and reads."""
    world.check_edited(case, ctx, EDITED)
