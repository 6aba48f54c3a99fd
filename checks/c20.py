"""C20: loading QIR reproduces the program's calls in order."""

import struct

import numpy as np
from hypothesis import strategies as st

from checks import lib, qirlib
from checks.qirtext import QIS, qis
from vf.core import Check, require

check = Check(
    "C20",
    rule=(
        "QIR programs generated from a grammar (blocks, quantum and runtime calls, early return, "
        "declarations, constants in decimal and hexadecimal) and loaded, also into existing "
        "circuits; non-trivial: several blocks and a gate on several qubits, a parameter or a "
        "measurement between gates"
    ),
    assumptions=[
        "blocks are in the order of execution; measured bits of one measurement are distinct",
        "programs define a single function with quantum instructions; qubits and results are 64-bit integer constants",
        "consecutive measurements are loaded as a single measurement",
    ],
)

LOADABLE = {**{g: n for g, (n, _) in QIS.items()}, "Identity": "id"}
SPELL = {"CX": ["cnot", "cx"]}
TYPES = {"Q": "%Qubit*", "R": "%Result*"}


def fmt(x, how):
    if how % 3 == 0:
        return "double 0x" + struct.pack(">d", float(x)).hex().upper()
    text = f"{float(x):.17e}" if how % 3 == 1 else f"{float(x):.6e}"
    if float(text) != float(x):
        return fmt(x, 0)
    return "double " + text


def ref(kind, i, how):
    t = TYPES[kind]
    if i == 0 and how % 2 == 0:
        return f"{t} null"
    return f"{t} inttoptr (i64 {i} to {t})"


def gate_items(max_q):
    pool = list(QIS) + ["RX", "RZ", "CX", "CRX", "Rotation", "CSWAP", "Identity"]

    def mk(g):
        k, n = lib.gate_params(g), lib.gate_arity(g)
        return st.fixed_dictionaries(
            {
                "g": st.just(g),
                "p": st.lists(qirlib.params(), min_size=k, max_size=k),
                "q": lib.distinct(max_q, n),
                "h": st.integers(0, 11),
            }
        )

    return st.sampled_from(pool).flatmap(mk)


def items(max_q, max_b):
    meas = st.builds(
        lambda q, b, h: {"m": q, "b": b, "h": h},
        st.integers(0, max_q - 1), st.integers(0, max_b - 1), st.integers(0, 3),
    )
    rt = st.sampled_from(
        ["__quantum__rt__initialize", "__quantum__rt__result_record_output",
         "__quantum__rt__array_record_output", "helper"]
    ).map(lambda n: {"rt": n})
    g = gate_items(max_q)
    return st.one_of(g, g, g, g, meas, meas, rt)


def programs(bad=False):
    def mk(t):
        max_q, max_b = t
        d = {
            "blocks": st.lists(st.lists(items(max_q, max_b), max_size=5), min_size=1, max_size=4),
            "ret": st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 3), st.integers(0, 5))
                             .map(list)),
            "names": st.sampled_from([["entry", "body", "measurements", "output"],
                                      ["b0", "b1", "b2", "b3"], ["x.1", "main", "z", "loop"]]),
            "before": st.booleans(),
            "attrs": st.booleans(),
            # whether the classical helper function is defined in the program
            "define": st.sampled_from([None, None, "first", "last"]),
            "entry": st.sampled_from(["main", "program", "ENTRYPOINT__main"]),
            "circuit": st.one_of(
                st.none(),
                st.none(),
                st.fixed_dictionaries(
                    {
                        "qs": lib.register_plans(4),
                        "cs": st.one_of(st.just([]), lib.register_plans(3)),
                        "ops": st.integers(0, 3),
                        "meas": st.booleans(),
                        "lock": st.booleans(),
                        "cls": st.sampled_from(["Circuit", "Circuit", "ParametricCircuit"]),
                    }
                ),
            ),
            "code": st.booleans(),
        }
        if bad:
            d["bad"] = st.sampled_from(
                ["foo__body", "s__adj", "t__adj", "reset__body", "u3__body", "read_result__body",
                 "X__body", "x__ctl", "xx__body", "measurement__body"]
            )
            d["at"] = st.tuples(st.integers(0, 3), st.integers(0, 5)).map(list)
        return st.fixed_dictionaries(d)

    return st.tuples(st.sampled_from([3, 4, 4, 6, 12, 130]), st.sampled_from([1, 3, 3, 12, 130])).flatmap(mk)


def write(case):
    """The program's text and the items that are executed."""
    decl, order = {}, []

    def declare(name, sig):
        if name not in decl:
            decl[name] = sig
            order.append(name)

    blocks, executed = [], []
    done = False
    returned = case["ret"]
    nblocks = len(case["blocks"])
    for b, block in enumerate(case["blocks"]):
        lines = []
        cut = None
        if returned and returned[0] % nblocks == b:
            cut = returned[1] % (len(block) + 1)
        todo = list(block)
        if case.get("bad") and case["at"][0] % nblocks == b:
            todo.insert(case["at"][1] % (len(block) + 1), {"bad": case["bad"]})
        count = 0
        for it in todo:
            if cut is not None and count == cut and "bad" not in it:
                break
            count += "bad" not in it
            if "g" in it:
                names = SPELL.get(it["g"], [LOADABLE[it["g"]]])
                name = qis(names[it["h"] // 6 % len(names)])
                args = [fmt(p, it["h"] + k) for k, p in enumerate(it["p"])]
                args += [ref("Q", i, it["h"]) for i in it["q"]]
                declare(name, ["double"] * len(it["p"]) + ["%Qubit*"] * len(it["q"]))
            elif "m" in it:
                name = qis("mz")
                args = [ref("Q", it["m"], it["h"]), ref("R", it["b"], it["h"] // 2)]
                declare(name, ["%Qubit*", "%Result*"])
            elif "rt" in it:
                name = it["rt"]
                args, sig = {
                    "__quantum__rt__initialize": (["i8* null"], ["i8*"]),
                    "__quantum__rt__result_record_output": (
                        ["%Result* null", "i8* null"], ["%Result*", "i8*"]),
                    "__quantum__rt__array_record_output": (["i64 2", "i8* null"], ["i64", "i8*"]),
                    "helper": ([], []),
                }[name]
                if name != "helper" or not case.get("define"):
                    declare(name, sig)
            else:
                name = "__quantum__qis__" + it["bad"]
                args = [ref("Q", 1, 1)]
                declare(name, ["%Qubit*"])
            lines.append(f"  call void @{name}({', '.join(args)})")
            if not done:
                executed.append(it)
        if cut is not None or b == nblocks - 1:
            lines.append("  ret void")
            done = True
        else:
            lines.append(f"  br label %{case['names'][b + 1]}")
        blocks.append(f"{case['names'][b]}:\n" + "\n".join(lines))
    decls = "".join(f"declare void @{n}({', '.join(decl[n])})\n" for n in order)
    attr = " #0" if case["attrs"] else ""
    body = f"define void @{case['entry']}(){attr} {{\n" + "\n\n".join(blocks) + "\n}\n"
    helper = "define void @helper() {\nentry:\n  %x = add i64 1, 2\n  br label %exit\n\n" \
             "exit:\n  ret void\n}\n"
    if case.get("define") == "first":
        body = helper + "\n" + body
    elif case.get("define") == "last":
        body = body + "\n" + helper
    text = "; ModuleID = 'generated'\nsource_filename = \"generated\"\n\n"
    text += "%Qubit = type opaque\n%Result = type opaque\n\n"
    text += decls + "\n" + body if case["before"] else body + "\n" + decls
    if case["attrs"]:
        text += '\nattributes #0 = { "entry_point" "num_required_qubits"="12" ' \
                '"num_required_results"="12" }\n'
    return text, executed


def expected(executed):
    """Operations with consecutive measurements merged; None if a bit repeats within one."""
    out = []
    for it in executed:
        if "g" in it:
            out.append((it["g"], [float(x) for x in it["p"]], list(it["q"]), []))
        elif "m" in it:
            if out and out[-1][0] == "Measurement":
                out[-1][2].append(it["m"])
                out[-1][3].append(it["b"])
            else:
                out.append(("Measurement", [], [it["m"]], [it["b"]]))
    return out


def existing(spec):
    """A circuit to load into, with its model."""
    import dwave.gate.operations as ops
    import dwave.gate.circuit as dc

    circuit, q, c = lib.new_circuit(spec["qs"], spec["cs"], cls=getattr(dc, spec["cls"]))
    with circuit.context:
        for i in range(spec["ops"]):
            [ops.Hadamard, ops.X, ops.T][i](q[i % len(q)])
        if spec["meas"] and c:
            ops.Measurement(q[-1]) | c[-1]
    if not spec["lock"]:
        circuit.unlock()
    return circuit, q, c


def load(case, text, circuit=None):
    import pyqir
    from dwave.gate.circuit import Circuit
    from dwave.gate.qir.loader import load_qir_bitcode, load_qir_string

    if case["code"]:
        code = pyqir.Module.from_ir(pyqir.Context(), text).bitcode
        if circuit is None and case["before"]:
            return Circuit.from_qir(code, bitcode=True)
        return load_qir_bitcode(code) if circuit is None else load_qir_bitcode(code, circuit)
    if circuit is None and case["before"]:
        return Circuit.from_qir(text)
    return load_qir_string(text) if circuit is None else load_qir_string(text, circuit)


def _repeats(ops):
    # the same qubit or bit twice in one measurement is no well-defined measurement
    return any(
        g == "Measurement" and (len(set(b)) < len(b) or len(set(q)) < len(q)) for g, _, q, b in ops
    )


@check.sub("load", programs, quick=4500, thorough=80000)
def load_(case, ctx):
    import pyqir

    text, executed = write(case)
    want = expected(executed)
    if _repeats(want):
        return
    # the generator only writes valid programs
    module = pyqir.Module.from_ir(pyqir.Context(), text)
    assert module.verify() is None, module.verify()
    nq = max([i for w in want for i in w[2]], default=-1) + 1
    nb = max([i for w in want for i in w[3]], default=-1) + 1
    if case["circuit"] is None:
        loaded = load(case, text)
        had, q, c = [], [], []
        layout = ([], [])
    else:
        circuit, q, c = existing(case["circuit"])
        had = qirlib.describe(circuit)
        ids = [id(op) for op in circuit.circuit]
        layout = ([(k, len(v)) for k, v in circuit.qregisters.items()],
                  [(k, len(v)) for k, v in circuit.cregisters.items()])
        loaded = load(case, text, circuit)
        require(loaded is circuit, "loading returned another circuit")
        require([id(op) for op in loaded.circuit[: len(ids)]] == ids, "operations were replaced")
    got = qirlib.describe(loaded)
    require(
        len(got) == len(had) + len(want)
        and all(
            a == b and [np.signbit(x) for x in a[1]] == [np.signbit(x) for x in b[1]]
            for a, b in zip(got, had + want)
        ),
        lambda: f"loaded {got}, expected {had + want}\n{text}",
    )
    require(
        loaded.num_qubits == max(nq, len(q)) and loaded.num_bits == max(nb, len(c)),
        lambda: f"{loaded.num_qubits} qubits, {loaded.num_bits} bits; program uses {nq}, {nb}, "
        f"circuit had {len(q)}, {len(c)}",
    )
    for old, reg in zip(q, loaded.qubits):
        require(old is reg, "a qubit of the circuit was moved or replaced")
    for old, reg in zip(c, loaded.bits):
        require(old is reg, "a bit of the circuit was moved or replaced")
    for old, regs in zip(layout, (loaded.qregisters, loaded.cregisters)):
        now = [(k, len(v)) for k, v in regs.items()]
        require(
            [k for k, _ in now][: len(old)] == [k for k, _ in old]
            and all(b[1] >= a[1] for a, b in zip(old, now)),
            lambda: f"registers {now}, had {old}",
        )
    # both formats
    other = load({**case, "code": not case["code"]}, text)
    require(
        qirlib.describe(other) == want,
        lambda: f"the other format loads {qirlib.describe(other)}, expected {want}",
    )
    names = [w[0] for w in want]
    inner = any(n == "Measurement" for n in names[:-1])
    ctx.nontrivial(
        len(case["blocks"]) > 1 and (any(len(w[2]) > 1 or w[1] for w in want) or inner)
    )
    for n in names:
        ctx.label(n)
    if case["circuit"]:
        ctx.label("existing circuit")


@check.sub(
    "long",
    lambda: st.fixed_dictionaries(
        {"blocks": st.integers(1, 30), "size": st.integers(1, 60), "n": st.integers(3, 300),
         "nb": st.integers(1, 300), "circuit": st.booleans(), "seed": st.integers(0, 2**32 - 1)}
    ),
    quick=100,
    thorough=2000,
)
def long(case, ctx):
    """Programs with dozens of blocks, hundreds of calls and hundreds of qubits and results."""
    import random

    r = random.Random(case["seed"])

    def item():
        x = r.random()
        if x < 0.1:
            return {"rt": r.choice(["__quantum__rt__initialize", "helper",
                                    "__quantum__rt__result_record_output"])}
        if x < 0.25:
            return {"m": r.randrange(case["n"]), "b": r.randrange(case["nb"]),
                    "h": r.randrange(4)}
        plan = qirlib.random_ops(r.randrange(2**32), case["n"], 1)[0]
        plan["g"] = qirlib.ALIAS_OF.get(plan["g"], plan["g"])
        return {**plan, "h": r.randrange(12)}

    def clean(blocks):
        # no (qu)bit twice in what becomes one measurement
        q, b = set(), set()
        for block in blocks:
            for it in list(block):
                if "m" in it:
                    if it["m"] in q or it["b"] in b:
                        block.remove(it)
                        continue
                    q.add(it["m"])
                    b.add(it["b"])
                elif "g" in it:
                    q, b = set(), set()
        return blocks

    size = max(1, case["size"] * 5 // (4 + case["blocks"]))
    load_(
        {
            "blocks": clean([[item() for _ in range(r.randint(0, size))]
                             for _ in range(case["blocks"])]),
            "ret": [r.randrange(30), r.randrange(60)] if r.random() < 0.1 else None,
            "names": [f"b{i}" for i in range(case["blocks"])],
            "before": r.random() < 0.5, "attrs": r.random() < 0.5, "entry": "main",
            "circuit": {"qs": lib.random_registers(case["seed"], r.randint(1, 30)),
                        "cs": lib.random_registers(case["seed"] + 1, r.randint(1, 30)),
                        "ops": 2, "meas": r.random() < 0.5, "lock": r.random() < 0.5,
                        "cls": "Circuit"} if case["circuit"] else None,
            "code": r.random() < 0.5,
        },
        ctx,
    )


@check.sub("unknown", lambda: programs(bad=True), quick=1500, thorough=30000)
def unknown(case, ctx):
    text, executed = write(case)
    good = [x for x in executed if "bad" not in x]
    if _repeats(expected(good)):
        return
    circuit = None
    had = []
    if case["circuit"] is not None:
        circuit, _, _ = existing(case["circuit"])
        had = qirlib.describe(circuit)
    if len(good) == len(executed):
        # never executed
        got = qirlib.describe(load(case, text, circuit))
        require(got == had + expected(good), lambda: f"loaded {got}")
    else:
        lib.expect_raises(
            TypeError, lambda: load(case, text, circuit), f"unknown instruction {case['bad']}"
        )
        ctx.nontrivial(len(good) > 0)
