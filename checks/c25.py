"""C25: QIR instructions are validated, executed as given and compared by kind."""

import numpy as np
from hypothesis import strategies as st

from checks import lib
from checks.qirtext import Qir, qis, same_calls
from vf.core import Check, require

check = Check(
    "C25",
    rule=(
        "lists of instructions of every type with numbers, constants, qubits and results of one or "
        "two modules as arguments (also invalid ones), created, compared pairwise and executed; "
        "non-trivial: two instructions of the same name which differ in kind or order of arguments"
    ),
    assumptions=[
        "whole numbers are equal to the same floating point numbers",
        "executed instructions have arguments of the types that their functions need",
    ],
)

# function: (parameters, qubits)
BASE = {"x": (0, 1), "h": (0, 1), "rx": (1, 1), "rz": (1, 1), "cx": (0, 2), "cz": (0, 2),
        "ccx": (0, 3), "swap": (0, 2), "t_adj": (0, 1)}
QIS = {"cx": "cnot", "ccx": "ccx"}

NUM = st.one_of(
    lib.angles().map(float), st.integers(-3, 3), st.sampled_from([0, 0.0, -0.0, 1, 1.0, 0.5]),
)


def args():
    one = st.one_of(
        st.tuples(st.sampled_from(["num", "num", "const"]), NUM),
        st.tuples(st.just("int"), st.integers(-3, 3)),
        st.tuples(st.sampled_from(["q", "q", "r"]), st.integers(0, 2)),
        st.tuples(st.sampled_from(["ptr", "np"]), st.integers(0, 2)),
    )
    some = st.lists(one.map(list), max_size=4)
    return st.one_of(some, some, some, some, st.lists(one.map(list), min_size=5, max_size=20))


def instructions():
    return st.fixed_dictionaries(
        {
            "t": st.sampled_from(["BASE", "BASE", "EXTERNAL", "DECOMPOSE", "INVALID", "SKIP",
                                  "MEASUREMENT", "OUTPUT"]),
            "n": st.sampled_from(["x", "rx", "cx", "mz", "out", "foo", ""]),
            "a": args(),
            "m": st.integers(0, 1),
            "form": st.sampled_from(["list", "tuple"]),
            "bad": st.one_of(st.just(None), st.just(None), st.just(None), st.integers(0, 5)),
            "ext": st.booleans(),
        }
    )


class Mod:
    """A bare PyQIR module with external functions."""

    def __init__(self, name):
        import pyqir

        self.module = pyqir.Module(pyqir.Context(), name)
        self.context = ctx = self.module.context
        self.double, self.int64 = pyqir.Type.double(ctx), pyqir.IntType(ctx, 64)
        self.qubit = pyqir.qubit_type(ctx)
        self.qubits = [pyqir.qubit(ctx, i) for i in range(3)]
        self.results = [pyqir.result(ctx, i) for i in range(3)]
        self.builder = pyqir.Builder(ctx)

    def function(self, name, params):
        import pyqir

        t = pyqir.FunctionType(pyqir.Type.void(self.context), params)
        return pyqir.Function(t, pyqir.Linkage.EXTERNAL, qis(name), self.module)


def _modules():
    mods = [Mod(n) for n in "ab"]
    for m in mods:
        m.functions = {
            n: m.function(n, [m.double, m.qubit])
            for n in ("x", "rx", "cx", "mz", "out", "foo", "")
        }
    return mods


def _arg(mod, kind, v):
    """The argument and its description: (kind of thing, value)."""
    import pyqir

    if kind == "num":
        return v, ("p", v)
    if kind == "np":  # NumPy floats are floats
        return np.float64(v / 2), ("p", v / 2)
    if kind == "const":
        return pyqir.const(mod.double, float(v)), ("p", float(v))
    if kind == "int":
        return pyqir.const(mod.int64, v % 5), ("p", v % 5)
    if kind == "q":
        return mod.qubits[v], ("q", v)
    if kind == "r":
        return mod.results[v], ("r", v)
    byte = pyqir.PointerType(pyqir.IntType(mod.context, 8))
    return pyqir.Constant.null(byte), ("?", None)


def _near(draw_):
    """Instructions which differ from a first one in one argument, name, type or in nothing."""
    first, edits = draw_
    out = [first]
    for what, i, arg, j in edits:
        new = {**first, "a": [list(a) for a in first["a"]], "m": j % 2}
        i = i % (len(new["a"]) + 1)
        if what == "insert":
            new["a"].insert(i, arg)
        elif what == "drop":
            del new["a"][i:i + 1]
        elif what == "replace":
            new["a"][i:i + 1] = [arg]
        elif what == "swap":
            new["a"][i:i + 2] = new["a"][i:i + 2][::-1]
        elif what == "name":
            new["n"] = ["x", "rx", "cx", "mz"][j]
        elif what == "type":
            new["t"] = ["BASE", "SKIP", "MEASUREMENT", "OUTPUT"][j]
        out.append(new)
    return out


def near():
    arg = st.one_of(
        st.tuples(st.sampled_from(["num", "const"]), NUM), st.tuples(st.just("int"), st.integers(-3, 3)),
        st.tuples(st.sampled_from(["q", "r", "ptr"]), st.integers(0, 2)),
    ).map(list)
    edit = st.tuples(
        st.sampled_from(["insert", "drop", "replace", "swap", "name", "type", "same"]),
        st.integers(0, 5), arg, st.integers(0, 3),
    )
    first = instructions().map(lambda s: {**s, "bad": None, "ext": True})
    return st.tuples(first, st.lists(edit, min_size=1, max_size=6)).map(_near)


@check.sub(
    "compare",
    lambda: st.one_of(st.lists(instructions(), min_size=2, max_size=7), near()),
    quick=3000,
    thorough=60000,
)
def compare(case, ctx):
    from dwave.gate.primitives import Qubit, Variable
    from dwave.gate.qir.instructions import InstrType, Instruction

    mods = _modules()
    made = []
    for s in case:
        mod = mods[s["m"]]
        made_args = [_arg(mod, *a) for a in s["a"]]
        values = [v for v, _ in made_args]
        kind = InstrType[s["t"]]
        ext = None
        if s["ext"]:  # ignored unless the type is external
            ext = mod.functions[s["n"]]
        if s["bad"] is not None:
            wrong = ["0.5", None, Variable("a"), 1j, Qubit("0"), [0.1]][s["bad"]]
            values.insert(len(values) // 2, wrong)
        if s["form"] == "tuple":
            values = tuple(values)
        make = lambda: Instruction(kind, s["n"], values, ext)  # noqa: E731
        if s["bad"] is not None:
            lib.expect_raises(TypeError, make, f"instruction {s} with an argument {wrong!r}")
            continue
        if s["t"] == "EXTERNAL" and ext is None:
            lib.expect_raises(ValueError, make, f"instruction {s} without external function")
            continue
        ins = make()
        require(
            ins.name == s["n"] and ins.type is kind and len(ins.args) == len(values)
            and all(a is b for a, b in zip(ins.args, values)),
            lambda: f"instruction {s}: {ins.name}, {ins.type}, {ins.args}",
        )
        d = [x for _, x in made_args]
        key = (
            s["n"], s["t"], sum(k == "q" for k, _ in d), sum(k == "r" for k, _ in d),
            [v for k, v in d if k == "p"],
        )
        made.append((ins, key, s))
    for a, ka, sa in made:
        for b, kb, sb in made:
            want = ka == kb
            what = lambda: f"{sa} and {sb}"  # noqa: E731
            eq, ne = a == b, a != b
            require(eq is want, lambda: f"{what()}: == gives {eq}, expected {want}")
            require(ne is (not want), lambda: f"{what()}: != gives {ne}, expected {not want}")
            if a is not b and ka[0] == kb[0] and sa["a"] != sb["a"]:
                ctx.nontrivial()
                ctx.label("equal" if want else "different")
        for other in (None, 3, "x", a.args, a.type, a.name, object(), mods[0], mods[0].qubits[0]):
            o = lib.outcome(lambda: (a == other, a != other, other == a))
            require(
                o == ("ok", (False, True, False)),
                lambda: f"instruction {sa} compared with {other!r}: {o}",
            )


@check.sub(
    "execute",
    lambda: st.lists(
        st.fixed_dictionaries(
            {
                "k": st.sampled_from(["BASE", "BASE", "EXTERNAL", "MEASUREMENT", "DECOMPOSE",
                                      "INVALID", "SKIP", "OUTPUT"]),
                "g": st.sampled_from(sorted(BASE)),
                "p": lib.angles().map(float),
                "const": st.booleans(),
                "ext": st.booleans(),
                "q": lib.distinct(3, 3),
                "b": st.integers(0, 2),
                "twice": st.booleans(),
            }
        ),
        min_size=1, max_size=8,
    ),
    quick=1200,
    thorough=20000,
)
def execute(case, ctx):
    """Executing emits one call with the given arguments, or raises and emits nothing."""
    import pyqir
    from dwave.gate.qir.instructions import InstrType, Instruction

    mod = Mod("m")
    foo = mod.function("foo", [mod.double, mod.qubit, mod.qubit])
    entry = pyqir.entry_point(mod.module, "main", 3, 3)
    mod.builder.insert_at_end(pyqir.BasicBlock(mod.context, "entry", parent=entry))
    want = []
    for s in case:
        k = s["k"]
        npar, nq = BASE[s["g"]] if k != "EXTERNAL" else (1, 2)
        par = [pyqir.const(mod.double, s["p"]) if s["const"] else s["p"]] * npar
        qs = s["q"][:nq]
        name, vals = s["g"], par + [mod.qubits[i] for i in qs]
        call = (qis(QIS.get(s["g"], s["g"])),
                [("double", s["p"])] * npar + [("Qubit", i) for i in qs])
        ext = foo if s.get("ext") else None
        if k == "EXTERNAL":
            name, ext = "foo", foo
            call = (qis("foo"), call[1])
        elif k == "MEASUREMENT":
            name, vals = "mz", [mod.qubits[qs[0]], mod.results[s["b"]]]
            call = (qis("mz"), [("Qubit", qs[0]), ("Result", s["b"])])
        if name == "t_adj":
            call = ("__quantum__qis__t__adj", call[1])
        ins = Instruction(InstrType[k], name, vals, ext)
        for _ in range(1 + s["twice"]):
            if k in ("BASE", "EXTERNAL", "MEASUREMENT"):
                ins.execute(mod.builder)
                want.append(call)
            else:
                lib.expect_raises(TypeError, lambda: ins.execute(mod.builder), f"executing {k}")
    mod.builder.ret(None)
    got = Qir(str(mod.module)).quantum()
    ctx.nontrivial(len(want) > 1)
    require(same_calls(got, want), lambda: f"executed {got}, expected {want}")
