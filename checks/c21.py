"""C21: QIR modules compile to the same program however often they are compiled."""

from hypothesis import strategies as st

from checks import lib, qirlib
from checks.qirtext import QIS, Qir, expected_call, qis, same_calls
from vf.core import Check, fail, require

check = Check(
    "C21",
    rule=(
        "random histories over up to three modules (made from circuits or by hand, partly sharing a "
        "PyQIR context) of adding instructions and external functions, compiling, forcing, "
        "resetting and reading, against a list of calls; non-trivial: a module with an external "
        "function is compiled at least twice"
    ),
    assumptions=[
        "instructions are added to the module they were made for, external functions before their "
        "instructions, and the module is recompiled before it is read after adding",
        "each external function is added to a module once",
    ],
)

NQ, NB = 4, 3
EXT = {"rot": 3, "crx": 1, "cy": 0, "swap": 0, "foo": 2}  # number of parameters
EXT_QUBITS = {"rot": 1, "crx": 2, "cy": 2, "swap": 2, "foo": 1}
MANY = [f"fn{i}" for i in range(25)]  # for the long histories
BASE = {"x": (0, 1), "h": (0, 1), "rx": (1, 1), "rz": (1, 1), "cx": (0, 2), "cz": (0, 2),
        "t": (0, 1), "s": (0, 1), "y": (0, 1)}


def steps():
    m = st.integers(0, 2)
    nums = st.one_of(lib.angles().map(float), st.sampled_from([0.1, -0.0, 1e-300]))
    two = lib.distinct(NQ, 2)
    return st.one_of(
        st.builds(lambda m, g, p, q: {"k": "base", "m": m, "g": g, "p": p, "q": q}, m,
                  st.sampled_from(sorted(BASE)), nums, two),
        st.builds(lambda m, g, p, q: {"k": "ext", "m": m, "g": g, "p": p, "q": q}, m,
                  st.sampled_from(sorted(EXT)), st.lists(nums, min_size=3, max_size=3), two),
        st.builds(lambda m, q, b, o: {"k": "meas", "m": m, "q": q, "b": b, "o": o}, m,
                  st.integers(0, NQ - 1), st.integers(0, NB - 1), st.booleans()),
        # instructions in the other block, e.g. measurements between gates
        st.builds(lambda m, q, b, o: {"k": "meas", "m": m, "q": q, "b": b, "o": o, "x": True}, m,
                  st.integers(0, NQ - 1), st.integers(0, NB - 1), st.booleans()),
        st.builds(lambda m, g, p, q: {"k": "ext", "m": m, "g": g, "p": p, "q": q, "x": True}, m,
                  st.sampled_from(sorted(EXT)), st.lists(nums, min_size=3, max_size=3), two),
        st.builds(lambda m, g, p, q: {"k": "base", "m": m, "g": g, "p": p, "q": q, "x": True}, m,
                  st.sampled_from(sorted(BASE)), nums, two),
        st.builds(lambda m, f: {"k": "compile", "m": m, "force": f}, m, st.booleans()),
        st.builds(lambda m, f: {"k": "compile", "m": m, "force": f}, m, st.just(True)),
        st.builds(lambda m, w: {"k": "read", "m": m, "w": w}, m, st.sampled_from(["qir", "bitcode"])),
        st.builds(lambda m, w: {"k": "read", "m": m, "w": w}, m, st.sampled_from(["qir", "bitcode"])),
        st.builds(lambda m, rm: {"k": "reset", "m": m, "rm": rm}, m,
                  st.sampled_from([False, False, None, True])),
        st.builds(lambda m: {"k": "recompile3", "m": m}, m),
        st.builds(lambda m, b, f: {"k": "return", "m": m, "b": b, "f": f}, m,
                  st.one_of(st.none(), st.integers(0, NB - 1)), st.booleans()),
    )


def cases():
    mod = st.one_of(
        st.fixed_dictionaries(
            {
                "c": qirlib.circuits(max_q=NQ, max_b=NB, max_ops=5),
                "ext": st.just(True),
            }
        ),
        st.fixed_dictionaries(
            {
                "hand": st.just(True),
                "share": st.booleans(),
                "name": st.sampled_from(["m", "a b", "a.b", "x-1.2/y", "Main"]),
                "flags": st.fixed_dictionaries(
                    {},
                    optional={
                        "qir_minor_version": st.integers(0, 3),
                        "dynamic_qubit_management": st.booleans(),
                        "dynamic_result_management": st.booleans(),
                    },
                ),
            }
        ),
    )
    return st.fixed_dictionaries(
        {
            "mods": st.lists(mod, min_size=1, max_size=3),
            "steps": st.lists(steps(), min_size=2, max_size=12),
        }
    )


class Model:
    def __init__(self, module, nq, nb, flags=()):
        self.flags = dict(flags)
        self.module, self.nq, self.nb = module, nq, nb
        self.body, self.meas, self.out = [], [], []
        self.external = set()
        self.compiled = False
        self.dirty = False
        self.count = 0
        self.ret = None  # index of the result that is returned

    def compile(self, what, force):
        """Compiles; only a program that returns nothing is valid."""
        from dwave.gate.qir.compiler import CompileError

        if self.ret is not None:
            kw = {"force": True} if force or self.compiled else {}
            lib.expect_raises(CompileError, lambda: self.module.compile(**kw), f"{what}: strict")
            self.module.compile(force=True, strict=False)
        elif force:
            self.module.compile(force=True)
        else:
            self.module.compile()
        self.compiled, self.dirty = True, False
        self.count += 1

    def verify(self, text, what):
        prog = Qir(text)
        prog.check_declarations()
        want = self.body + self.meas
        got = prog.quantum()
        require(same_calls(got, want), lambda: f"{what}: calls {got}, expected {want}")
        require(
            [a[0] for a in prog.outputs()] == [("Result", b) for b in self.out],
            lambda: f"{what}: recorded {prog.outputs()}, expected {self.out}",
        )
        ext = {n for n in prog.declared if "__qis__" in n}
        need = {n for n, _ in want} | {qis(e) for e in self.external}
        require(ext == need, lambda: f"{what}: declared {sorted(ext)}, expected {sorted(need)}")
        require(
            prog.attrs.get("num_required_qubits") == str(self.nq)
            and prog.attrs.get("num_required_results") == str(self.nb),
            lambda: f"{what}: {prog.attrs}",
        )
        require(
            prog.ret == ("void" if self.ret is None else ("Result", self.ret)),
            lambda: f"{what}: returns {prog.ret}, expected {self.ret}",
        )
        require(len(prog.blocks) == 4, lambda: f"{what}: blocks {prog.order}")
        for label, mine in zip(prog.sequence, ([], self.body, self.meas, [])):
            there = [c[1:] for c in prog.blocks[label] if c[0] == "call" and "__qis__" in c[1]]
            require(
                same_calls(there, mine),
                lambda: f"{what}: calls {there} in block {label}, expected {mine}",
            )
        require(
            prog.flags == {
                k: str(v).lower()
                for k, v in {
                    "qir_major_version": 1, "qir_minor_version": 0,
                    "dynamic_qubit_management": False, "dynamic_result_management": False,
                    **self.flags,
                }.items()
            },
            lambda: f"{what}: flags {prog.flags}, asked for {self.flags}",
        )


@check.sub("history", cases, quick=4000, thorough=80000)
def history(case, ctx):
    import pyqir
    from dwave.gate.qir.compiler import BaseModule, CompileError, qir_module
    from dwave.gate.qir.instructions import InstrType, Instruction

    shared = pyqir.Context()
    models = []
    circuits = []
    for spec in case["mods"]:
        if "hand" in spec:
            kw = {"context": shared} if spec["share"] else {}
            flags = spec.get("flags", {})
            mod = BaseModule(spec["name"], NQ, NB, **kw, **flags)
            models.append(Model(mod, NQ, NB, flags))
            circuits.append(None)
        else:
            circuit, q, c, model = qirlib.build(spec["c"])
            m = Model(qir_module(circuit, add_external=True), len(q), len(c))
            m.body = [expected_call(*x) for x in model]
            m.external = {QIS[x[0]][0] for x in model if QIS[x[0]][1]}
            for x in spec["c"]["meas"]:
                m.meas += [(qis("mz"), [("Qubit", a), ("Result", b)])
                           for a, b in zip(x["q"], x["b"])]
                m.out += x["b"]
            models.append(m)
            circuits.append((circuit, qirlib.describe(circuit)))
    interesting = False
    texts = {}
    for j, s in enumerate(case["steps"]):
        at = s["m"] % len(models)
        m = models[at]
        mod = m.module
        k = s["k"]
        what = f"step {j} {s}"
        if k in ("base", "ext", "meas"):
            if m.nq < 1 or (k == "meas" and m.nb < 1):
                continue
            if k == "base":
                npar, nq = BASE[s["g"]]
                if nq > m.nq:
                    continue
                qs = [i % m.nq for i in s["q"][:nq]]
                if len(set(qs)) < len(qs):
                    continue
                pars = [s["p"]] * npar
                ins = Instruction(InstrType.BASE, s["g"], pars + [mod.qubits[i] for i in qs])
                name = {"cx": "cnot"}.get(s["g"], s["g"])
                call = (qis(name), [("double", p) for p in pars] + [("Qubit", i) for i in qs])
            elif k == "ext":
                npar, nq = EXT.get(s["g"], len(s["g"]) - 2), EXT_QUBITS.get(s["g"], 1)
                if nq > m.nq:
                    continue
                qs = [i % m.nq for i in s["q"][:nq]]
                if len(set(qs)) < len(qs):
                    continue
                if s["g"] not in m.external:
                    lib.expect_raises(
                        ValueError,
                        lambda: mod.get_external_instruction(s["g"], [0.0] * npar),
                        f"{what}: undeclared external",
                    )
                    mod.add_external_function(
                        s["g"], [mod.Types.DOUBLE] * npar + [mod.Types.QUBIT] * nq
                    )
                    m.external.add(s["g"])
                pars = s["p"][:npar]
                ins = mod.get_external_instruction(
                    s["g"], pars + [mod.qubits[i] for i in qs]
                )
                call = (qis(s["g"]), [("double", p) for p in pars] + [("Qubit", i) for i in qs])
            else:
                a, b = s["q"] % m.nq, s["b"] % m.nb
                ins = Instruction(InstrType.MEASUREMENT, "mz", (mod.qubits[a], mod.results[b]))
                call = (qis("mz"), [("Qubit", a), ("Result", b)])
            if k == "meas":
                where = s.get("x", False)
                mod.add_instruction("body" if where else "measurements", ins)
                (m.body if where else m.meas).append(call)
                if s["o"]:
                    mod.add_instruction(
                        "output", Instruction(InstrType.OUTPUT, "out", [mod.results[b]])
                    )
                    m.out.append(b)
            else:
                where = s.get("x", False)
                mod.add_instruction("measurements" if where else "body", ins)
                (m.meas if where else m.body).append(call)
            m.dirty = True
        elif k == "compile":
            if m.compiled and not s["force"]:
                lib.expect_raises(CompileError, mod.compile, f"{what}: compiled before")
            else:
                m.compile(what, s["force"])
                m.verify(mod.qir, what)
        elif k == "recompile3":
            for _ in range(3):
                m.compile(what, True)
            m.verify(mod.qir, what)
        elif k == "return":
            if m.nb < 1:
                continue
            i = None if s["b"] is None else s["b"] % m.nb
            value = None if i is None else mod.results[i]
            if m.ret is not None and not s["f"]:
                lib.expect_raises(ValueError, lambda: mod.set_return(value), f"{what}: set before")
            else:
                mod.set_return(value, force=True) if s["f"] else mod.set_return(value)
                m.dirty |= m.ret != i
                m.ret = i
        elif k == "read":
            if m.compiled and m.dirty:
                continue
            if not m.compiled and m.ret is not None:
                lib.expect_raises(CompileError, lambda: getattr(mod, s["w"]), f"{what}: strict")
                m.compile(what, True)
            if s["w"] == "qir":
                text = mod.qir
            elif m.ret is not None:
                continue  # no valid bitcode
            else:
                code = mod.bitcode
                require(mod.bitcode == code, f"{what}: reading again gives other bitcode")
                text = str(pyqir.Module.from_bitcode(pyqir.Context(), code))
            if not m.compiled:
                m.count += 1
            m.compiled, m.dirty = True, False
            m.verify(text, what)
            if s["w"] == "qir":
                require(mod.qir == text, f"{what}: reading again gives another text")
        elif k == "reset":
            if s["rm"] is False:
                mod.reset(rm_instructions=False)
            else:
                if s["rm"] is None:
                    mod.reset()
                else:
                    mod.reset(rm_instructions=True)
                m.body, m.meas, m.out, m.external, m.ret = [], [], [], set(), None
            m.compiled, m.dirty = False, False
            texts.pop(at, None)
        else:
            fail(k)
        if m.compiled and not m.dirty:
            text = mod.qir
            old = texts.get(at)
            if old is not None and old[0] == (m.body, m.meas, m.out, sorted(m.external), m.ret):
                require(
                    old[1] == text or _same(old[1], text),
                    lambda: f"{what}: compiled to another program:\n{old[1]}\n{text}",
                )
            texts[at] = ((list(m.body), list(m.meas), list(m.out), sorted(m.external),
                          m.ret), text)
        interesting |= bool(m.external) and m.count > 1
    for i, m in enumerate(models):
        if m.dirty and m.compiled:
            m.compile("end", True)
        if not m.compiled and m.ret is not None:
            m.compile("end", False)
        m.verify(m.module.qir, f"end: module {i}")
        require(
            m.module.name == (case["mods"][i].get("name") or "Circuit"),
            lambda: f"module name {m.module.name!r}",
        )
    for x in circuits:
        if x is not None:
            require(qirlib.describe(x[0]) == x[1], "a circuit was changed")
    ctx.nontrivial(interesting)


@check.sub(
    "long",
    lambda: st.fixed_dictionaries(
        {"circuit": st.booleans(), "steps": st.integers(10, 120), "k": st.integers(5, 100),
         "compile": st.sampled_from([0.05, 0.3]), "seed": st.integers(0, 2**32 - 1)}
    ),
    quick=100,
    thorough=2000,
)
def long(case, ctx):
    """Hundreds of instructions and dozens of external functions."""
    import random

    r = random.Random(case["seed"])
    steps_ = []
    for _ in range(case["steps"]):
        d = {"m": r.randrange(2), "p": r.uniform(-7, 7), "q": r.sample(range(NQ), 2),
             "b": r.randrange(NB), "o": r.random() < 0.5, "x": r.random() < 0.1}
        x = r.random()
        if x < case["compile"]:
            d.update(r.choice([{"k": "compile", "force": True}, {"k": "recompile3"},
                               {"k": "read", "w": r.choice(["qir", "bitcode"])},
                               {"k": "reset", "rm": False}]))
            if r.random() < 0.1:
                d = {"k": "reset", "m": d["m"], "rm": None}
        elif x < 0.6:
            d.update({"k": "base", "g": r.choice(sorted(BASE))})
        elif x < 0.9:
            d.update({"k": "ext", "g": r.choice(sorted(EXT) + MANY),
                      "p": [r.uniform(-7, 7) for _ in range(3)]})
        else:
            d.update({"k": "meas", "q": r.randrange(NQ)})
        steps_.append(d)
    mods = [{"hand": True, "share": True, "name": "m"}, {"hand": True, "share": True, "name": "n"}]
    if case["circuit"]:
        mods[0] = {"c": qirlib.random_circuit(case["seed"], NQ, NB, case["k"])}
    history({"mods": mods, "steps": steps_}, ctx)


TYPES = {"VOID": "void", "DOUBLE": "double", "QUBIT": "Qubit", "RESULT": "Result", "INT64": "i64",
         "INT_": "i64", "INT32": "i32", "INT1": "i1", "BOOL_": "i1"}


@check.sub(
    "signatures",
    lambda: st.fixed_dictionaries(
        {
            "share": st.booleans(),
            "functions": st.lists(
                st.fixed_dictionaries(
                    {
                        "ret": st.sampled_from([None, *sorted(TYPES)]),
                        "params": st.lists(st.sampled_from(sorted(set(TYPES) - {"VOID"})), max_size=5),
                        "module": st.integers(0, 1),
                    }
                ),
                min_size=1, max_size=4,
            ),
            "steps": st.lists(
                st.one_of(
                    st.tuples(st.just("call"), st.integers(0, 3), st.integers(0, 5), st.booleans()),
                    st.tuples(st.sampled_from(["compile", "qir", "bitcode", "reset"]), st.integers(0, 1)),
                ).map(list),
                max_size=10,
            ),
        }
    ),
    quick=600,
    thorough=10000,
)
def signatures(case, ctx):
    """External functions keep their parameter and return types in every compilation."""
    import pyqir
    from dwave.gate.qir.compiler import BaseModule

    shared = pyqir.Context()
    kw = {"context": shared} if case["share"] else {}
    mods = [BaseModule(n, NQ, NB, **kw) for n in ("m", "n")]
    want = [{}, {}]
    body, meas, dirty = [[], []], [[], []], [True, True]
    names = []
    for i, f in enumerate(case["functions"]):
        mod = mods[f["module"]]
        types = [getattr(mod.Types, t) for t in f["params"]]
        if f["ret"] is None:
            mod.add_external_function(f"f{i}", types)
        elif i % 2:
            mod.add_external_function(f"f{i}", tuple(types), getattr(mod.Types, f["ret"]))
        else:
            mod.add_external_function(f"f{i}", parameter_types=types, return_type=getattr(mod.Types, f["ret"]))
        names.append((f"f{i}", f))
        want[f["module"]][qis(f"f{i}")] = (TYPES[f["ret"] or "VOID"], [TYPES[t] for t in f["params"]])

    def verify(k, text, what):
        prog = Qir(text, void=False)
        prog.check_declarations()
        got = {n: (prog.returns[n], t) for n, t in prog.declared.items() if "__qis__" in n}
        require(got == want[k], lambda: f"{what}: declared {got}, expected {want[k]}")
        calls = prog.quantum()
        require(same_calls(calls, body[k] + meas[k]), lambda: f"{what}: calls {calls}, expected {body[k] + meas[k]}")

    def value(mod, t, n):
        if t == "DOUBLE":
            return n / 3, ("double", n / 3)
        if t == "QUBIT":
            return mod.qubits[n % NQ], ("Qubit", n % NQ)
        if t == "RESULT":
            return mod.results[n % NB], ("Result", n % NB)
        if t in ("INT64", "INT_"):
            return pyqir.const(mod.Types.INT64, n), ("i64", n)
        if t == "INT32":
            return pyqir.const(mod.Types.INT32, n), ("i32", n)
        return pyqir.const(mod.Types.BOOL_, n % 2), ("i1", n % 2)

    compiled = 0
    for j, s in enumerate(case["steps"]):
        what = f"step {j} {s}"
        if s[0] == "call":
            name, f = names[s[1] % len(names)]
            k = f["module"]
            vals = [value(mods[k], t, s[2] + i) for i, t in enumerate(f["params"])]
            ins = mods[k].get_external_instruction(name, [v for v, _ in vals])
            mods[k].add_instruction("measurements" if s[3] else "body", ins)
            (meas if s[3] else body)[k].append((qis(name), [v for _, v in vals]))
            dirty[k] = True
            continue
        k = s[1]
        if s[0] == "reset":
            mods[k].reset(rm_instructions=False)
            dirty[k] = True
            continue
        if s[0] == "compile" or dirty[k]:
            mods[k].compile(force=True)
            dirty[k] = False
            compiled += 1
        if s[0] == "bitcode":
            text = str(pyqir.Module.from_bitcode(pyqir.Context(), mods[k].bitcode))
        else:
            text = mods[k].qir
        verify(k, text, what)
    for _ in range(2):
        for k in (0, 1):
            mods[k].compile(force=True)
            verify(k, mods[k].qir, f"end, module {k}")
    ctx.nontrivial(compiled > 0 and any(f["ret"] not in (None, "VOID") for f in case["functions"]))


def _same(a, b):
    x, y = Qir(a), Qir(b)
    return (
        same_calls(x.calls, y.calls) and x.declared == y.declared and x.attrs == y.attrs
        and x.flags == y.flags and x.order == y.order
    )
