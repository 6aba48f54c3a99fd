"""C15: self-incrementing registers create exactly the variables asked for."""

import copy

import numpy as np
from hypothesis import strategies as st

from checks import lib
from vf.core import Check, fail, require

check = Check(
    "C15",
    rule=(
        "random histories of indexing (far past the end, negative, slices), adding, freezing, "
        "copying and setting values, and of parametric circuits being recorded, locked, unlocked "
        "and reset, against a list of variables; non-trivial: the register grew by several "
        "variables after a growth by another access, or an access to a frozen register was refused"
    ),
    assumptions=[
        "variables added by the user have names that are no numbers",
    ],
)

IDX = st.one_of(st.integers(0, 6), st.integers(0, 3), st.integers(0, 40), st.integers(-8, -1))


def reg_steps():
    bound = st.one_of(st.none(), st.integers(-8, 12))
    return st.one_of(
        st.builds(lambda i, n: {"k": "get", "i": i, "np": n}, IDX, st.booleans()),
        st.builds(lambda i, n: {"k": "get", "i": i, "np": n}, IDX, st.booleans()),
        st.builds(lambda d: {"k": "getrel", "d": d}, st.integers(-2, 4)),
        st.builds(lambda a, b, c: {"k": "slice", "a": a, "b": b, "c": c}, bound, bound,
                  st.sampled_from([None, 1, 2, -1, -2])),
        st.builds(lambda i, v: {"k": "value", "i": i, "v": v}, st.integers(0, 9),
                  st.sampled_from([0, 1, 2, 3, 0.5, None])),
        st.builds(lambda n: {"k": "add", "n": n}, 
                  st.sampled_from(["a", "b", "x1", "theta", "1", "3", "4", "6"])),
        st.just({"k": "freeze"}),
        st.builds(lambda h, sw: {"k": "copy", "h": h, "switch": sw},
                  st.sampled_from(["copy", "copy.copy", "ctor", "plus", "deepcopy"]),
                  st.booleans()),
        st.builds(lambda i: {"k": "find", "i": i}, st.integers(0, 9)),
        st.builds(lambda n: {"k": "index+", "n": n}, st.sampled_from(["a", "x1", "theta", "0"])),
    )


def _check(reg, model, frozen, what):
    from dwave.gate.primitives import Variable
    from dwave.gate.registers import SelfIncrementingRegister

    got = list(reg)
    require(type(reg) is SelfIncrementingRegister, lambda: f"{what}: {type(reg)}")
    require(
        len(got) == len(model) == len(reg) and all(a is b[0] for a, b in zip(got, model)),
        lambda: f"{what}: register {got}, expected {[m[0] for m in model]}",
    )
    require(reg.frozen is frozen, lambda: f"{what}: frozen {reg.frozen}")
    for i, (v, name, value) in enumerate(model):
        require(type(v) is Variable and v.name == name, lambda: f"{what}: variable {i}: {v.name!r}")
        require(
            v.value is value if value is None else v.value == value,
            lambda: f"{what}: value of variable {i} is {v.value}, expected {value}",
        )
        require(reg.index(v) == i, lambda: f"{what}: variable {i} found at {reg.index(v)}")


@check.sub(
    "register",
    lambda: st.fixed_dictionaries(
        {
            "init": st.lists(st.sampled_from(["a0", "b0", "c0", "0", "2", "3"]), max_size=3, unique=True),
            "steps": st.lists(reg_steps(), min_size=2, max_size=14),
        }
    ),
    quick=6000,
    thorough=150000,
)
def register(case, ctx):
    from dwave.gate.primitives import Variable
    from dwave.gate.registers import RegisterError, SelfIncrementingRegister

    first = [Variable(n) for n in case["init"]]
    reg = SelfIncrementingRegister(first) if first else SelfIncrementingRegister()
    model = [[v, v.name, None] for v in first]
    frozen = False
    others = []
    grown = 0
    interesting = False

    def grow(i):
        """the register has been asked for index i"""
        nonlocal grown, interesting
        if i >= len(model):
            grown += 1
            interesting |= grown > 1 and i > len(model)
            used = {m[1] for m in model}
            free = used.isdisjoint(str(k) for k in range(len(model), i + 1))
            for k in range(len(model), i + 1):
                # names in use are avoided
                v = reg[k]
                require(
                    v.name == str(k) if free else v.name not in used,
                    lambda: f"created {v.name!r} at {k}; in use: {used}",
                )
                used.add(v.name)
                model.append([v, v.name, None])

    for j, s in enumerate(case["steps"]):
        k = s["k"]
        what = f"step {j} {s}"
        if k in ("get", "getrel"):
            i = s["i"] if k == "get" else max(0, len(model) + s["d"])
            key = np.int64(i) if s.get("np") else i
            if i >= len(model) and frozen:
                lib.expect_raises(IndexError, lambda: reg[key], f"{what}: frozen")
                interesting = True
            elif i < -len(model):
                lib.expect_raises(IndexError, lambda: reg[key], what)
            else:
                n = len(model)
                v = reg[key]
                require(
                    len(reg) == max(n, i + 1),
                    lambda: f"{what}: length {len(reg)}, expected {max(n, i + 1)}",
                )
                grow(i)
                require(v is model[i][0], lambda: f"{what}: got {v!r} instead of {model[i][0]!r}")
        elif k == "slice":
            sl = slice(s["a"], s["b"], s["c"])
            part = reg[sl]
            want = [m[0] for m in model][sl]
            require(
                len(part) == len(want) and all(a is b for a, b in zip(part, want)),
                lambda: f"{what}: {list(part)}, expected {want}",
            )
        elif k == "value":
            if not model:
                continue
            m = model[s["i"] % len(model)]
            # set the variable through the register, where it must be the same object
            v = reg[s["i"] % len(model)]
            if s["v"] is None:
                v.reset()
            else:
                v.set(s["v"])
            for lst in [model] + [o[1] for o in others]:
                for x in lst:
                    if x[0] is m[0]:
                        x[2] = s["v"]
        elif k == "add":
            v = Variable(s["n"])
            if frozen:
                lib.expect_raises(RegisterError, lambda: reg.add(v), f"{what}: frozen")
            elif any(m[1] == s["n"] for m in model):
                lib.expect_raises(ValueError, lambda: reg.add(v), f"{what}: exists")
            else:
                reg.add(v)
                model.append([v, s["n"], None])
        elif k == "freeze":
            reg.freeze()
            frozen = True
        elif k == "copy":
            new = {
                "copy": lambda: reg.copy(),
                "copy.copy": lambda: copy.copy(reg),
                "ctor": lambda: SelfIncrementingRegister(reg),
                "plus": lambda: reg + SelfIncrementingRegister(),
                "deepcopy": lambda: copy.deepcopy(reg),
            }[s["h"]]()
            if s["h"] == "deepcopy":
                require(
                    [v.name for v in new] == [m[1] for m in model]
                    and [v.value for v in new] == [m[2] for m in model],
                    lambda: f"{what}: deep copy {list(new)}",
                )
                require(
                    all(v is not m[0] for v, m in zip(new, model)),
                    f"{what}: the deep copy shares variables",
                )
                continue
            nmodel = [list(m) for m in model]
            if s["switch"]:
                others.append((reg, model, frozen))
                reg, model, frozen = new, nmodel, False
            else:
                others.append((new, nmodel, False))
        elif k == "find":
            name = ["0", "1", "2", "5", "a", "x1", "theta", "a0", "zz", "9"][s["i"]]
            at = next((i for i, m in enumerate(model) if m[1] == name), -1)
            require(
                (Variable(name) in reg) == (at >= 0), lambda: f"{what}: {name} in register wrong"
            )
            if at >= 0:
                require(reg.index(Variable(name)) == at, f"{what}: index")
        elif k == "index+":
            v = Variable(s["n"])
            at = next((i for i, m in enumerate(model) if m[1] == s["n"]), -1)
            if at < 0 and frozen:
                lib.expect_raises(
                    RegisterError, lambda: reg.index(v, permissive=True), f"{what}: frozen"
                )
            else:
                got = reg.index(v, permissive=True)
                if at < 0:
                    at = len(model)
                    model.append([v, s["n"], None])
                require(got == at, lambda: f"{what}: index {got}, expected {at}")
        else:
            fail(k)
        _check(reg, model, frozen, what)
    for r, m, f in others:
        _check(r, m, f, "end: another register")
    ctx.nontrivial(interesting)


# --------------------------------------------------------------------------------------------- #


def circ_steps():
    use = st.lists(
        st.one_of(
            st.integers(0, 5).map(lambda i: ["RX", i]),
            st.tuples(st.integers(0, 6), st.integers(0, 6), st.integers(0, 6)).map(
                lambda t: ["Rotation", *t]
            ),
            st.integers(0, 12).map(lambda i: ["RZ", i]),
            st.integers(0, 12).map(lambda i: ["touch", i]),
            st.integers(-5, -1).map(lambda i: ["RY", i]),
        ),
        max_size=4,
    )
    return st.one_of(
        st.builds(lambda u, e: {"k": "context", "use": u, "fail": e}, use,
                  st.sampled_from([False, False, True])),
        st.builds(lambda u, e: {"k": "context", "use": u, "fail": e}, use, st.just(False)),
        st.just({"k": "unlock"}),
        st.just({"k": "unlock"}),
        st.just({"k": "lock"}),
        st.just({"k": "reset"}),
        st.builds(lambda i: {"k": "get", "i": i}, st.integers(0, 8)),
        st.builds(lambda i: {"k": "apply", "seed": i}, st.integers(0, 99)),
        st.builds(lambda ii, v: {"k": "set", "ii": ii, "v": v},
                  st.lists(st.integers(0, 8), min_size=1, max_size=3),
                  st.sampled_from([0, 0.0, 0.5, 1, -1.5])),
        st.just({"k": "clear"}),
    )


@check.sub(
    "circuit",
    lambda: st.fixed_dictionaries({"steps": st.lists(circ_steps(), min_size=2, max_size=10)}),
    quick=4000,
    thorough=100000,
)
def circuit(case, ctx):
    import dwave.gate.operations as ops
    from dwave.gate.circuit import Circuit, CircuitError, ParametricCircuit

    pc = ParametricCircuit(1)
    names = []  # of the variables that should exist
    first = {}  # the variable objects by index
    ops_model = []  # (gate, indices)
    values = {}  # by index
    locked = frozen = False
    contexts = 0
    interesting = False
    reg = lib.params_of(pc)
    for j, s in enumerate(case["steps"]):
        k = s["k"]
        what = f"step {j} {s}"
        if k == "context":
            if locked:
                def enter():
                    with pc.context as regs:
                        regs.p[99]

                lib.expect_raises(CircuitError, enter, f"{what}: locked circuit")
            else:
                contexts += 1
                try:
                    with pc.context as regs:
                        reg = regs.p
                        require(
                            len(reg) == len(names),
                            lambda: f"{what}: {len(reg)} parameters on entering",
                        )
                        for g, *ii in s["use"]:
                            n = len(names)
                            if frozen or any(i < -n for i in ii):
                                if any(i >= n or i < -n for i in ii):
                                    lib.expect_raises(
                                        IndexError, lambda: [regs.p[i] for i in ii if i >= n or i < -n],
                                        f"{what}: {g}{ii} without growth",
                                    )
                                    interesting = True
                                    continue
                            pars = [regs.p[i] for i in ii]
                            for i in ii:
                                interesting |= contexts > 1 and i > len(names)
                                while len(names) <= i:
                                    names.append(str(len(names)))
                            full = [i % len(names) for i in ii]
                            for i, v in zip(full, pars):
                                require(
                                    v.name == str(i) and first.setdefault(i, v) is v,
                                    lambda: f"{what}: {g}{ii}: variable {v.name} at {i}",
                                )
                            require(
                                pc.num_parameters == len(names),
                                lambda: f"{what}: {g}{ii}: {pc.num_parameters} parameters, "
                                f"expected {len(names)}",
                            )
                            if g != "touch":
                                # the first operation with a variable makes the circuit parametric
                                getattr(ops, g)(pars, regs.q[0])
                                ops_model.append((g, full))
                        if s["fail"]:
                            raise KeyError("fault")
                except KeyError:
                    require(s["fail"], f"{what}: unexpected KeyError")
                locked = frozen = True
        elif k == "unlock":
            pc.unlock()
            locked = frozen = False
        elif k == "lock":
            pc.lock()
            locked = True
        elif k == "reset":
            pc.reset()
            ops_model = []
            locked = frozen = False
        elif k == "get":
            i = s["i"]
            if i < len(names):
                v = reg[i]
                require(first.setdefault(i, v) is v and v.name == str(i), f"{what}: variable")
            elif frozen:
                lib.expect_raises(IndexError, lambda: reg[i], f"{what}: frozen")
                interesting = True
        elif k == "apply":
            if not names:
                continue
            rng = np.random.default_rng(s["seed"])
            par = [float(x) for x in rng.normal(size=len(names))]
            outer = Circuit(1)
            with outer.context as regs:
                pc(par, regs.q)
            got = [[float(p) for p in op.parameters] for op in outer.circuit]
            want = [[par[i] for i in ii] for _, ii in ops_model]
            require(got == want, lambda: f"{what}: applied {got}, expected {want}")
            values = {}
        elif k == "set":
            for i in {i % len(names) for i in s["ii"]} if names else ():
                reg[i].set(s["v"])
                values[i] = s["v"]
        elif k == "clear":
            pc.reset_variables()
            values = {}
        if k == "reset":
            # whether the variables keep their values is unspecified
            values = {i: v.value for i, v in enumerate(reg) if v.value is not None}
        for i, v in enumerate(reg):
            w = values.get(i)
            require(
                v.value is None if w is None else v.value == w,
                lambda: f"{what}: variable {i} has value {v.value}, expected {w}",
            )
        require(
            pc.num_parameters == len(names) == len(reg),
            lambda: f"{what}: {pc.num_parameters} parameters, expected {len(names)}",
        )
        require(pc.parametric == bool(names), lambda: f"{what}: parametric {pc.parametric}")
        require([v.name for v in reg] == names, lambda: f"{what}: names {[v.name for v in reg]}")
        require(reg.frozen is frozen, lambda: f"{what}: frozen is {reg.frozen}")
        got = [(type(o).__name__, [v for v in o.parameters]) for o in pc.circuit]
        require(
            [g for g, _ in got] == [g for g, _ in ops_model]
            and all(
                len(a) == len(b) and all(v is first[i] for v, i in zip(a, b))
                for (_, a), (_, b) in zip(got, ops_model)
            ),
            lambda: f"{what}: operations {got}, expected {ops_model}",
        )
    ctx.nontrivial(interesting)


@check.sub(
    "large",
    lambda: st.fixed_dictionaries(
        {"top": st.sampled_from([30, 120, 400]), "steps": st.integers(2, 12),
         "seed": st.integers(0, 2**32 - 1)}
    ),
    quick=100,
    thorough=2500,
)
def large(case, ctx):
    """Registers and circuits with hundreds of variables."""
    import random

    r = random.Random(case["seed"])
    top = case["top"]

    def index():
        return r.randrange(-4, top)

    steps = []
    for _ in range(case["steps"]):
        k = r.choice(["get"] * 4 + ["getrel", "slice", "value", "add", "freeze", "copy", "find", "index+"])
        steps.append(
            {
                "k": k, "i": r.randrange(10) if k == "find" else index(), "np": r.random() < 0.3,
                "d": r.randrange(-2, 15),
                "a": r.choice([None, index()]), "b": r.choice([None, index()]),
                "c": r.choice([None, 1, 3, -1]), "v": r.choice([0, 1, 0.5, None]),
                "n": r.choice(["a", "b", "x1", "theta"]), "switch": r.random() < 0.5,
                "h": r.choice(["copy", "copy.copy", "ctor", "plus", "deepcopy"]),
            }
        )
    register({"init": r.choice([[], [], ["a0"]]), "steps": steps}, ctx)
    steps = []
    for _ in range(case["steps"]):
        k = r.choice(["context"] * 4 + ["unlock"] * 4 + ["apply", "set", "get", "reset", "clear"])
        use = [
            [g] + [r.randrange(top) for _ in range(3 if g == "Rotation" else 1)]
            for g in r.choices(["RX", "RZ", "Rotation", "touch"], k=r.randint(1, 12))
        ]
        steps.append(
            {"k": k, "use": use, "fail": r.random() < 0.2, "i": index() % top,
             "seed": r.randrange(100), "ii": [index() % top for _ in range(r.randint(1, 20))],
             "v": 0.5}
        )
    circuit({"steps": steps}, ctx)
