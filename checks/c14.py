"""C14: registers behave like ordered sequences of unique items."""

import copy
from decimal import Decimal
from fractions import Fraction
from numbers import Number

import numpy as np
from hypothesis import strategies as st

from checks import lib
from vf.core import Check, fail, require

check = Check(
    "C14",
    rule=(
        "random histories of all register operations over items of many hashable types, biased "
        "towards numbers near the positions, against a Python list; non-trivial: an item whose "
        "value is a position other than its own, or a removal or relabelling in the middle"
    ),
    assumptions=[
        "items do not change their hash, and equal items have equal hashes (as Python requires)",
        "numbers may come back as an equal integer; None is not an item but asks for a new label",
        "adding several items of which one is already there is unspecified beyond raising",
        "relabelling is only asked for labels that exist",
    ],
)

NITEMS = 8  # qubits, bits and variables per case


class Pool:
    def __init__(self):
        from dwave.gate.primitives import Bit, Qubit, Variable

        self.q = [Qubit("0") for _ in range(NITEMS)]
        self.b = [Bit(str(i)) for i in range(NITEMS)]
        self.v = [Variable(f"v{i}") for i in range(NITEMS)]

    def dec(self, x):
        k, v = x[0], x[1]
        if k == "i":
            return v
        if k == "f":
            return float(v)
        if k == "b":
            return bool(v)
        if k == "s":
            return v
        if k == "t":
            return tuple(v)
        if k == "fs":
            return frozenset(v)
        if k == "fr":
            return Fraction(v, x[2])
        if k == "c":
            return complex(v, x[2])
        if k == "np":
            return np.int64(v)
        if k == "npf":
            return np.float64(v)
        if k == "dec":
            return Decimal(v)
        if k == "by":
            return v.encode()
        if k == "q":
            return self.q[v]
        if k == "bit":
            return self.b[v]
        if k == "var":
            return self.v[v]
        raise KeyError(k)


def items(kind="mixed"):
    small = st.integers(-2, 9)
    ints = small.map(lambda i: ["i", i])
    i8 = st.integers(0, NITEMS - 1)
    if kind == "bits":
        return i8.map(lambda i: ["bit", i])
    if kind == "vars":
        return i8.map(lambda i: ["var", i])
    if kind == "qubits":
        return i8.map(lambda i: ["q", i])
    if kind == "ints":
        return ints
    return st.one_of(
        ints, ints, ints,
        small.map(lambda i: ["f", i]),
        st.sampled_from([["f", 0.5], ["f", 1e300], ["f", float("inf")], ["f", -0.0],
                         ["i", 2**62], ["i", 2**64], ["i", -(2**70)], ["f", 2.0**64]]),
        st.integers(0, 1).map(lambda i: ["b", i]),
        st.sampled_from(["a", "b", "0", "1", "", "ab"]).map(lambda s: ["s", s]),
        st.lists(st.integers(0, 2), max_size=2).map(lambda t: ["t", t]),
        st.lists(st.integers(0, 2), max_size=2).map(lambda t: ["fs", t]),
        st.tuples(st.integers(-2, 8), st.sampled_from([1, 2])).map(lambda t: ["fr", t[0], t[1]]),
        st.tuples(st.integers(0, 5), st.sampled_from([0, 0, 1])).map(lambda t: ["c", t[0], t[1]]),
        small.map(lambda i: ["np", i]),
        st.sampled_from([0.0, 1.0, 2.0, 2.5]).map(lambda x: ["npf", x]),
        st.sampled_from(["a", "0"]).map(lambda x: ["by", x]),
        i8.map(lambda i: ["q", i]),
        i8.map(lambda i: ["bit", i]),
        i8.map(lambda i: ["var", i]),
    )


def steps(kind):
    it = items(kind)
    i = st.integers(0, 9)
    idx = st.integers(-9, 9)
    bound = st.one_of(st.none(), st.integers(-8, 8))
    return st.one_of(
        st.builds(lambda x, h: {"k": "add", "x": x, "h": h}, it, i),
        st.builds(lambda x, h: {"k": "add", "x": x, "h": h}, it, i),
        st.builds(lambda xs, h: {"k": "addmany", "xs": xs, "h": h}, st.lists(it, max_size=4), i),
        st.builds(lambda x, p: {"k": "append", "x": x, "p": p}, st.one_of(it, st.none()),
                  st.booleans()),
        st.builds(lambda xs: {"k": "extendp", "xs": xs}, st.lists(it, max_size=4)),
        st.builds(lambda i: {"k": "getitem", "i": i}, idx),
        st.builds(lambda a, b, c, w: {"k": "slice", "a": a, "b": b, "c": c, "w": w}, bound, bound,
                  st.sampled_from([None, 1, 2, -1, -2, 3, -3]), i),
        st.builds(lambda x: {"k": "find", "x": x}, it),
        st.builds(lambda x: {"k": "index+", "x": x}, it),
        st.builds(lambda i: {"k": "remove", "i": i}, i),
        st.builds(lambda x: {"k": "removex", "x": x}, it),
        st.just({"k": "pop"}),
        st.builds(lambda m: {"k": "relabel", "m": m}, st.lists(st.tuples(i, it), max_size=4)),
        st.builds(lambda m: {"k": "permute", "m": m}, st.permutations(list(range(4)))),
        st.just({"k": "relabelint"}),
        st.just({"k": "clear"}),
        st.just({"k": "freeze"}),
        st.builds(lambda h, sw, x: {"k": "copy", "h": h, "switch": sw, "x": x},
                  st.sampled_from(["copy", "copy.copy", "deepcopy", "ctor", "add-empty"]),
                  st.booleans(), it),
        st.builds(lambda xs, sw: {"k": "plus", "xs": xs, "switch": sw}, st.lists(it, max_size=4),
                  st.booleans()),
        st.builds(lambda i, v: {"k": "value", "i": i, "v": v}, i, st.sampled_from([0, 1, 2, None])),
        st.builds(lambda o: {"k": "badindex", "o": o}, st.integers(0, 4)),
        st.builds(lambda xs: {"k": "sets", "xs": xs}, st.lists(it, max_size=4)),
    )


def _eq(a, b):
    try:
        r = a == b
        return bool(r) if isinstance(r, (bool, np.bool_)) else False  # NumPy numbers broadcast
    except Exception:  # noqa: BLE001
        return False


def _find(model, x):
    for i, y in enumerate(model):
        if y is x or _eq(y, x):
            return i
    return -1


def _unique(xs):
    out = []
    for x in xs:
        if _find(out, x) < 0:
            out.append(x)
    return out


def _same_items(got, want):
    return len(got) == len(want) and all(
        a is b or (isinstance(b, Number) and _eq(a, b)) or (
            not isinstance(b, Number) and type(a) is type(b) and _eq(a, b))
        for a, b in zip(got, want)
    )


def verify(reg, model, cls, frozen, what):
    require(type(reg) is cls, lambda: f"{what}: {type(reg)}")
    got = list(reg)
    require(_same_items(got, model), lambda: f"{what}: register {got}, expected {model}")
    require(len(reg) == len(model), lambda: f"{what}: length {len(reg)}, expected {len(model)}")
    require(_same_items(list(reg.data), model), lambda: f"{what}: data {reg.data}")
    require(reg.frozen is frozen, lambda: f"{what}: frozen is {reg.frozen}")
    for i, x in enumerate(model):
        require(reg.count(x) == 1 and x in reg, lambda: f"{what}: {x!r} counted {reg.count(x)}")
        require(reg.index(x) == i, lambda: f"{what}: {x!r} is at {reg.index(x)}, expected {i}")
        require(
            _same_items([reg[i], reg[i - len(model)]], [x, x]),
            lambda: f"{what}: item {i} is {reg[i]!r} / {reg[i - len(model)]!r}, expected {x!r}",
        )


def cases():
    def mk(t):
        kind, cls = t
        return st.fixed_dictionaries(
            {
                "cls": st.just(cls),
                "kind": st.just(kind),
                "init": st.one_of(
                    st.none(),
                    st.lists(items(kind), max_size=6).map(lambda x: {"xs": x, "as": "list"}),
                    st.lists(items(kind), max_size=6).map(lambda x: {"xs": x, "as": "tuple"}),
                    st.lists(items(kind), max_size=6).map(lambda x: {"xs": x, "as": "gen"}),
                    st.lists(items(kind), max_size=6).map(lambda x: {"xs": x, "as": "reg"}),
                    (
                        st.tuples(st.integers(-1, 2), st.integers(-1, 6),
                                  st.sampled_from([1, 1, 1, 2, -1])).map(
                            lambda r: {"range": list(r)})
                        if kind in ("ints", "mixed")
                        else st.none()
                    ),
                ),
                "steps": st.lists(steps(kind), min_size=3, max_size=14),
                "eager": st.sampled_from([True, True, False]),
            }
        )

    return st.sampled_from(
        [("mixed", "Register"), ("mixed", "Register"), ("ints", "Register"), ("ints", "Register"),
         ("qubits", "QuantumRegister"), ("bits", "ClassicalRegister"), ("vars", "Register"),
         ("bits", "Register")]
    ).flatmap(mk)


@check.sub("history", cases, quick=7000, thorough=150000)
def history(case, ctx):
    import dwave.gate.registers as regs
    from dwave.gate.primitives import Bit, Qubit
    from dwave.gate.registers import RegisterError

    cls = getattr(regs, case["cls"])
    pool = Pool()
    init = case["init"]
    model = []
    interesting = False
    if init is None:
        reg = cls()
    elif "range" in init:
        r = range(*init["range"])
        reg, model = cls(r), list(r)
    else:
        xs = [pool.dec(x) for x in init["xs"]]
        model = _unique(xs)
        src = {"list": list, "tuple": tuple, "gen": lambda v: (y for y in v),
               "reg": lambda v: cls(v)}[init["as"]](xs)
        reg = cls(src)
    frozen = False
    others = []  # (register, model, frozen) which must never change any more
    verify(reg, model, cls, frozen, "initial")
    for j, s in enumerate(case["steps"]):
        k = s["k"]
        what = f"step {j} {s}"
        if k == "value":
            # numbers equal to set bits or variables would have another hash
            if case["kind"] in ("bits", "vars"):
                it = (pool.b if case["kind"] == "bits" else pool.v)[s["i"] % NITEMS]
                if s["v"] is None:
                    it.reset()
                elif case["kind"] == "bits":
                    it.set(s["v"], force=True)
                else:
                    it.set(s["v"])
        elif k in ("add", "addmany"):
            xs = [pool.dec(x) for x in ([s["x"]] if k == "add" else s["xs"])]
            new = model + xs
            arg = xs
            if k == "add" and s["h"] % 3 == 0 and not isinstance(xs[0], (tuple, bytes)):
                arg = xs[0]
            elif s["h"] % 3 == 1:
                arg = tuple(xs)
            elif s["h"] % 6 == 2:
                arg = cls(xs)
                new = model + _unique(xs)
            if frozen:
                lib.expect_raises(RegisterError, lambda: reg.add(arg), f"{what}: frozen")
            elif len(_unique(new)) == len(new):
                reg.add(arg)
                model = new
            elif len(xs) == 1:
                lib.expect_raises(ValueError, lambda: reg.add(arg), f"{what}: item exists")
            else:
                # unspecified how many were added; use a copy
                lib.expect_raises(ValueError, lambda: reg.copy().add(arg), f"{what}: item exists")
        elif k == "append":
            x = None if s["x"] is None else pool.dec(s["x"])
            if x is None and case["kind"] in ("bits", "vars"):
                continue  # a label could equal the value of a bit or variable, with another hash
            if x is None:
                got = reg._append()
                if _find(model, len(model)) < 0:
                    want = len(model)
                else:
                    want = next(i for i in range(len(model) + 1)
                                if _find(model, i) < 0)
                require(_eq(got, want), lambda: f"{what}: new label {got!r}, expected {want!r}")
                model = model + [want]
            elif _find(model, x) < 0:
                got = reg._append(x, permissive=s["p"])
                require(_eq(got, x), lambda: f"{what}: returned {got!r}")
                model = model + [x]
            elif s["p"]:
                got = reg._append(x, permissive=True)
                require(_eq(got, x), lambda: f"{what}: returned {got!r}")
            else:
                lib.expect_raises(ValueError, lambda: reg._append(x), f"{what}: item exists")
        elif k == "extendp":
            xs = [pool.dec(x) for x in s["xs"]]
            reg._extend(xs, permissive=True)
            model = _unique(model + xs)
        elif k == "getitem":
            i = s["i"]
            if -len(model) <= i < len(model):
                require(_same_items([reg[i]], [model[i]]), lambda: f"{what}: {reg[i]!r}")
                require(_same_items([reg[np.int64(i)]], [model[i]]), f"{what}: NumPy index")
            else:
                lib.expect_raises(IndexError, lambda: reg[i], what)
        elif k == "slice":
            sl = slice(s["a"], s["b"], s["c"])
            part = reg[sl]
            verify(part, model[sl], cls, False, f"{what}: slice")
            if s["w"] % 3 == 0:
                extra = {"Register": lambda: "zz", "QuantumRegister": lambda: Qubit("x"),
                         "ClassicalRegister": lambda: Bit("x")}[case["cls"]]()
                part._append(extra)
                part._pop()
                part._append(extra)
                verify(reg, model, cls, frozen, f"{what}: after changing the slice")
            else:
                others.append((part, model[sl], False))
        elif k == "find":
            x = pool.dec(s["x"])
            at = _find(model, x)
            require(reg.count(x) == (at >= 0), lambda: f"{what}: count {reg.count(x)}")
            require((x in reg) == (at >= 0), lambda: f"{what}: contained: {x in reg}")
            if at >= 0:
                require(reg.index(x) == at, lambda: f"{what}: index {reg.index(x)} not {at}")
                interesting |= isinstance(x, Number) and 0 <= abs(x) < len(model) and x != at
            else:
                lib.expect_raises(ValueError, lambda: reg.index(x), f"{what}: missing")
        elif k == "index+":
            x = pool.dec(s["x"])
            at = _find(model, x)
            if at < 0 and frozen:
                lib.expect_raises(
                    RegisterError, lambda: reg.index(x, permissive=True), f"{what}: frozen"
                )
            else:
                got = reg.index(x, permissive=True)
                if at < 0:
                    at, model = len(model), model + [x]
                require(got == at, lambda: f"{what}: index {got}, expected {at}")
        elif k in ("remove", "removex"):
            if k == "remove":
                if not model:
                    continue
                x = model[s["i"] % len(model)]
            else:
                x = pool.dec(s["x"])
            at = _find(model, x)
            if at < 0:
                lib.expect_raises(ValueError, lambda: reg._remove(x), f"{what}: missing")
            else:
                reg._remove(x)
                interesting |= at < len(model) - 1
                model = model[:at] + model[at + 1:]
        elif k == "pop":
            if not model:
                lib.expect_raises(IndexError, reg._pop, f"{what}: empty")
            else:
                got = reg._pop()
                require(_same_items([got], [model[-1]]), lambda: f"{what}: {got!r}")
                model = model[:-1]
        elif k in ("relabel", "permute"):
            if not model:
                continue
            if k == "permute":
                old = model[: len(s["m"])]
                order = [m for m in s["m"] if m < len(old)]
                pairs = [(i, old[m]) for i, m in enumerate(order)]
            else:
                pairs = [(a % len(model), pool.dec(x)) for a, x in s["m"]]
                pairs = list(dict(pairs).items())
            mapping = {model[a]: x for a, x in pairs}
            new = list(model)
            for a, x in pairs:
                new[a] = x
            given = dict(mapping)
            targets = [x for _, x in pairs]
            if len(_unique(targets)) < len(targets) or len(_unique(new)) < len(new):
                lib.expect_raises(ValueError, lambda: reg._relabel(mapping), f"{what}: conflict")
            else:
                reg._relabel(mapping)
                interesting |= any(_eq(a, b) is False for a, b in zip(model[:-1], new[:-1]))
                model = new
            require(mapping == given, f"{what}: the mapping was changed")
        elif k == "relabelint":
            back = reg._relabel_as_integers()
            verify(reg, list(range(len(model))), cls, frozen, f"{what}: as integers")
            reg._relabel(back)
            verify(reg, model, cls, frozen, f"{what}: labels restored")
        elif k == "clear":
            if j % 3 == 0:
                reg._clear()
                model = []
        elif k == "freeze":
            reg.freeze()
            frozen = True
        elif k == "copy":
            h = s["h"]
            if h == "deepcopy" and case["kind"] == "mixed":
                h = "copy"  # deep copies of identity-compared items are other items
            new = {
                "copy": lambda: reg.copy(), "copy.copy": lambda: copy.copy(reg),
                "deepcopy": lambda: copy.deepcopy(reg), "ctor": lambda: cls(reg),
                "add-empty": lambda: reg + cls(),
            }[h]()
            require(new is not reg, f"{what}: the copy is the register itself")
            if h == "deepcopy":
                require(
                    len(new) == len(model) and all(_eq(a, b) for a, b in zip(new, model)),
                    lambda: f"{what}: {new}, expected {model}",
                )
                continue
            verify(new, model, cls, False, f"{what}: copy")
            x = pool.dec(s["x"])
            if _find(model, x) < 0:
                new.add([x])
                verify(new, model + [x], cls, False, f"{what}: copy added to")
                verify(reg, model, cls, frozen, f"{what}: original after adding to the copy")
                new._pop()
            if s["switch"]:
                others.append((reg, model, frozen))
                reg, frozen = new, False
            else:
                others.append((new, model, False))
        elif k == "plus":
            xs = _unique([pool.dec(x) for x in s["xs"]])
            other = cls(xs)
            both = model + xs
            if len(_unique(both)) < len(both):
                lib.expect_raises(ValueError, lambda: reg + other, f"{what}: common items")
            else:
                new = reg + other
                verify(new, both, cls, False, f"{what}: sum")
                if s["switch"]:
                    others.append((reg, model, frozen))
                    reg, model, frozen = new, both, False
                else:
                    others.append((new, both, False))
            verify(other, xs, cls, False, f"{what}: summand")
        elif k == "badindex":
            bad = ["0", 0.0, None, (0,), 1.5][s["o"]]
            lib.expect_raises(TypeError, lambda: reg[bad], what)
            require(reg.count([1]) == 0, "unhashable values are not contained")
            lib.expect_raises(ValueError, lambda: reg.index([1]), "index of an unhashable value")
            if not frozen:
                lib.expect_raises(TypeError, lambda: reg.add([[1]]), "adding an unhashable value")
        elif k == "sets":
            xs = _unique([pool.dec(x) for x in s["xs"]])
            other = cls(xs)
            common = [x for x in model if _find(xs, x) >= 0]
            require(reg.isdisjoint(other) == (not common), f"{what}: isdisjoint")
            require(_setlike(reg & other, common), lambda: f"{what}: {reg & other}")
            require(_setlike(reg | other, _unique(model + xs)), lambda: f"{what}: {reg | other}")
            require(
                _setlike(reg - other, [x for x in model if _find(xs, x) < 0]),
                lambda: f"{what}: {reg - other}",
            )
            require(
                (reg <= other) == (len(common) == len(model)), lambda: f"{what}: {reg} <= {other}"
            )
        else:
            fail(f"unknown step {k}")
        if case["eager"]:
            verify(reg, model, cls, frozen, what)
            for r, m, f in others[-3:]:
                verify(r, m, cls, f, f"{what}: another register")
    verify(reg, model, cls, frozen, "end")
    require(_same_items(list(reversed(reg)), model[::-1]), "reversed")
    for r, m, f in others:
        verify(r, m, cls, f, "end: another register")
    interesting |= any(
        isinstance(x, Number) and x != i and _find(list(range(len(model))), x) >= 0
        for i, x in enumerate(model)
    )
    ctx.nontrivial(interesting)


def _setlike(reg, want):
    got = list(reg)
    return len(got) == len(want) and all(_find(want, x) >= 0 for x in got)


@check.sub(
    "large",
    lambda: st.fixed_dictionaries(
        {"n": st.integers(10, 250), "steps": st.integers(2, 8), "gap": st.sampled_from([0, 1, 5]),
         "kind": st.sampled_from(["ints", "ints", "strings"]), "seed": st.integers(0, 2**32 - 1)}
    ),
    quick=150,
    thorough=3000,
)
def large(case, ctx):
    """Registers of hundreds of items, most of which are numbers near (or at) their positions."""
    import random

    r = random.Random(case["seed"])
    n = case["n"]
    pool = list(range(n + case["gap"]))
    if case["kind"] == "strings" or r.random() < 0.5:
        r.shuffle(pool)

    def item(i):
        return ["i", i] if case["kind"] == "ints" else ["s", f"s{i}"]

    def new():
        return item(r.randrange(-3, n + 30))

    def bound():
        return r.choice([None, r.randrange(-n - 3, n + 3)])

    steps_ = []
    for _ in range(case["steps"]):
        k = r.choice(["add", "addmany", "append", "extendp", "getitem", "slice", "find", "index+",
                      "remove", "remove", "removex", "pop", "relabel", "relabelint", "copy", "plus",
                      "sets"])
        steps_.append(
            {
                "k": k, "x": new(), "xs": [new() for _ in range(r.choice([2, 20]))],
                "h": r.choice(["copy", "copy.copy", "ctor"]) if k == "copy" else r.randrange(10),
                "p": r.random() < 0.5, "i": r.randrange(-n, n), "a": bound(), "b": bound(),
                "c": r.choice([None, 1, 2, -1, -2, 7, -7]), "w": 1,
                "m": [(r.randrange(n), new()) for _ in range(r.choice([1, 2, 15]))],
                "switch": r.random() < 0.5,
            }
        )
    history(
        {"cls": "Register", "kind": "ints", "eager": False, "steps": steps_,
         "init": {"xs": [item(i) for i in pool[:n]], "as": "list"}},
        ctx,
    )
