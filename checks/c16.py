"""C16: qubits, bits and variables keep unique identities and exact values."""

import math
import warnings
from decimal import Decimal
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from checks import lib
from vf.core import Check, fail, require

check = Check(
    "C16",
    rule=(
        "counters of random initial length and batch size, drawn from up to exhaustion, and random "
        "histories of creating, labelling, setting, resetting and comparing qubits, bits and "
        "variables; non-trivial: the identifiers passed a change of length or were exhausted, or a "
        "0 value was set, or equal labels/names occurred"
    ),
    assumptions=[
        "positive batch sizes; the counter is not reset while its identifiers are in use",
    ],
)

CHARS = 36


def _total(length):
    return sum(math.comb(CHARS, r) for r in range(length, CHARS + 1))


@check.sub(
    "counter",
    lambda: st.fixed_dictionaries(
        {
            "length": st.one_of(st.sampled_from([1, 1, 2, 33, 34, 34, 35, 35, 36, 37]),
                                st.integers(1, 36), st.none()),
            "batch": st.one_of(st.integers(1, 40), st.sampled_from([1, 2, 36, 37, 100, 666, 667,
                                                                    668, 1000, 5000]), st.none()),
            "draws": st.one_of(st.integers(0, 80), st.sampled_from([700, 1500])),
            "refresh": st.lists(st.integers(0, 100), max_size=3),
            "then": st.sampled_from([None, "drain", "drain", "reset", "reset-default"]),
        }
    ),
    quick=900,
    thorough=15000,
    fixed=lambda: [
        {"length": length, "batch": b, "draws": 0, "refresh": [], "then": "drain"}
        for length in (33, 34, 35, 36)
        for b in (1, 2, 3, 7, 36, 37, 38, 629, 630, 631, 666, 667, 668, 1000)
        if length > 33 or b in (7, 630, 1000)
    ]
    + [{"length": length, "batch": 1000, "draws": 6000, "refresh": [], "then": None}
       for length in (1, 2, 3, 4, 18)],
)
def counter(case, ctx):
    from dwave.gate.tools.counters import IDCounter

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            _counter(case, ctx, IDCounter)
        finally:
            IDCounter.reset()


def _counter(case, ctx, IDCounter):
    length, batch = case["length"] or 4, case["batch"] or 1000
    total = _total(length)
    for again in range(2 if case["then"] in ("reset", "reset-default") else 1):
        if again and case["then"] == "reset-default":
            IDCounter.reset()
            require(
                (IDCounter.length, IDCounter.batch) == (4, 1000),
                lambda: f"defaults {IDCounter.length}, {IDCounter.batch}",
            )
            length, batch = 4, 1000
            total = _total(length)
        else:
            IDCounter.reset(length=case["length"], batch=case["batch"])
        seen = set()

        def draw():
            try:
                x = IDCounter.next()
            except ValueError:
                require(
                    len(seen) == total,
                    lambda: f"no identifier left after {len(seen)} of {total}",
                )
                return False
            require(isinstance(x, str) and x.isalnum(), lambda: f"identifier {x!r}")
            require(x not in seen, lambda: f"identifier {x!r} repeats after {len(seen)}")
            require(len(x) >= length, lambda: f"identifier {x!r} is shorter than {length}")
            if not case["refresh"] and (len(seen) // batch + 1) * batch <= math.comb(CHARS, length):
                require(len(x) == length, lambda: f"identifier {x!r} is longer than {length}")
            seen.add(x)
            return True

        left = True
        for i in range(case["draws"]):
            if i in case["refresh"]:
                try:
                    IDCounter.refresh()
                except ValueError:
                    require(len(seen) == total, "refreshing failed before all were used")
            left = draw()
            if not left:
                break
        if case["then"] == "drain" and total <= 8000:
            while left:
                left = draw()
        if not left:
            for _ in range(3):
                require(not draw(), "an identifier was handed out after all were used")
        require(len(seen) <= total, "more identifiers than exist")
        ctx.nontrivial(not left or len(seen) > math.comb(CHARS, length))


# --------------------------------------------------------------------------------------------- #

LABELS = st.one_of(
    st.sampled_from(["0", "0", "a", "", "q"]), st.integers(0, 3), st.none(),
    st.just(0.0), st.booleans(), st.lists(st.integers(0, 1), max_size=2).map(lambda t: {"t": t}),
)
VALUES = [0, 1, True, False, 2, -1, 0.0, 0.5, "np0", "np1", "npb0", "npb1", ""]


def _val(v):
    return {"np0": np.int64(0), "np1": np.int8(1), "npb0": np.bool_(False),
            "npb1": np.bool_(True)}.get(v, v) if isinstance(v, str) else v


@check.sub(
    "bits",
    lambda: st.fixed_dictionaries(
        {
            "new": st.lists(st.tuples(st.sampled_from("qb"), LABELS).map(list), min_size=2,
                            max_size=8),
            "id": st.sampled_from([None, None, [1, 3], [2, 1000], [34, 5], [4, 1]]),
            "steps": st.lists(
                st.one_of(
                    st.builds(lambda i, v, f: {"k": "set", "i": i, "v": v, "f": f},
                              st.integers(0, 7), st.sampled_from(VALUES),
                              st.sampled_from([None, False, True])),
                    st.builds(lambda i: {"k": "reset", "i": i}, st.integers(0, 7)),
                    st.builds(lambda i, lab: {"k": "label", "i": i, "l": lab}, st.integers(0, 7),
                              LABELS),
                ),
                max_size=10,
            ),
        }
    ),
    quick=6000,
    thorough=150000,
)
def bits(case, ctx):
    from dwave.gate.tools.counters import IDCounter

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            if case["id"]:
                IDCounter.reset(length=case["id"][0], batch=case["id"][1])
            _bits(case, ctx)
        finally:
            if case["id"]:
                IDCounter.reset()


def _lab(x):
    return tuple(x["t"]) if isinstance(x, dict) else x


def _bits(case, ctx):
    from dwave.gate.primitives import Bit, Qubit, Variable

    objs, labels, values = [], [], []
    for t, lab in case["new"]:
        objs.append((Qubit if t == "q" else Bit)(_lab(lab)))
        labels.append(_lab(lab))
        values.append(None)
    hashes = [hash(x) for x in objs]
    ids = [x.id for x in objs]
    require(len(set(ids)) == len(ids), lambda: f"identifiers repeat: {ids}")
    interesting = len({repr(x) for x in labels}) < len(labels)

    def verify(what):
        for i, x in enumerate(objs):
            require(x.id == ids[i] and hash(x) == hashes[i], f"{what}: identity of {x!r} changed")
            require(
                x.label == labels[i] and type(x.label) is type(labels[i]),
                lambda: f"{what}: label {x.label!r}, expected {labels[i]!r}",
            )
            for j, y in enumerate(objs):
                require((x == y) is (i == j) and (x != y) is (i != j), lambda: f"{what}: {x} == {y}")
            for y in (x.id, x.label, repr(x), None, Variable("0"), [x], (x,), object()):
                # set bits are equal to their value, which a label may be
                if not (values[i] is not None and y == values[i]):
                    require((x == y) is False, lambda: f"{what}: {x!r} == {y!r}")
            if isinstance(x, Bit):
                require(
                    (x.value is None) if values[i] is None else
                    (type(x.value) is int and x.value == values[i]),
                    lambda: f"{what}: value {x.value!r}, expected {values[i]!r}",
                )
                require(bool(x) is (values[i] != 0), lambda: f"{what}: {x!r} is {bool(x)}")
                for v in (0, 1):
                    require((x == v) is (values[i] == v), lambda: f"{what}: {x!r} == {v}")
        require(len(set(objs)) == len(objs), f"{what}: set of qubits and bits")
        require(
            {x: i for i, x in enumerate(objs)} == dict(zip(objs, range(len(objs)))),
            f"{what}: dictionary of qubits and bits",
        )

    verify("new")
    for n, s in enumerate(case["steps"]):
        i = s["i"] % len(objs)
        x = objs[i]
        what = f"step {n} {s}"
        if s["k"] == "label":
            x.label = labels[i] = _lab(s["l"])
        elif isinstance(x, Qubit):
            continue
        elif s["k"] == "reset":
            x.reset()
            values[i] = None
        else:
            v = _val(s["v"])
            kw = {} if s["f"] is None else {"force": s["f"]}
            if values[i] is not None and not s["f"]:
                lib.expect_raises(ValueError, lambda: x.set(v, **kw), f"{what}: already set")
                interesting = True
            else:
                x.set(v, **kw)
                values[i] = 1 if v else 0
                interesting |= not v
        verify(what)
    ctx.nontrivial(interesting)


def _number(v):
    k, x = v
    return {
        "i": lambda: x, "f": lambda: float(x), "c": lambda: complex(*x), "np": lambda: np.float64(x),
        "npc": lambda: np.complex128(complex(*x)), "fr": lambda: Fraction(*x),
        "dec": lambda: Decimal(x), "npi": lambda: np.int32(x),
    }[k]()


NUMBERS = st.one_of(
    st.integers(-2, 3).map(lambda i: ["i", i]),
    st.just(["i", 10**30]),
    st.floats(allow_nan=False).map(lambda x: ["f", x]) ,
    st.sampled_from([["f", 0.0], ["f", -0.0], ["f", 1e-300], ["f", 0.1], ["c", [0.0, 0.0]],
                     ["c", [0.0, 1.0]], ["np", 0.0], ["npc", [0.0, 0.0]], ["npi", 0],
                     ["fr", [1, 3]], ["fr", [0, 1]]]),
)


@check.sub(
    "variables",
    lambda: st.fixed_dictionaries(
        {
            "new": st.lists(st.one_of(st.sampled_from(["a", "a", "b", "0", "", "é"]),
                                      st.integers(0, 2)), min_size=2, max_size=6),
            "steps": st.lists(
                st.one_of(
                    st.builds(lambda i, v: {"k": "set", "i": i, "v": v}, st.integers(0, 5), NUMBERS),
                    st.builds(lambda i, v: {"k": "set", "i": i, "v": v}, st.integers(0, 5), NUMBERS),
                    st.builds(lambda i: {"k": "reset", "i": i}, st.integers(0, 5)),
                    st.builds(lambda i, p: {"k": "parreset", "i": i, "p": p}, st.integers(0, 5),
                              NUMBERS),
                ),
                max_size=10,
            ),
        }
    ),
    quick=6000,
    thorough=150000,
)
def variables(case, ctx):
    from dwave.gate.primitives import Bit, Qubit, Variable

    vs = [Variable(n) for n in case["new"]]
    names = [str(n) for n in case["new"]]
    values = [None] * len(vs)
    hashes = [hash(v) for v in vs]
    interesting = False

    def verify(what):
        for i, v in enumerate(vs):
            require(v.name == names[i] and hash(v) == hashes[i], f"{what}: name or hash changed")
            require(
                v.value is values[i]
                or (type(v.value) is type(values[i]) and repr(v.value) == repr(values[i])),
                lambda: f"{what}: value {v.value!r}, expected {values[i]!r}",
            )
            for j, w in enumerate(vs):
                require(
                    (v == w) is (names[i] == names[j]) and (v != w) is (names[i] != names[j]),
                    lambda: f"{what}: {names[i]!r} == {names[j]!r}",
                )
                if names[i] == names[j]:
                    require(hashes[i] == hashes[j], "hashes of equal variables")
            for y in (names[i], None, Qubit(names[i]), Bit(names[i]), {}):
                require((v == y) is False, lambda: f"{what}: {v!r} == {y!r}")
            for y in [x for x in values if x is not None] + [0, 1, 0.0]:
                want = values[i] is not None and bool(values[i] == y)
                require(bool(v == y) is want, lambda: f"{what}: {v!r} == {y!r}, expected {want}")
                require(bool(v != y) is not want, lambda: f"{what}: {v!r} != {y!r}")
        require(len(set(vs)) == len(set(names)), f"{what}: set of variables")

    verify("new")
    for n, s in enumerate(case["steps"]):
        i = s["i"] % len(vs)
        what = f"step {n} {s}"
        if s["k"] == "set":
            x = _number(s["v"])
            vs[i].set(x)
            values[i] = x
            interesting |= x == 0
        elif s["k"] == "reset":
            vs[i].reset()
            values[i] = None
        elif s["k"] == "parreset":
            x = _number(s["p"])
            vs[i].reset()
            vs[i].set(x)
            values[i] = x
        else:
            fail(s["k"])
        verify(what)
    ctx.nontrivial(interesting or len(set(names)) < len(names))
