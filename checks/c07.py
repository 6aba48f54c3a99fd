"""C07: controlled unitaries are correct for any control/target placement."""

import itertools

import numpy as np
from hypothesis import strategies as st

from checks import lib
from vf.core import Check, require

check = Check(
    "C07",
    rule=(
        "all placements on up to 4 qubits with a fixed generic matrix, plus generated placements on "
        "up to 8 qubits with arbitrary matrices; non-trivial: at least one control and the target "
        "not the last index"
    ),
    assumptions=["tolerance 1e-9 (1e-5 for single precision)"],
)

GENERIC = [[0.6 + 0.1j, -0.2j], [1.7, -0.3 + 0.9j]]


def reference(controls, target, u, n):
    """Column by column, by definition."""
    d = 2**n
    out = np.zeros((d, d), dtype=complex)
    for col in range(d):
        bits = [(col >> (n - 1 - i)) & 1 for i in range(n)]
        if all(bits[c] for c in controls):
            for b in (0, 1):
                nb = list(bits)
                nb[target] = b
                row = int("".join(map(str, nb)), 2)
                out[row, col] += u[b, bits[target]]
        else:
            out[col, col] = 1
    return out


def _placements():
    cases = []
    for n in range(1, 5):
        for t in range(n):
            others = [i for i in range(n) if i != t]
            for k in range(0, n):
                for cs in itertools.permutations(others, k):
                    for extra in (None, n, n + 1):
                        cases.append({"c": list(cs), "t": t, "n": extra})
    return cases


@check.sub("all-placements", fixed=_placements)
def all_placements(case, ctx):
    from dwave.gate.tools import build_controlled_unitary

    u = np.array(GENERIC)
    n = case["n"] or max(case["c"] + [case["t"]]) + 1
    if n <= max(case["c"] + [case["t"]]):
        return
    ctx.nontrivial(bool(case["c"]) and case["t"] != n - 1)
    args = (list(case["c"]), [case["t"]], u)
    if case["n"] is None:
        got = build_controlled_unitary(*args)
    else:
        got = build_controlled_unitary(*args, num_qubits=n)
    want = reference(case["c"], case["t"], u, n)
    require(lib.close(got, want), lambda: f"{case}: {lib.show(got)}, expected {lib.show(want)}")
    require(args[0] == case["c"] and args[1] == [case["t"]], "the index lists were changed")
    require(lib.close(u, np.array(GENERIC), 0), "the matrix was changed")


def _entries():
    f = st.floats(-2, 2, allow_nan=False, width=32).map(lambda x: round(x, 4))
    return st.lists(st.tuples(f, f), min_size=4, max_size=4)


@check.sub(
    "generated",
    lambda: st.integers(1, 8).flatmap(
        lambda n: st.fixed_dictionaries(
            {
                "n": st.just(n),
                "perm": lib.distinct(n, n),
                "k": st.integers(0, n - 1),
                "m": _entries(),
                "kind": st.sampled_from(["array", "fortran", "view", "real", "readonly"]),
                "dtype": st.sampled_from([None, "complex128", "complex64", "complex", "float64",
                                          "float32"]),
                "seq": st.sampled_from(["list", "tuple", "int"]),
                "pass_n": st.sampled_from(["default", "none", "exact"]),
                "more": st.integers(0, 2),
                "kw": st.booleans(),
            }
        )
    ),
    quick=2500,
    thorough=40000,
)
def generated(case, ctx):
    from dwave.gate.tools import build_controlled_unitary

    cs, t = case["perm"][1: 1 + case["k"]], case["perm"][0]
    dtype = case["dtype"]
    real = case["kind"] == "real" or (dtype and dtype.startswith("float"))
    u = np.array([a if real else complex(a, b) for a, b in case["m"]]).reshape(2, 2)
    want_u = u.copy()
    if case["kind"] == "fortran":
        u = np.asfortranarray(u)
    elif case["kind"] == "view":
        big = np.zeros((4, 4), dtype=u.dtype)
        big[::2, ::2] = u
        u = big[::2, ::2]
    elif case["kind"] == "readonly":
        u.setflags(write=False)
    conv = {"list": list, "tuple": tuple, "int": list}[case["seq"]]
    control, target = conv(cs), conv([t])
    if case["seq"] == "int":
        target = t
        if len(cs) == 1:
            control = cs[0]
    n = max(cs + [t]) + 1
    kw = {}
    if dtype:
        kw["dtype"] = {"complex": complex}.get(dtype, dtype)
    if case["pass_n"] == "none":
        kw["num_qubits"] = None
    elif case["pass_n"] == "exact":
        n = min(n + case["more"], 9)
        kw["num_qubits"] = n
    if case["kw"]:
        got = build_controlled_unitary(control=control, target=target, unitary=u, **kw)
    else:
        got = build_controlled_unitary(control, target, u, **kw)
    ctx.nontrivial(bool(cs) and t != n - 1)
    ctx.label(f"controls={len(cs)}")
    want = reference(cs, t, want_u, n)
    tol = 1e-5 if dtype in ("complex64", "float32") else 1e-9
    require(
        got.dtype == np.dtype(kw.get("dtype", complex)),
        lambda: f"type {got.dtype}, requested {dtype}",
    )
    require(lib.close(got, want, tol), lambda: f"{lib.show(got)}, expected {lib.show(want)}")
    require(lib.close(u, want_u, 0), "the matrix was changed")
    if isinstance(control, (list, tuple)):
        require(list(control) == cs, "the control indices were changed")
    if isinstance(target, (list, tuple)):
        require(list(target) == [t], "the target index was changed")
    # the result belongs to the caller
    got[:] = 5
    again = build_controlled_unitary(control, target, u, **kw)
    require(lib.close(again, want, tol), "a second call gave another result")


@check.sub(
    "large",
    lambda: st.sampled_from([9, 10, 11, 11, 12]).flatmap(
        lambda n: st.fixed_dictionaries(
            {"n": st.just(n), "perm": lib.distinct(n, n), "k": st.integers(1, n - 1),
             "m": _entries(), "most": st.sampled_from([0, 0, 1, 2])}
        )
    ),
    quick=60,
    thorough=600,
)
def large(case, ctx):
    """Indices of two digits."""
    from dwave.gate.tools import build_controlled_unitary

    n, cs, t = case["n"], case["perm"][1: 1 + case["k"]], case["perm"][0]
    u = np.array([complex(*x) for x in case["m"]]).reshape(2, 2)
    kw = {"dtype": np.complex64} if n > 11 else {}
    if case.get("most"):
        # the last index is used, and most of the qubits are not involved
        cs, t = (cs[:1], n - 1) if case["most"] == 1 else ([n - 1], cs[0])
        if t in cs:
            cs = [(n - 1) // 2]
    got = build_controlled_unitary(cs, t, u, num_qubits=n, **kw)
    ctx.nontrivial(t != n - 1)
    ctx.label(f"n={n}")
    d = 2**n
    require(got.shape == (d, d), lambda: f"shape {got.shape}")
    idx = np.arange(d)
    on = np.ones(d, dtype=bool)
    for c in cs:
        on &= (idx >> (n - 1 - c)) & 1 == 1
    tb = 1 << (n - 1 - t)
    zero = idx[on & (idx & tb == 0)]
    one = zero | tb
    tol = 1e-5 if kw else 1e-9
    # the entries that should differ from the identity, then everything else
    for a, b, x in ((zero, zero, u[0, 0]), (zero, one, u[0, 1]), (one, zero, u[1, 0]),
                    (one, one, u[1, 1])):
        require(lib.close(got[a, b], np.full(len(a), x), tol), lambda: f"{got[a, b]}, not {x}")
    got[zero, zero] = got[one, one] = 1
    got[zero, one] = got[one, zero] = 0
    diag = got.diagonal().copy()
    require(bool((diag == 1).all()), "an entry of the diagonal is not one")
    require(np.count_nonzero(got) == d, "non-zero entries elsewhere")


@check.sub(
    "two-digits",
    lambda: st.integers(12, 13).flatmap(
        lambda n: st.fixed_dictionaries(
            {"n": st.just(n), "perm": lib.distinct(n, 4), "k": st.integers(1, 3),
             "m": st.tuples(*[st.integers(-5, 5)] * 4)}
        )
    ),
    quick=48,
    thorough=400,
)
def two_digits(case, ctx):
    """Few of many qubits involved; integer matrices keep the memory small."""
    from dwave.gate.tools import build_controlled_unitary

    n, cs, t = case["n"], case["perm"][1: 1 + case["k"]], case["perm"][0]
    u = np.array(case["m"], dtype=np.int8).reshape(2, 2)
    got = build_controlled_unitary(cs, t, u, n, np.int8)
    ctx.nontrivial(max(cs + [t]) > 9 and min(cs + [t]) < 10)
    d = 2**n
    require(got.shape == (d, d) and got.dtype == np.int8, lambda: f"{got.shape} {got.dtype}")
    idx = np.arange(d)
    on = np.ones(d, dtype=bool)
    for c in cs:
        on &= (idx >> (n - 1 - c)) & 1 == 1
    tb = 1 << (n - 1 - t)
    zero = idx[on & (idx & tb == 0)]
    one = zero | tb
    for a, b, x in ((zero, zero, u[0, 0]), (zero, one, u[0, 1]), (one, zero, u[1, 0]),
                    (one, one, u[1, 1])):
        require(bool((got[a, b] == x).all()), lambda: f"controls {cs}, target {t}: not {x}")
    got[zero, zero] = got[one, one] = 1
    got[zero, one] = got[one, zero] = 0
    require(bool((got.diagonal() == 1).all()), "an entry of the diagonal is not one")
    require(np.count_nonzero(got) == d, "non-zero entries elsewhere")


@check.sub(
    "products",
    lambda: st.integers(2, 6).flatmap(
        lambda n: st.fixed_dictionaries(
            {"n": st.just(n), "perm": lib.distinct(n, n), "k": st.integers(1, n - 1),
             "a": _entries(), "b": _entries(), "sh": st.permutations(list(range(n - 1)))}
        )
    ),
    quick=400,
    thorough=8000,
)
def products(case, ctx):
    """Controlled(A B) = Controlled(A) Controlled(B); the order of the controls is irrelevant."""
    from dwave.gate.tools import build_controlled_unitary

    n, cs, t = case["n"], case["perm"][1: 1 + case["k"]], case["perm"][0]
    a, b = (np.array([complex(*x) for x in m]).reshape(2, 2) for m in (case["a"], case["b"]))
    f = lambda u, c=cs: build_controlled_unitary(c, t, u, num_qubits=n)  # noqa: E731
    ctx.nontrivial(not lib.close(a @ b, b @ a))
    require(lib.close(f(a @ b), f(a) @ f(b), 1e-8), "not multiplicative")
    shuffled = [c for _, c in sorted(zip(case["sh"], cs))]
    require(lib.close(f(a), f(a, shuffled)), "depends on the order of the controls")


@check.sub(
    "rejected",
    lambda: st.fixed_dictionaries(
        {
            "how": st.sampled_from(["overlap", "few", "targets", "no-target"]),
            "n": st.integers(2, 6),
            "perm": lib.distinct(6, 6),
            "k": st.integers(1, 4),
            "at": st.integers(0, 4),
            "less": st.integers(0, 5),
        }
    ),
    quick=400,
    thorough=4000,
)
def rejected(case, ctx):
    from dwave.gate.tools import build_controlled_unitary

    u = np.array(GENERIC)
    cs, t = case["perm"][: case["k"]], case["perm"][case["k"]]
    ctx.nontrivial()
    if case["how"] == "overlap":
        cs = list(cs)
        cs.insert(case["at"] % (len(cs) + 1), t)
        lib.expect_raises(ValueError, lambda: build_controlled_unitary(cs, t, u), "overlap")
        lib.expect_raises(ValueError, lambda: build_controlled_unitary(cs, [t], u, 7), "overlap")
    elif case["how"] == "few":
        n = max(0, max(cs + [t]) - case["less"])
        lib.expect_raises(ValueError, lambda: build_controlled_unitary(cs, t, u, n), "too few")
        lib.expect_raises(
            ValueError, lambda: build_controlled_unitary(cs, t, u, num_qubits=n), "too few"
        )
    elif case["how"] == "no-target":
        lib.expect_raises(NotImplementedError, lambda: build_controlled_unitary(cs, [], u, 6), "no target")
        lib.expect_raises(NotImplementedError, lambda: build_controlled_unitary(cs, (), u), "no target")
    else:
        ts = case["perm"][case["k"]:][:2]
        if len(ts) < 2:
            return
        lib.expect_raises(
            NotImplementedError, lambda: build_controlled_unitary(cs, ts, u, 6), "two targets"
        )
        lib.expect_raises(
            NotImplementedError, lambda: build_controlled_unitary(cs, ts, u), "two targets"
        )
