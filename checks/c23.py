"""C23: generated kernels apply the matrices they are generated for."""

import ctypes
import itertools
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

import numpy as np
from hypothesis import strategies as st

from checks import lib
from vf.core import Check, fail, require

check = Check(
    "C23",
    rule=(
        "kernels generated for random specifications (targets, controls, sparsity masks, "
        "precompiled and run-time matrices, endianness, norms, scaling), compiled and called with "
        "random states and placements; non-trivial: several targets or controls, or a matrix "
        "with structure"
    ),
    assumptions=[
        "operator sets have no controls",
        "run-time matrices are C-contiguous",
        "a mask together with a precompiled matrix is left unspecified",
    ],
)


def _gen():
    from dwave.gate.simulator import operation_generation

    return operation_generation


# ---------------------------------------------------------------------------------------------
# specifications

STRUCT = ["dense", "dense", "permutation", "diagonal", "partial", "zero-rows", "signs", "identity",
          "triangular", "single", "tiny", "near"]


def specs(max_targets=4, modes=("run", "run", "mask", "mask", "pre", "pre")):
    return st.fixed_dictionaries(
        {
            "nt": st.integers(1, max_targets),
            "nc": st.sampled_from([0, 1, 2, 0, 1, 2, 3, 4, 5]),
            "mode": st.sampled_from(list(modes)),
            "struct": st.sampled_from(STRUCT),
            "le": st.booleans(),
            "norm": st.booleans(),
            "scale": st.booleans(),
            "dtype": st.sampled_from(["float64", "complex128", "int64", "float32"]),
            "seed": st.integers(0, 2**32 - 1),
        }
    )


def matrix(struct, nt, rng, real):
    d = 1 << nt

    def vals(*shape):
        v = rng.normal(size=shape)
        return v if real else v + 1j * rng.normal(size=shape)

    dtype = np.float64 if real else np.complex128
    if struct == "dense":
        m = vals(d, d)
    elif struct == "permutation":
        m = np.eye(d)[rng.permutation(d)]
    elif struct == "diagonal":
        m = np.diag(vals(d))
    elif struct == "partial":  # identity except for some rows
        m = np.eye(d).astype(dtype)
        for r in rng.choice(d, size=int(rng.integers(1, d + 1)), replace=False):
            m[r] = vals(d) * (rng.random(d) < 0.6)
    elif struct == "zero-rows":
        m = vals(d, d)
        m[rng.random(d) < 0.5] = 0
    elif struct == "signs":
        m = rng.choice([-1.0, 0.0, 1.0, 2.0], size=(d, d))
    elif struct == "identity":
        m = np.eye(d)
    elif struct == "triangular":
        m = np.triu(vals(d, d)) if rng.random() < 0.5 else np.tril(vals(d, d))
    elif struct == "single":
        m = np.zeros((d, d), dtype)
        m[rng.integers(d), rng.integers(d)] = rng.choice([1.0, -1.0, 0.5])
    elif struct == "near":  # close to (but not) entries which allow for shortcuts
        m = np.eye(d) if rng.random() < 0.5 else np.eye(d)[rng.permutation(d)]
        m = m * rng.choice([1.0, -1.0], size=(d, d))
        m = m + vals(d, d) * 10.0 ** rng.integers(-7, -4, size=(d, d)) * (rng.random((d, d)) < 0.5)
    else:
        m = vals(d, d) * 10.0 ** rng.integers(-12, 6, size=(d, d))
    return np.array(m, dtype=dtype)


def expected(psi, n, m, targets, controls, le):
    """The controlled matrix applied to psi, and the indices with all controls set."""
    pos = (lambda q: q) if le else (lambda q: n - 1 - q)
    idx = np.arange(1 << n)
    on = np.ones(1 << n, bool)
    for c in controls:
        on &= (idx >> pos(c)) & 1 == 1
    sub = np.zeros(1 << n, int)
    base = idx.copy()
    for i, t in enumerate(targets):
        sub |= ((idx >> pos(t)) & 1) << i
        base &= ~(1 << pos(t))
    out = np.zeros(1 << n, complex)
    for k in range(1 << len(targets)):
        at = base.copy()
        for i, t in enumerate(targets):
            at |= ((k >> i) & 1) << pos(t)
        out += np.asarray(m)[sub, k] * psi[at]
    return out, on


def random_state(n, rng, kind=None):
    kind = kind or rng.choice(["dense", "dense", "sparse", "basis"])
    if kind == "basis":
        psi = np.zeros(1 << n, complex)
        psi[rng.integers(1 << n)] = np.exp(2j * np.pi * rng.random())
    else:
        psi = rng.normal(size=1 << n) + 1j * rng.normal(size=1 << n)
        if kind == "sparse":
            psi *= rng.random(1 << n) < 0.5
            if not psi.any():
                psi[0] = 1
        psi /= np.linalg.norm(psi)
    return psi


class Scratch:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="vf-c23-")
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def _compile(cmd, cwd, what):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        first = [x for x in r.stdout.splitlines() if "rror" in x][:3]
        fail(f"{what} does not compile: {' | '.join(first) or r.stdout[-300:]}")


# ---------------------------------------------------------------------------------------------
# the C functions, called directly

PAD = 8


def _describe(s):
    return ", ".join(f"{k}={v}" for k, v in s.items())


def _prepare(spec):
    """Matrix, keyword arguments, effective matrix and run-time matrix of a specification."""
    rng = np.random.default_rng(spec["seed"])
    nt = spec["nt"]
    d = 1 << nt
    kwargs = {}
    if spec["mode"] == "pre":
        dtype = spec.get("dtype", "float64")
        m = matrix(spec["struct"], nt, rng, dtype != "complex128")
        if dtype == "int64":
            m = np.clip(np.round(m), -5, 5)
        m = m.astype(dtype)
        kwargs["precompile_gate"] = m.copy()
        m = m.astype(np.complex128)
        runtime = None if rng.random() < 0.5 else np.full((d, d), np.nan, complex)
    else:
        m = matrix(spec["struct"], nt, rng, False)
        runtime = m.copy()
        if spec["mode"] == "mask":
            how = rng.choice(["random", "nonzero", "diag", "offdiag", "sparse"])
            mask = {
                "random": rng.random((d, d)) < 0.5,
                "nonzero": m != 0,
                "diag": np.eye(d, dtype=bool),
                "offdiag": ~np.eye(d, dtype=bool),
                "sparse": rng.random((d, d)) < 0.2,
            }[how]
            # entries which are masked must not be used at all
            runtime = np.where(mask, m, rng.choice([np.nan, 3.0, 1.0]))
            m = np.where(mask, m, 0)
            kwargs["sparse_gate_mask"] = mask.astype(rng.choice(["int64", "float64", "bool"]))
    return rng, kwargs, m, runtime


def fixed_specs():
    all_specs = []
    for k, (nt, nc, mode, le, norm, scale) in enumerate(
        itertools.product(
            (1, 2, 3, 4), (0, 1, 2), ("run", "mask", "pre"), (True, False), (False, True),
            (False, True),
        )
    ):
        struct = STRUCT[1:][k % (len(STRUCT) - 1)]
        all_specs.append(dict(nt=nt, nc=nc, mode=mode, struct=struct, le=le, norm=norm, scale=scale,
                              seed=1000 + k,
                              dtype=["float64", "complex128", "int64"][k // 3 % 3]))
    for k, (nt, nc, mode) in enumerate(
        itertools.product((1, 2), (3, 4, 5), ("run", "mask", "pre"))
    ):
        all_specs.append(dict(nt=nt, nc=nc, mode=mode, struct=STRUCT[1 + k % (len(STRUCT) - 1)],
                              le=k % 2 == 0, norm=k % 3 == 1, scale=k % 4 == 2, seed=5000 + k,
                              dtype="complex128"))
    return [all_specs[i : i + 18] for i in range(0, len(all_specs), 18)]


@check.sub(
    "kernels",
    strategy=lambda: st.lists(specs(), min_size=1, max_size=20),
    quick=120,
    thorough=2500,
    fixed=fixed_specs,
)
def kernels(case, ctx):
    gen = _gen()
    source = ["#include <complex>", "#include <algorithm>", "#include <cstdint>", 'extern "C" {']
    prepared = []
    for k, spec in enumerate(case):
        rng, kwargs, m, runtime = _prepare(spec)
        info = gen.generate_op_c_code(
            f"kernel_{k}",
            spec["nt"],
            spec["nc"],
            little_endian=spec["le"],
            collect_norm=spec["norm"],
            provide_amplitude_scale_factor=spec["scale"],
            **kwargs,
        )
        source.append(str(info.function_definition))
        prepared.append((spec, rng, m, runtime))
        ctx.label(spec["mode"], f"targets={spec['nt']}", f"controls={spec['nc']}")
    source.append("}")
    ctx.nontrivial(any(s["nt"] + s["nc"] > 1 or s["mode"] != "run" for s in case))

    with Scratch() as tmp:
        with open(os.path.join(tmp, "k.cpp"), "w") as f:
            f.write("\n\n".join(source))
        _compile(["g++", "-O0", "-w", "-shared", "-fPIC", "k.cpp", "-o", "k.so"], tmp,
                 f"kernel for {[_describe(s) for s in case]}")
        dll = ctypes.CDLL(os.path.join(tmp, "k.so"))
        try:
            for k, (spec, rng, m, runtime) in enumerate(prepared):
                _run_kernel(getattr(dll, f"kernel_{k}"), spec, rng, m, runtime)
        finally:
            import _ctypes

            _ctypes.dlclose(dll._handle)


def _run_kernel(fn, spec, rng, m, runtime):
    nt, nc = spec["nt"], spec["nc"]
    fn.restype = ctypes.c_double if spec["norm"] else None
    fn.argtypes = (
        [ctypes.c_uint64, ctypes.c_void_p, ctypes.c_void_p]
        + [ctypes.c_uint64] * (nt + nc)
        + ([ctypes.c_double] if spec["scale"] else [])
    )
    for _ in range(10):
        n = int(rng.integers(nt + nc, max(7, nt + nc + 2)))
        qubits = [int(q) for q in rng.permutation(n)[: nt + nc]]
        psi = random_state(n, rng)
        factor = float(rng.choice([0.5, -1.5, 1.0, 3.25])) if spec["scale"] else 1.0
        buf = np.full((1 << n) + 2 * PAD, 7.5 + 1j)
        buf[PAD:-PAD] = psi
        rt = None if runtime is None else np.ascontiguousarray(runtime)
        keep = None if rt is None else rt.copy()
        args = [n, buf.ctypes.data + PAD * 16, None if rt is None else rt.ctypes.data, *qubits]
        if spec["scale"]:
            args.append(factor)
        result = fn(*args)

        what = lambda: (  # noqa: E731
            f"kernel({_describe(spec)}) on {n} qubits, targets {qubits[:nt]}, controls "
            f"{qubits[nt:]}, matrix {lib.show(m)}"
        )
        out, on = expected(psi, n, m, qubits[:nt], qubits[nt:], spec["le"])
        got = buf[PAD:-PAD]
        scale = max(1.0, float(np.max(np.abs(m), initial=0))) * max(1.0, abs(factor))
        if spec["norm"]:
            want = float(np.sum(np.abs(factor * out[on]) ** 2))
            require(
                abs(result - want) <= 1e-9 * max(scale**2, want),
                lambda: f"{what()}: norm {result!r}, expected {want!r}",
            )
            require(np.array_equal(got, psi), lambda: f"{what()}: collecting the norm changed the state")
        else:
            want = np.where(on, factor * out, psi)
            require(
                np.allclose(got, want, rtol=1e-9, atol=1e-11 * scale),
                lambda: f"{what()}: state {lib.show(got)}, expected {lib.show(want)} from {lib.show(psi)}",
            )
            require(np.array_equal(got[~on], psi[~on]), lambda: f"{what()}: amplitudes with unset controls changed")
        require(
            (buf[:PAD] == 7.5 + 1j).all() and (buf[-PAD:] == 7.5 + 1j).all(),
            lambda: f"{what()}: wrote outside the state",
        )
        if rt is not None:
            require(np.array_equal(rt, keep, equal_nan=True), lambda: f"{what()}: changed its matrix")


# ---------------------------------------------------------------------------------------------
# the Cython functions: operations and operator sets

HEADER = """\
# distutils: language = c++
# cython: language_level=3
cimport numpy as np
from libc.stdint cimport uint64_t

import numpy as np
import warnings

cdef extern from "./gen.h" nogil:
"""


def op_set(kind, nt, k, seed):
    """Operators of a random real operator set."""
    rng = np.random.default_rng(seed)
    d = 1 << nt
    if kind == "isometry":
        v, _ = np.linalg.qr(rng.normal(size=(k * d, d)))
        return [v[i * d : (i + 1) * d].copy() for i in range(k)]
    if kind == "projectors":  # disjoint computational-basis projectors (some possibly zero)
        label = rng.integers(k, size=d)
        return [np.diag((label == i).astype(rng.choice(["float64", "int64"]))) for i in range(k)]
    if kind == "basis":  # projectors on an arbitrary basis
        q, _ = np.linalg.qr(rng.normal(size=(d, d)))
        label = rng.integers(k, size=d)
        return [q[:, label == i] @ q[:, label == i].T for i in range(k)]
    if kind == "mixed-unitary":
        w = rng.dirichlet(np.ones(k))
        out = []
        for p in w:
            q, _ = np.linalg.qr(rng.normal(size=(d, d)))
            out.append(np.sqrt(p) * q)
        return out
    if kind == "damping":
        eps = rng.random()
        e0, e1 = np.eye(d), np.zeros((d, d))
        e0[-1, -1] = np.sqrt(1 - eps)
        e1[0, -1] = np.sqrt(eps)
        return [e0, e1]
    if kind == "single":
        return [np.linalg.qr(rng.normal(size=(d, d)))[0]]
    # "flips": signed permutations with weights, rows without any structure in common
    w = rng.dirichlet(np.ones(k))
    return [
        np.sqrt(p) * np.diag(rng.choice([-1.0, 1.0], size=d))[rng.permutation(d)] for p in w
    ]


def sets():
    return st.fixed_dictionaries(
        {
            "kind": st.sampled_from(
                ["isometry", "projectors", "basis", "mixed-unitary", "damping", "single", "flips"]
            ),
            "nt": st.sampled_from([1, 1, 2, 2, 3]),
            "k": st.integers(2, 4),
            "seed": st.integers(0, 2**32 - 1),
            "complex": st.booleans(),
        }
    )


def _complex(operators, rng):
    """Left-multiplying with unitaries keeps the set complete."""
    d = len(operators[0])
    return [
        np.linalg.qr(rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d)))[0] @ o
        for o in operators
    ]


def _fixed_modules():
    kinds = ["isometry", "projectors", "basis", "mixed-unitary", "damping", "single", "flips"]
    out = []
    for i in range(6):
        out.append(
            {
                "ops": [
                    dict(nt=1 + (i + j) % 3, nc=(i // 2 + j) % 3, mode=["run", "mask", "pre"][j],
                         struct=STRUCT[1 + (i + 3 * j) % 10], norm=(i + j) % 4 == 0, seed=50 * i + j)
                    for j in range(3)
                ],
                "sets": [
                    dict(kind=kinds[(i + 4 * j) % 7], nt=1 + (i + j) % 2, k=2 + (i + j) % 3,
                         seed=77 * i + j, complex=(i + j) % 2 == 1)
                    for j in range(2)
                ],
            }
        )
    return out


def _module_spec():
    op = specs().map(lambda s: {k: v for k, v in s.items() if k not in ("le", "scale")})
    return st.fixed_dictionaries(
        {
            "ops": st.lists(op, max_size=3),
            "sets": st.lists(sets(), min_size=1, max_size=3),
        }
    )


@check.sub("modules", strategy=_module_spec, quick=12, thorough=300, fixed=_fixed_modules)
def modules(case, ctx):
    gen = _gen()
    header, imports, functions, wrappers = [], [], [], []
    ops = []
    for k, spec in enumerate(case["ops"]):
        rng, kwargs, m, runtime = _prepare(spec)
        info = gen.generate_op(f"op_{k}", spec["nt"], spec["nc"], collect_norm=spec["norm"], **kwargs)
        header.append(str(info.function_definition))
        imports.append(info.cython_header)
        functions.append(info.cython_function)
        q = [f"q{i}" for i in range(spec["nt"] + spec["nc"])]
        wrappers.append(
            f"def call_op_{k}(n, complex[::1] s, complex[:, :] g, {', '.join(q)}, *rest):\n"
            f"    if rest:\n"
            f"        return op_{k}(n, s, g, {', '.join(q)}, rest[0])\n"
            f"    return op_{k}(n, s, g, {', '.join(q)})\n"
        )
        ops.append((spec, rng, m, runtime))
        ctx.label("op", spec["mode"])
    opsets = []
    for k, spec in enumerate(case["sets"]):
        operators = op_set(**{k: v for k, v in spec.items() if k != "complex"})
        if spec.get("complex"):
            operators = _complex(operators, np.random.default_rng(spec["seed"] + 1))
        info = gen.generate_op_set(f"set_{k}", spec["nt"], 0, [o.copy() for o in operators])
        header.append(str(info.function_definition))
        imports.append(info.cython_header)
        functions.append(info.cython_function)
        q = [f"q{i}" for i in range(spec["nt"])]
        wrappers.append(
            f"def call_set_{k}(n, complex[::1] s, {', '.join(q)}, rng, *rest):\n"
            f"    if len(rest) == 2:\n"
            f"        return set_{k}(n, s, {', '.join(q)}, rng, rest[0], rest[1])\n"
            f"    if rest:\n"
            f"        return set_{k}(n, s, {', '.join(q)}, rng, rest[0])\n"
            f"    return set_{k}(n, s, {', '.join(q)}, rng)\n"
        )
        opsets.append((spec, operators))
        ctx.label("set", spec["kind"])
    ctx.nontrivial(any(s["nt"] > 1 for s in case["ops"] + case["sets"]))

    with Scratch() as tmp:
        name = "vfgen_" + os.path.basename(tmp).replace("-", "_")
        with open(os.path.join(tmp, "gen.h"), "w") as f:
            f.write("#include <complex.h>\n#include <complex>\n#include <algorithm>\n\n" + "\n\n".join(header))
        with open(os.path.join(tmp, name + ".pyx"), "w") as f:
            f.write(HEADER + "\n\n".join(imports) + "\n\n" + "\n".join(functions) + "\n" + "\n".join(wrappers))
        from vf import build

        _compile([build.PY, "-m", "cython", "--cplus", "-3", "-o", name + ".cpp", name + ".pyx"], tmp,
                 f"module for {case}")
        _compile(
            ["g++", "-O0", "-w", "-shared", "-fPIC", f"-I{np.get_include()}",
             f"-I{sysconfig.get_path('include')}", "-I.", name + ".cpp", "-o", name + ".so"],
            tmp, f"module for {case}",
        )
        from importlib.machinery import ExtensionFileLoader
        from importlib.util import module_from_spec, spec_from_file_location

        so = os.path.join(tmp, name + ".so")
        sp = spec_from_file_location(name, so, loader=ExtensionFileLoader(name, so))
        mod = module_from_spec(sp)
        sp.loader.exec_module(mod)
        sys.modules.pop(name, None)
        for k, (spec, rng, m, runtime) in enumerate(ops):
            _run_op(getattr(mod, f"call_op_{k}"), spec, rng, m, runtime)
        for k, (spec, operators) in enumerate(opsets):
            _run_set(getattr(mod, f"call_set_{k}"), spec, operators)


def _run_op(fn, spec, rng, m, runtime):
    nt, nc = spec["nt"], spec["nc"]
    d = 1 << nt
    rt = np.zeros((d, d), complex) if runtime is None else np.ascontiguousarray(runtime)
    for _ in range(8):
        n = int(rng.integers(nt + nc, max(7, nt + nc + 2)))
        qubits = [int(q) for q in rng.permutation(n)[: nt + nc]]
        psi = random_state(n, rng)
        le = [True, False, None][rng.integers(3)]
        got = psi.copy()
        result = fn(n, got, rt, *qubits, *([] if le is None else [le]))
        what = lambda: (  # noqa: E731
            f"op({_describe(spec)}) little_endian={le} on {n} qubits, targets {qubits[:nt]}, "
            f"controls {qubits[nt:]}, matrix {lib.show(m)}"
        )
        out, on = expected(psi, n, m, qubits[:nt], qubits[nt:], le is not False)
        scale = max(1.0, float(np.max(np.abs(m), initial=0)))
        if spec["norm"]:
            want = float(np.sum(np.abs(out[on]) ** 2))
            require(result is not None and abs(result - want) <= 1e-9 * max(scale**2, want),
                    lambda: f"{what()}: norm {result!r}, expected {want!r}")
            require(np.array_equal(got, psi), lambda: f"{what()}: collecting the norm changed the state")
        else:
            want = np.where(on, out, psi)
            require(np.allclose(got, want, rtol=1e-9, atol=1e-11 * scale),
                    lambda: f"{what()}: state {lib.show(got)}, expected {lib.show(want)} from {lib.show(psi)}")


def _run_set(fn, spec, operators):
    rng = np.random.default_rng([spec["seed"], 5])
    nt = spec["nt"]
    for rep in range(4):
        n = int(rng.integers(nt, 6))
        qubits = [int(q) for q in rng.permutation(n)[:nt]]
        psi = random_state(n, rng)
        le = [True, False, None][rng.integers(3)]
        results = [expected(psi, n, o, qubits, [], le is not False)[0] for o in operators]
        probs = np.array([np.sum(np.abs(r) ** 2) for r in results])
        where = lambda: f"operator set {spec} little_endian={le}, qubits {qubits} of {n}"  # noqa: E731
        draws = np.random.default_rng([spec["seed"], 6, rep])
        flags = [] if le is None else [le]
        count = np.zeros(len(operators), int)
        total = 300
        for i in range(total):
            state = psi.copy()
            if i % 3 == 2:
                chosen = fn(n, state, *qubits, draws, True if le is None else le, False)
                want = psi
            else:
                chosen = fn(n, state, *qubits, draws, *flags, *([True] if i % 3 and flags else []))
                require(chosen in range(len(operators)), lambda: f"{where()}: chose {chosen!r}")
                want = results[chosen] / np.sqrt(probs[chosen]) if probs[chosen] > 1e-14 else None
            require(chosen in range(len(operators)), lambda: f"{where()}: chose {chosen!r}")
            require(
                probs[chosen] > 1e-14,
                lambda: f"{where()}: chose operator {chosen} of probability {probs[chosen]}, state {lib.show(psi)}",
            )
            tol = 1e-9 / np.sqrt(min(1.0, probs[chosen]))
            require(
                np.allclose(state, want, rtol=1e-9, atol=tol),
                lambda: f"{where()}: operator {chosen} gave {lib.show(state)}, expected {lib.show(want)}",
            )
            count[chosen] += 1
        dev = np.abs(count - total * probs)
        bound = 6.5 * np.sqrt(total * probs * np.clip(1 - probs, 0, 1)) + 4
        require((dev <= bound).all(),
                lambda: f"{where()}: chosen {count.tolist()} times, probabilities {probs.tolist()}")


# ---------------------------------------------------------------------------------------------
# completeness of operator sets


@check.sub(
    "completeness",
    strategy=lambda: st.fixed_dictionaries(
        {
            "set": sets(),
            "complex": st.booleans(),
            "how": st.sampled_from(
                ["valid", "valid", "scaled", "missing", "extra", "transposed", "entry",
                 "one-scaled", "columns", "trace", "imaginary", "real"]
            ),
            "seed": st.integers(0, 2**32 - 1),
        }
    ),
    quick=300,
    thorough=6000,
)
def completeness(case, ctx):
    gen = _gen()
    rng = np.random.default_rng(case["seed"])
    operators = [
        np.asarray(o) for o in op_set(**{k: v for k, v in case["set"].items() if k != "complex"})
    ]
    d = len(operators[0])
    if case["complex"]:
        operators = _complex(operators, rng)
    how = case["how"]
    if how == "scaled":
        f = float(rng.choice([0.5, 0.99, 1.01, 2.0]))
        operators = [f * o for o in operators]
    elif how == "missing":
        operators.pop(int(rng.integers(len(operators))))
    elif how == "extra":
        operators.append(0.3 * np.eye(d))
    elif how == "transposed":
        operators = [o.conj().T for o in operators]
    elif how == "entry":
        i, j, k = rng.integers(len(operators)), rng.integers(d), rng.integers(d)
        o = operators[i].astype(complex if case["complex"] else float)
        o[j, k] += float(rng.choice([-0.3, 0.3]))
        operators[i] = o
    elif how == "one-scaled":
        i = rng.integers(len(operators))
        operators[i] = operators[i] * float(rng.choice([-1.5, 0.7]))
    elif how in ("columns", "trace"):
        # the diagonal, or only the trace, of the sum is right
        operators = [o + 0.5 * rng.standard_normal((d, d)) for o in operators]
        weight = sum((np.abs(o) ** 2).sum(axis=0) for o in operators)
        operators = [o / np.sqrt(weight if how == "columns" else weight.mean()) for o in operators]
    elif how in ("imaginary", "real"):
        # a sum off by a purely imaginary or real matrix with zeros on the diagonal
        a = np.triu(rng.standard_normal((d, d)), 1) * (1j if how == "imaginary" else 1)
        a = 0.4 * (a + a.conj().T) / max(1e-9, np.abs(a).sum())
        w, v = np.linalg.eigh(np.eye(d) + a)
        root = v @ np.diag(np.sqrt(np.maximum(w, 0))) @ v.conj().T
        operators = [root @ o for o in operators] if len(operators) < 2 else [
            np.sqrt(1 / len(operators)) * root for _ in operators
        ]
    if not operators:
        total = np.zeros((d, d))
    else:
        total = sum(o.conj().T @ o for o in operators)
    error = np.max(np.abs(total - np.eye(d)))
    valid = error < 1e-10
    if not valid and error < 1e-3:
        return  # too close to call
    ctx.nontrivial(not valid or case["complex"])
    ctx.label("valid" if valid else "invalid", case["set"]["kind"])
    o = lib.outcome(lambda: gen.generate_op_set("s", case["set"]["nt"], 0, operators))
    if valid:
        require(o[0] == "ok", lambda: f"complete operator set {case} is rejected: {o}")
    else:
        require(
            o[0] == "err" and isinstance(o[1], ValueError),
            lambda: f"operator set with sum off by {error:.3g} ({case}) is not rejected with a "
            f"ValueError: {o}",
        )
