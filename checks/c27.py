"""C27: results depend on how an object was made, not on anything done before or in between.

Every case is a list of steps. It is run twice, each time in a process of its own which has not used
the library before: once completely, and once without the noise (steps on other circuits, failing
steps, and observations whose results are not looked at). All results kept must be the same.
"""

import os
import pickle
import signal
import traceback

from hypothesis import strategies as st

from checks.world import OBS, Skip, World, _show, cases, check_edited, edited_cases, long_cases, same
from vf.core import Check, require

check = Check(
    "C27",
    rule=(
        "histories over four circuits (two observed, two noise): creating, applying gates, custom "
        "operations and templates, measuring, editing, simulating, exporting, failing, reading; run "
        "twice in fresh processes, with and without the noise; non-trivial: at least two "
        "noise steps precede an observation of a circuit with operations"
    ),
    assumptions=[
        "noise steps only read the observed circuits (simulating copies of them)",
        "sampled values are not compared, unless made with a seed",
        "using a parametric circuit as a template may reset its variables",
    ],
)

def is_noise(step):
    return step[0] in ("peek", "misc") or step[1] >= 2


# ---------------------------------------------------------------------------------------------
# running them in a process of their own


def isolated(fn, seconds=60):
    """Calls the function in a forked process; returns its result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.alarm(seconds)
            try:
                data = pickle.dumps(("ok", fn()))
            except BaseException:  # noqa: BLE001
                data = pickle.dumps(("error", traceback.format_exc()))
            with os.fdopen(w, "wb") as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if status != 0 or not data:
        return "died", status
    return pickle.loads(data)


@check.sub("long", long_cases, quick=1000, thorough=40000)
def long(case, ctx):
    isolation(case, ctx)


@check.sub("isolation", cases, quick=600, thorough=20000)
def isolation(case, ctx):
    import dwave.gate  # noqa: F401  (imported once, used in the forked processes only)
    import dwave.gate.qir.compiler  # noqa: F401
    import dwave.gate.simulator  # noqa: F401

    kept = [s for s in case if not is_noise(s)]
    full = isolated(lambda: run(case))
    require(full[0] == "ok", lambda: f"{full[0]}: {full[1]}")
    quiet = isolated(lambda: run(kept))
    require(quiet[0] == "ok", lambda: f"without the noise, {quiet[0]}: {quiet[1]}")
    got = [r for s, r in zip(case, full[1][0]) if not is_noise(s)]
    for s, a, b in zip(kept, got, quiet[1][0]):
        require(
            same(a, b),
            lambda: f"{s}: gives {_show(a)} after other steps, but {_show(b)} without them",
        )
    noise = 0
    for s, (ops, r) in zip(case, zip(full[1][1], full[1][0])):
        noise += is_noise(s) and r is not None
        if s[0] == "obs" and noise > 1 and ops:
            ctx.nontrivial()
        if s[0] == "obs":
            ctx.label(f"{s[2]}: {'raises' if r and r[0] == 'err' else 'result'}")
        elif r is None:
            ctx.label(f"{s[0]}: left out")


def run(case):
    w = World()
    out, sizes = [], []
    for s in case:
        fn = getattr(w, "do_" + s[0])
        if s[0] not in ("new", "misc", "twin") and w.circuits.get(s[1]) is None:
            out.append(None)
            sizes.append(0)
            continue
        try:
            out.append(("ok", fn(*s[1:])))
        except Skip:
            out.append(None)
        except Exception as e:  # noqa: BLE001
            out.append(("err", type(e).__name__))
        c = w.circuits.get(s[1])
        sizes.append(0 if c is None else len(c.circuit))
        w.global_state(s)
    return out, sizes




@check.sub("edited", edited_cases, quick=1500, thorough=60000)
def edited(case, ctx):
    """A circuit that was edited gives the same as one with the same content that was built at once."""
    check_edited(case, ctx, [w for w in dict.fromkeys(OBS) if w not in ("desc", "repr", "state", "context", "locked")])


@check.sub(
    "classes",
    lambda: st.builds(
        lambda seed, k: {"seed": seed, "k": k}, st.integers(0, 2**32 - 1), st.integers(2, 6)
    ),
    quick=1500,
    thorough=40000,
)
def classes(case, ctx):
    """Controlled operations derived from each other, used in any order."""
    import random

    import numpy as np

    import dwave.gate.operations as ops
    from checks import lib
    from dwave.gate.operations.base import ControlledOperation, ParametricControlledOperation
    from dwave.gate.primitives import Qubit

    r = random.Random(case["seed"])
    plain, par = ["X", "Y", "Hadamard", "T"], ["RX", "RY", "RZ", "Phase"]
    known = [(ControlledOperation, None, None, False),
             (ParametricControlledOperation, None, None, True),
             (ops.CX, 1, "X", False), (ops.CRY, 1, "RY", True), (ops.CHadamard, 1, "Hadamard", False)]
    uses = derived = 0

    def use(i):
        nonlocal uses
        cls, nc, target, parametric = known[i]
        if nc is None:
            return
        uses += i >= 5
        k = nc + 1
        what = f"{cls.__name__} ({[c.__name__ for c in cls.__mro__[1:-1]]})"
        values = [0.3 + i] if parametric else []
        args = [values] if parametric else []
        qubits = [Qubit(j) for j in range(k)]
        how = r.choice(["class", "bare", "made", "matrix", "refused"])
        if how == "class":
            require((cls.num_qubits, cls.num_control) == (k, nc),
                    lambda: f"{what}: {cls.num_qubits} qubits, {cls.num_control} controls")
        elif how == "bare":
            op = cls(*args)
            require(op.num_control == nc, lambda: f"{what}: {op.num_control} controls")
        elif how == "made":
            op = cls(*args, qubits[:nc], qubits[nc:])
            require((op.num_qubits, op.qubits, op.control, op.target)
                    == (k, tuple(qubits), tuple(qubits[:nc]), tuple(qubits[nc:])),
                    lambda: f"{what}: {op}")
        elif how == "refused":
            lib.expect_raises(ValueError, lambda: cls(*args, qubits[:nc], qubits[1:] + [Qubit("x")]),
                              f"{what} on too many qubits")
        else:
            got = cls(*args).matrix
            want = lib.controlled(lib.gate_ref(target, values), nc)
            require(lib.close(got, want), lambda: f"{what}: {lib.show(np.asarray(got))}")

    for j in range(case["k"]):
        for _ in range(r.randint(0, 3)):
            use(r.randrange(len(known)))
        base, nc, target, parametric = known[r.choice([r.randrange(len(known)), len(known) - 1])]
        body = {}
        if nc is None:
            body["_num_target"] = 1
        if nc is None or r.random() < 0.6:
            nc = body["_num_control"] = r.randint(1, 3)
        if target is None or r.random() < 0.5:
            target = r.choice(par if parametric else plain)
            body["_target_operation"] = getattr(ops, target)
        if parametric:
            body["_num_params"] = 1
        known.append((type(f"Derived{j}", (base,), body), nc, target, parametric))
        derived += base not in (ControlledOperation, ParametricControlledOperation)
    for i in r.sample(range(len(known)), len(known)):
        use(i)
    ctx.nontrivial(derived > 0 and uses > 2)
