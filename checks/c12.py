"""C12: circuit registers and (qu)bits stay consistent under any edits."""

import copy

from hypothesis import strategies as st

from checks import lib
from vf.core import Check, require

check = Check(
    "C12",
    rule=(
        "random histories of adding registers, qubits and bits (new, given, duplicate, of wrong "
        "type; default, used, new and falsy labels), setting bits, relabelling, searching, applying "
        "operations and resetting, against a model; non-trivial: at least two non-empty registers "
        "and a rejected edit or a reset"
    ),
    assumptions=["registers are edited through the circuit only"],
)

LABELS = ["a", "b", "qreg0", "qreg1", "creg0", "creg2", 0, 1, "", "0", ("t", 1), None, None, None]


def _enc(lab):
    return list(lab) if isinstance(lab, tuple) else lab


def _dec(lab):
    return tuple(lab) if isinstance(lab, list) else lab


def steps():
    lab = st.sampled_from([_enc(x) for x in LABELS])
    side = st.sampled_from(["q", "c"])
    i = st.integers(0, 7)
    return st.one_of(
        st.builds(lambda s, n, l: {"k": "reg", "s": s, "n": n, "l": l}, side,
                  st.sampled_from([0, 0, 1, 2, 3]), lab),
        st.builds(lambda s, o, l, i: {"k": "one", "s": s, "o": o, "l": l, "i": i}, side,
                  st.sampled_from(["new", "new", "given", "given", "dup", "dup", "type", "type2",
                                   "type3", "shared"]), lab, i),
        st.builds(lambda i, v: {"k": "set", "i": i, "v": v}, i, st.sampled_from([0, 1, None])),
        st.builds(lambda s, i, l: {"k": "relabel", "s": s, "i": i, "l": l}, side, i,
                  st.sampled_from(["0", "1", "x", 0, ""])),
        st.builds(lambda s, l, r, a: {"k": "get", "s": s, "l": l, "r": r, "all": a}, side,
                  st.sampled_from(["0", "1", "2", "3", "x", 0, "", "given"]), lab, st.booleans()),
        st.builds(lambda s, i: {"k": "missing", "s": s, "i": i}, side, i),
        st.builds(lambda i: {"k": "op", "i": i}, i),
        st.builds(lambda keep: {"k": "reset", "keep": keep}, st.sampled_from([True, True, False])),
        st.just({"k": "copy"}),
        st.builds(lambda i: {"k": "sim", "i": i}, i),
    )


class Side:
    """One of the two halves (quantum, classical) of the bookkeeping."""

    def __init__(self, circuit, s):
        from dwave.gate.primitives import Bit, Qubit

        self.circuit, self.s = circuit, s
        q = s == "q"
        self.cls, self.other = (Qubit, Bit) if q else (Bit, Qubit)
        self.add_reg = circuit.add_qregister if q else circuit.add_cregister
        self.add_one = circuit.add_qubit if q else circuit.add_bit
        self.find = circuit.find_qubit if q else circuit.find_bit
        self.get = circuit.get_qubit if q else circuit.get_bit
        self.num_kw = "num_qubits" if q else "num_bits"
        self.one_kw = "qubit" if q else "bit"
        self.lab_kw = "qreg_label" if q else "creg_label"
        self.model = {}
        self.regobj = {}

    @property
    def regs(self):
        return self.circuit.qregisters if self.s == "q" else self.circuit.cregisters

    @property
    def all(self):
        return self.circuit.qubits if self.s == "q" else self.circuit.bits

    @property
    def num(self):
        return self.circuit.num_qubits if self.s == "q" else self.circuit.num_bits

    def flat(self):
        return [x for r in self.model.values() for x in r]

    def check(self, what):
        regs = self.regs
        require(
            list(regs) == list(self.model),
            lambda: f"{what}: register labels {list(regs)}, expected {list(self.model)}",
        )
        for lab, want in self.model.items():
            got = list(regs[lab])
            require(
                len(got) == len(want) and all(a is b for a, b in zip(got, want)),
                lambda: f"{what}: register {lab!r} holds {got}, expected {want}",
            )
            require(regs[lab] is self.regobj[lab], lambda: f"{what}: register {lab!r} replaced")
            require(len(regs[lab]) == len(want), f"{what}: wrong length")
        flat = self.flat()
        got = list(self.all)
        require(
            len(got) == len(flat) and all(a is b for a, b in zip(got, flat)),
            lambda: f"{what}: circuit has {got}, expected {flat}",
        )
        require(self.num == len(flat) == len(self.all), lambda: f"{what}: number is {self.num}")
        require(len({x.id for x in flat}) == len(flat), f"{what}: ids repeat")
        for ri, (lab, want) in enumerate(self.model.items()):
            for k, x in enumerate(want):
                require(
                    self.find(x) == (ri, k) and self.find(x, True) == (lab, k)
                    and self.find(x, **{self.lab_kw: True}) == (lab, k),
                    lambda: f"{what}: {x} found at {self.find(x)}, {self.find(x, True)} instead "
                    f"of register {ri} ({lab!r}), index {k}",
                )
        for k, x in enumerate(flat):
            require(
                self.all.index(x) == k and self.all[k] is x and x in self.all
                and self.all.count(x) == 1,
                lambda: f"{what}: {x} is at {self.all.index(x)}, expected {k}",
            )


@check.sub(
    "history",
    lambda: st.fixed_dictionaries(
        {
            "nq": st.sampled_from([None, None, 0, 1, 3]),
            "nb": st.sampled_from([None, None, 0, 1, 3]),
            "cls": st.sampled_from(["Circuit", "Circuit", "ParametricCircuit"]),
            "steps": st.lists(steps(), min_size=8, max_size=22),
            "lazy": st.booleans(),
        }
    ),
    quick=7000,
    thorough=80000,
)
def history(case, ctx):
    from dwave.gate import circuit as dc
    from dwave.gate.circuit import Circuit

    cls = getattr(dc, case["cls"])
    kw = {}
    if case["nq"] is not None:
        kw["num_qubits"] = case["nq"]
    if case["nb"] is not None:
        kw["num_bits"] = case["nb"]
    circuit = cls(**kw)
    sides = {"q": Side(circuit, "q"), "c": Side(circuit, "c")}
    bystander = Circuit(2, 2)
    by_q, by_c = list(bystander.qubits), list(bystander.bits)
    for s, n in (("q", case["nq"]), ("c", case["nb"])):
        side = sides[s]
        regs = side.regs
        require(len(regs) == (n is not None), lambda: f"initial registers {regs}")
        if n is not None:
            lab = list(regs)[0]
            require(len(regs[lab]) == n, "initial register has the wrong size")
            side.model[lab], side.regobj[lab] = list(regs[lab]), regs[lab]
    rejected = False
    opcount = 0
    for j, stp in enumerate(case["steps"]):
        k = stp["k"]
        what = f"step {j} {stp}"
        side = sides[stp.get("s", "q")]
        if k == "reg":
            rejected |= _add_register(side, stp, what)
        elif k == "one":
            rejected |= _add_one(side, stp, sides, what, bystander)
        elif k == "set":
            bits = sides["c"].flat()
            if bits:
                b = bits[stp["i"] % len(bits)]
                b.reset() if stp["v"] is None else b.set(stp["v"], force=True)
        elif k == "relabel":
            items = side.flat()
            if items:
                items[stp["i"] % len(items)].label = stp["l"]
        elif k == "get":
            _get(side, stp, what)
        elif k == "missing":
            x = side.cls("0")
            if stp["i"] % 2 and side.s == "c":
                x.set(stp["i"] % 4 // 2)
            lib.expect_raises(ValueError, lambda: side.find(x), "finding a foreign item")
            require(x not in side.all, "a foreign item is in the circuit")
            other = by_q[0] if side.s == "q" else by_c[0]
            if not any(other is y for y in side.flat()):
                lib.expect_raises(ValueError, lambda: side.find(other), "finding a foreign item")
        elif k == "op":
            qs = sides["q"].flat()
            if qs:
                import dwave.gate.operations as ops

                circuit.unlock()
                with circuit.context as regs:
                    require(
                        list(regs.q) == qs and list(regs.c) == sides["c"].flat(),
                        lambda: f"{what}: context gives {regs}",
                    )
                    ops.X(regs.q[stp["i"] % len(qs)])
                require(circuit.circuit[-1].qubits == (qs[stp["i"] % len(qs)],), "wrong qubit")
                opcount += 1
        elif k == "reset":
            rejected = True
            circuit.reset(stp["keep"])
            opcount = 0
            if not stp["keep"]:
                for sd in sides.values():
                    sd.model.clear()
                    sd.regobj.clear()
            else:
                require(all(b.value is None for b in circuit.bits), f"{what}: bits keep values")
        elif k == "copy":
            other = copy.deepcopy(circuit)
            for s in "qc":
                mine = Side(other, s)
                require(
                    [(lab, [x.id for x in r]) for lab, r in mine.regs.items()]
                    == [(lab, [x.id for x in r]) for lab, r in sides[s].model.items()],
                    "a copy has other registers",
                )
                mine.add_reg(2, "copy-only")
                mine.add_one()
            require("copy-only" not in circuit.qregisters, "a copy shares its registers")
        elif k == "sim":
            from dwave.gate.simulator import simulate

            if 0 < circuit.num_qubits <= 8:
                simulate(circuit)
                require(len(circuit.state) == 2**circuit.num_qubits, f"{what}: wrong dimension")
        if case["lazy"] and j % 3 != 2:
            continue  # caches are only read now and then
        for sd in sides.values():
            sd.check(what)
        require(len(circuit.circuit) == opcount, lambda: f"{what}: operations changed")
    for sd in sides.values():
        sd.check("end")
    require(
        list(bystander.qubits) == by_q and list(bystander.bits) == by_c,
        "another circuit was changed",
    )
    q = sides["q"].model
    c = sides["c"].model
    ctx.nontrivial(
        rejected and (sum(1 for r in q.values() if r) > 1 or sum(1 for r in c.values() if r) > 1)
    )


def _add_register(side, stp, what):
    lab, n = _dec(stp["l"]), stp["n"]
    if lab is not None and lab in side.model:
        lib.expect_raises(ValueError, lambda: side.add_reg(n, lab), f"{what}: label in use")
        lib.expect_raises(ValueError, lambda: side.add_reg(label=lab), f"{what}: label in use")
        return True
    before = list(side.model)
    old = set(x.id for x in side.flat())
    if lab is None and n == 0:
        side.add_reg()
    elif lab is None:
        side.add_reg(n)
    elif n % 2:
        side.add_reg(n, lab)
    else:
        side.add_reg(**{side.num_kw: n, "label": lab})
    labels = list(side.regs)
    require(labels[:-1] == before, lambda: f"{what}: labels {labels}, before {before}")
    new = labels[-1]
    require(lab is None or new == lab, lambda: f"{what}: labelled {new!r}")
    reg = side.regs[new]
    require(len(reg) == n, lambda: f"{what}: {len(reg)} items")
    require(
        all(isinstance(x, side.cls) and x.id not in old for x in reg), f"{what}: items not new"
    )
    side.model[new], side.regobj[new] = list(reg), reg
    return False


def _add_one(side, stp, sides, what, bystander):
    lab, o, i = _dec(stp["l"]), stp["o"], stp["i"]
    flat = side.flat()
    kw = {} if lab is None else {side.lab_kw: lab}
    exc, item = None, None
    if o == "dup" and flat:
        exc, item = ValueError, flat[i % len(flat)]
    elif o == "type":
        exc, item = TypeError, side.other("0")
    elif o == "type2":
        exc, item = TypeError, ["0", 0, 1, "", 0.5, ()][i % 6]
    elif o == "type3":
        exc, item = TypeError, side.other
    elif o == "given":
        item = side.cls("given")
        if side.s == "c" and i % 3:
            item.set(i % 3 - 1)
    elif o == "shared":
        src = bystander.qubits if side.s == "q" else bystander.bits
        item = src[i % 2]
        if item in flat:
            exc = ValueError
    if exc:
        lib.expect_raises(exc, lambda: side.add_one(item, **kw), f"{what}: adding {item!r}")
        if i % 2:
            lib.expect_raises(
                exc, lambda: side.add_one(**{side.one_kw: item}, **kw), f"{what}: adding {item!r}"
            )
        return True
    before = list(side.model)
    if item is None:
        side.add_one(**kw)
    elif i % 2:
        side.add_one(item, **kw)
    else:
        side.add_one(**{side.one_kw: item}, **kw)
    labels = list(side.regs)
    if lab is None:
        target = before[0] if before else labels[-1]
    else:
        target = lab
    expected = before if target in before else before + [target]
    require(labels == expected, lambda: f"{what}: labels {labels}, expected {expected}")
    reg = side.regs[target]
    if target not in side.model:
        side.model[target], side.regobj[target] = [], reg
    require(
        len(reg) == len(side.model[target]) + 1, lambda: f"{what}: {len(reg)} items in {target!r}"
    )
    new = reg[len(reg) - 1]
    if item is not None:
        require(new is item, lambda: f"{what}: {new} was added instead of {item}")
    else:
        require(
            isinstance(new, side.cls) and new not in flat and new.label == str(len(flat)),
            lambda: f"{what}: {new} was added",
        )
    side.model[target].append(new)
    return False


def _get(side, stp, what):
    lab, r = stp["l"], _dec(stp["r"])
    if r is not None and r not in side.model:
        kind, res = lib.outcome(lambda: side.get(lab, r))
        require(kind == "err", lambda: f"{what}: found {res} in a register that does not exist")
        return
    pool = side.flat() if r is None else side.model[r]
    want = [x for x in pool if x.label == lab]
    kw = {} if r is None else {side.lab_kw: r}
    if not want:
        lib.expect_raises(ValueError, lambda: side.get(lab, **kw), f"{what}: not there")
        lib.expect_raises(
            ValueError, lambda: side.get(lab, return_all=True, **kw), f"{what}: not there"
        )
    elif stp["all"]:
        got = side.get(lab, return_all=True, **kw)
        require(
            len(got) == len(want) and all(a is b for a, b in zip(got, want)),
            lambda: f"{what}: got {got}, expected {want}",
        )
    else:
        got = side.get(lab, **kw)
        require(got is want[0], lambda: f"{what}: got {got}, expected {want[0]}")


def _layouts():
    label = st.sampled_from(["0", "1", "x", "", 0, "given"])
    return st.lists(st.lists(label, max_size=3), min_size=1, max_size=4)


@check.sub(
    "many-registers",
    lambda: st.fixed_dictionaries(
        {"steps": st.integers(20, 120), "label": st.booleans(), "seed": st.integers(0, 2**32 - 1)}
    ),
    quick=120,
    thorough=2500,
)
def many_registers(case, ctx):
    """Dozens of registers of up to 40 items."""
    import random

    r = random.Random(case["seed"])
    labels = [f"r{k}" for k in range(40)] + [_enc(x) for x in LABELS]
    steps = []
    for _ in range(case["steps"]):
        s, i = r.choice("qc"), r.randrange(60)
        x = r.random()
        lab = r.choice(labels) if case["label"] or r.random() < 0.2 else None
        if x < 0.5:
            n = r.choice([0, 1, 2, 3, 11, 40]) if x < 0.1 else r.randrange(3)
            steps.append({"k": "reg", "s": s, "n": n, "l": lab})
        elif x < 0.7:
            o = r.choice(["new", "new", "given", "given", "dup", "type", "shared"])
            steps.append({"k": "one", "s": s, "o": o, "l": lab, "i": i})
        elif x < 0.8:
            steps.append({"k": "get", "s": s, "l": str(r.randrange(30)),
                          "r": r.choice(labels), "all": r.random() < 0.5})
        elif x < 0.9:
            steps.append({"k": "relabel", "s": s, "i": i, "l": str(r.randrange(5))})
        elif x < 0.95:
            steps.append({"k": r.choice(["op", "missing"]), "s": s, "i": i})
        elif x < 0.97:
            steps.append({"k": "copy"})
        else:
            steps.append({"k": "set", "i": i, "v": r.choice([0, 1, None])})
    history(
        {"nq": None, "nb": None, "cls": "Circuit", "steps": steps, "lazy": r.random() < 0.8}, ctx
    )


@check.sub(
    "lookup",
    lambda: st.fixed_dictionaries(
        {"q": _layouts(), "c": _layouts(), "move": st.lists(st.integers(0, 11), max_size=4)}
    ),
    quick=800,
    thorough=15000,
)
def lookup(case, ctx):
    """Every lookup by label, with labels that occur in several registers."""
    from dwave.gate.circuit import Circuit

    circuit = Circuit()
    sides = {"q": Side(circuit, "q"), "c": Side(circuit, "c")}
    for s, side in sides.items():
        for r, labels in enumerate(case[s]):
            side.add_reg(label=f"r{r}")
            side.model[f"r{r}"], side.regobj[f"r{r}"] = [], side.regs[f"r{r}"]
        # not register by register
        todo = sorted(
            ((i, r, lab) for r, labels in enumerate(case[s]) for i, lab in enumerate(labels)),
            key=lambda x: x[:2],
        )
        for _, r, lab in todo:
            item = side.cls(lab)
            side.add_one(item, f"r{r}")
            side.model[f"r{r}"].append(item)
        side.check("built")
    for round in range(2):
        for s, side in sides.items():
            labels = [x.label for x in side.flat()]
            ctx.nontrivial(len(set(map(repr, labels))) < len(labels) and len(case[s]) > 1)
            for lab in ["0", "1", "x", "", 0, "given", "relabelled"]:
                for r in [None] + sorted(side.model) + ["nowhere"]:
                    for a in (False, True):
                        _get(side, {"l": lab, "r": r, "all": a}, f"{s} {lab!r} in {r!r}, {a}")
        # other labels, with the same items
        for s, side in sides.items():
            flat = side.flat()
            for m in case["move"]:
                if flat:
                    flat[m % len(flat)].label = ["relabelled", "0"][m % 2]
