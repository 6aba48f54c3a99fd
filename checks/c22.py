"""C22: mixed properties give class and instance access without mixing them up."""

import functools

from hypothesis import strategies as st

from checks import lib
from vf.core import Check, require

check = Check(
    "C22",
    rule=(
        "random class hierarchies (up to five classes, multiple inheritance, falsy and unusual "
        "instances) whose mixed properties record how they are evaluated, accessed through every "
        "class and instance; non-trivial: an overriding property that calls its parent's, or a "
        "property requiring an instance accessed through a class"
    ),
    assumptions=[
        "properties requiring an instance take it as second argument",
    ],
)

NAMES = ["a", "b", "c"]
MARK = {}


def props():
    return st.fixed_dictionaries(
        {
            "arity": st.sampled_from([1, 2, 2, 2]),
            "req": st.booleans(),
            "form": st.sampled_from(["plain", "parens", "kw", "direct", "late"]),
            "fn": st.sampled_from(["def", "lambda", "wraps", "default", "callable", "names"]),
            "body": st.sampled_from(["token", "token", "super", "raise", "attr-error", "other",
                                     "none", "false"]),
            "exc": st.sampled_from(["Fault", "TypeError", "KeyError", "NotImplementedError",
                                    "ValueError", "StopIteration"]),
        }
    )


def classes():
    cls = st.fixed_dictionaries(
        {
            "bases": st.lists(st.integers(0, 4), max_size=2),
            "props": st.dictionaries(st.sampled_from(NAMES), props(), max_size=3),
            "inst": st.sampled_from(["plain", "falsy", "empty", "eq", "slots-like", "badbool"]),
        }
    )
    return st.fixed_dictionaries(
        {
            "classes": st.lists(cls, min_size=1, max_size=5),
            "access": st.lists(
                st.tuples(
                    st.integers(0, 4), st.booleans(), st.sampled_from(NAMES),
                    st.sampled_from(["get", "get", "get", "getattr", "set", "del", "shadow",
                                     "change", "super"]),
                ).map(list),
                min_size=3,
                max_size=12,
            ),
        }
    )


class Fault(Exception):
    pass


EXC = {
    e.__name__: type(f"Own{e.__name__}", (e,), {})
    for e in (TypeError, KeyError, NotImplementedError, ValueError, StopIteration)
}
EXC["Fault"] = Fault


def _special(kind):
    if kind == "falsy":
        return {"__bool__": lambda self: False}
    if kind == "empty":
        return {"__len__": lambda self: 0}
    if kind == "eq":
        return {"__eq__": lambda self, o: True, "__hash__": lambda self: 1}
    if kind == "badbool":

        def bad(self):
            raise Fault("truth value used")

        return {"__bool__": bad}
    return {}


def _make(spec, name, owner, log):
    """The mixed property; owner() is the class that defines it."""
    from dwave.gate.mixedproperty import mixedproperty

    arity, body = spec["arity"], spec["body"]
    req = spec["req"] and arity == 2

    def core(cls, *self):
        log.append((owner(), name, cls, self))
        if body == "raise":
            raise EXC[spec.get("exc", "Fault")](name)
        if body == "attr-error":
            raise AttributeError(f"inner {name}")
        if body == "none":
            return None
        if body == "false":
            return False
        if body == "super":
            bound = super(owner(), self[0]) if self and self[0] is not None else super(owner(), cls)
            return ("super", owner(), getattr(bound, name, "missing"))
        if body == "other":
            # uses another property through what it was given
            other = NAMES[(NAMES.index(name) + 1) % len(NAMES)]
            if other == "a":
                other = "none"
            target = self[0] if self and self[0] is not None else cls
            return ("other", owner(), getattr(target, other, "missing"))
        return ("token", owner(), cls, self, getattr(self[0], "value", None) if self else None)

    if arity == 1:
        def fn(cls):
            return core(cls)
    elif spec["fn"] == "lambda":
        fn = lambda cls, self: core(cls, self)  # noqa: E731
    elif spec["fn"] == "default":
        def fn(cls, self=None):
            return core(cls, self)
    elif spec["fn"] == "names":
        def fn(owner_, x):
            return core(owner_, x)
    elif spec["fn"] == "wraps":
        def inner(cls, self):
            return "the wrapped function"

        @functools.wraps(inner)
        def fn(*args):
            inner(*args)
            return core(*args)
    else:
        def fn(cls, self):
            return core(cls, self)
    form = spec["form"]
    if form == "plain" and not req:
        return mixedproperty(fn)
    if form == "parens" and not req:
        return mixedproperty()(fn)
    if form == "direct":
        return mixedproperty(fn, self_required=req)
    return mixedproperty(self_required=req)(fn)


def _find(cls, name):
    for k in cls.__mro__:
        if name in vars(k):
            return k
    return None


def expect(cls, inst, name, specs, log, start=None):
    """("value", x), ("raise", type) or ("missing",) and the expected log."""
    mro = cls.__mro__
    if start is not None:
        mro = mro[mro.index(start) + 1:]
    owner = next((k for k in mro if k in specs and name in specs[k]), None)
    if owner is None:
        return ("missing",)
    spec = specs[owner][name]
    arity, body = spec["arity"], spec["body"]
    req = spec["req"] and arity == 2
    if req and inst is None:
        return ("value", None)
    self = (inst,) if arity == 2 else ()
    log.append((owner, name, cls, self))
    if body == "raise":
        return ("raise", EXC[spec.get("exc", "Fault")])
    if body == "attr-error":
        return ("raise", AttributeError)
    if body == "none":
        return ("value", None)
    if body == "false":
        return ("value", False)
    given = inst if arity == 2 else None
    if body == "super":
        r = expect(cls, given, name, specs, log, start=owner)
        if r[0] == "missing":
            r = ("value", "missing")
        elif r == ("raise", AttributeError):
            r = ("value", "missing")  # getattr with a default
        return r if r[0] == "raise" else ("value", ("super", owner, r[1]))
    if body == "other":
        other = NAMES[(NAMES.index(name) + 1) % len(NAMES)]
        r = ("missing",) if other == "a" else expect(cls, given, other, specs, log)
        if r[0] == "missing" or r == ("raise", AttributeError):
            r = ("value", "missing")
        return r if r[0] == "raise" else ("value", ("other", owner, r[1]))
    value = inst.__dict__.get("value") if self and inst is not None else None
    return ("value", ("token", owner, cls, self, value))


def _identical(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(_identical(x, y) for x, y in zip(a, b))
    return a is b or (type(a) is type(b) and isinstance(a, (str, int)) and a == b)


@check.sub(
    "deep",
    lambda: st.fixed_dictionaries(
        {
            "define": st.lists(st.booleans(), min_size=1, max_size=16),
            "values": st.lists(st.booleans(), min_size=1, max_size=16),
            "mixins": st.integers(0, 4),
            "required": st.booleans(),
        }
    ),
    fixed=lambda: [{"define": [True] + [False] * 14, "values": [True] * 15, "mixins": m,
                    "required": r} for m in (0, 3) for r in (False, True)],
    quick=400,
    thorough=8000,
)
def deep(case, ctx):
    """Chains of classes of any depth, redefining properties and values anywhere."""
    from dwave.gate.mixedproperty import mixedproperty

    def define(tag):
        @mixedproperty
        def one(cls):
            return tag, cls, cls.v

        @mixedproperty(self_required=case["required"])
        def two(cls, self):
            return tag, cls, self, (cls if self is None else self).v

        return {"one": one, "two": two}

    mixins = tuple(type(f"M{i}", (), {"v": f"m{i}"}) for i in range(case["mixins"]))
    cls, tag, v = type("A", (), {"v": "a", **define("a")}), "a", "a"
    ctx.nontrivial(len(case["define"]) > 3)
    for i, d in enumerate(case["define"]):
        body = {}
        if d:
            tag = i
            body.update(define(i))
        if case["values"][i % len(case["values"])]:
            v = body["v"] = f"v{i}"
        cls = type(f"K{i}", (cls, *(mixins if i == 0 else ())), body)
        what = f"class {i} of the chain"
        require(cls.one == (tag, cls, v), lambda: f"{what}: {cls.one}, expected {(tag, cls, v)}")
        want = None if case["required"] else (tag, cls, None, v)
        require(cls.two == want, lambda: f"{what}: {cls.two}, expected {want}")
        obj = cls()
        require(obj.one == (tag, cls, v), lambda: f"instance of {what}: {obj.one}")
        require(obj.two == (tag, cls, obj, v), lambda: f"instance of {what}: {obj.two}")
        obj.v = "own"
        require(obj.one == (tag, cls, v), lambda: f"instance of {what}: {obj.one}")
        require(obj.two == (tag, cls, obj, "own"), lambda: f"instance of {what}: {obj.two}")


@check.sub("hierarchy", classes, quick=6000, thorough=150000)
def hierarchy(case, ctx):
    log = []
    made, specs = [], {}
    for i, c in enumerate(case["classes"]):
        bases = []
        for b in c["bases"]:
            if b < len(made) and made[b] not in bases:
                bases.append(made[b])
        cell = []
        ns = dict(_special(c["inst"]))
        for name, spec in c["props"].items():
            ns[name] = _make(spec, name, lambda cell=cell: cell[0], log)
        try:
            cls = type(f"C{i}", tuple(bases), ns)
        except TypeError:
            cls = type(f"C{i}", (), ns)  # inconsistent bases
        cell.append(cls)
        made.append(cls)
        specs[cls] = c["props"]
    insts = [cls() for cls in made]
    for i, x in enumerate(insts):
        x.__dict__["value"] = f"v{i}"
    interesting = False
    for j, (ci, on_inst, name, how) in enumerate(case["access"]):
        cls = made[ci % len(made)]
        x = insts[ci % len(made)]
        what = f"access {j}: {name} of {cls.__name__} {'instance' if on_inst else 'class'} ({how})"
        owner = next((k for k in cls.__mro__ if k in specs and name in specs[k]), None)
        if how in ("set", "del"):
            if owner is None:
                continue
            log.clear()
            if how == "set":
                lib.expect_raises(AttributeError, lambda: setattr(x, name, 1), what)
            else:
                lib.expect_raises(AttributeError, lambda: delattr(x, name), what)
            require(not log, f"{what}: the function was called")
            require(name not in x.__dict__, f"{what}: stored in the instance")
            continue
        if how == "change":
            x.__dict__["value"] = f"changed{j}"
        want_log = []
        inst = x if on_inst else None
        want = expect(cls, inst, name, specs, want_log)
        if how == "super" and owner is not None:
            want_log = []
            want = expect(cls, inst, name, specs, want_log, start=owner)
        if how == "shadow" and owner is not None:
            x.__dict__[name] = "shadow"
        log.clear()
        try:
            if how == "super" and owner is not None:
                target = super(owner, x) if on_inst else super(owner, cls)
                got = ("value", getattr(target, name))
            else:
                got = ("value", getattr(x if on_inst else cls, name))
        except tuple(EXC.values()) as e:
            got = ("raise", type(e))
        except AttributeError as e:
            got = ("raise", AttributeError) if "inner" in str(e) else ("missing",)
        finally:
            if how == "shadow":
                x.__dict__.pop(name, None)
        require(
            got[0] == want[0] and _identical(got, want),
            lambda: f"{what}: got {_show(got)}, expected {_show(want)}",
        )
        require(
            len(log) == len(want_log) and all(_identical(a, b) for a, b in zip(log, want_log)),
            lambda: f"{what}: evaluated {_show(log)}, expected {_show(want_log)}",
        )
        if owner is not None:
            spec = specs[owner][name]
            interesting |= (spec["body"] == "super" and len(want_log) > 1) or (
                spec["req"] and spec["arity"] == 2 and not on_inst
            )
    ctx.nontrivial(interesting)


def _show(x):
    if isinstance(x, (tuple, list)):
        return "(" + ", ".join(_show(y) for y in x) + ")"
    if isinstance(x, type):
        return x.__name__
    return f"<{type(x).__name__}>" if type(x).__name__.startswith("C") else str(x)
