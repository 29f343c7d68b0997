"""Abstract model of the Pyomo modelling objects the repository builds.

Parameters resolve to the *source* their declaration names (configuration
path, regional table column or data series), so that laws can be stated over
the user's inputs and not over internal names.
"""
import ast
from fractions import Fraction

from . import terms as tm
from .terms import T, Term
from .interp import (Builtin, BoundV, FuncV, PyExc, Unsupported, InstV, VecV, RangeV, SetV, freeze, hkey, Interp)


def _real(ctype, scalar=True):
    """The library's class of a component type, which knows which attributes exist (looked up, never run)."""
    import pyomo.environ as pe
    for n in (("Scalar" if scalar else "Indexed") + ctype, ctype):
        for m in (pe, __import__("pyomo.core.base." + ctype.lower(), fromlist=["x"]) if ctype in ("Var", "Param", "Set", "Constraint", "Expression", "Objective") else pe):
            if hasattr(m, n):
                return getattr(m, n)
    return pe.Component if hasattr(pe, "Component") else object

SKIP = T("ext", "pyomo.environ.Constraint.Skip")
FEASIBLE = T("ext", "pyomo.environ.Constraint.Feasible")

COMPONENTS = ("Param", "Var", "Set", "Constraint", "Objective", "RangeSet", "Expression", "ConstraintList", "BuildAction", "BuildCheck")


def region_atom(name):
    return T("sym", "reg", name)


class World:
    """How symbolic inputs of the model are laid out."""

    def __init__(self, horizon=3, regions=("R1", "R2", "R3")):
        self.N = horizon
        self.times = list(range(horizon + 1))
        self.regions = [region_atom(r) for r in regions]
        self.start = T("sym", "cfg", "time.start")
        self.dt = T("sym", "cfg", "time.dt")
        self.strings = {}  # resolved non numeric params

    def year(self, it, t):
        return it.binop(ast.Add, self.start, it.binop(ast.Mult, t, self.dt))


def call_rule(it, rule, model, idx):
    """Pyomo calls a rule with one positional argument as rule(model)."""
    if isinstance(rule, (FuncV, BoundV)):
        f = rule.func if isinstance(rule, BoundV) else rule
        a = f.node.args
        n = len(a.posonlyargs) + len(a.args) - (1 if isinstance(rule, BoundV) else 0)
        if n == 1 and a.vararg is None and not a.defaults:
            return it.call(rule, [model], {})
    if isinstance(rule, (FuncV, BoundV, Builtin)):
        return it.call(rule, [model] + list(idx), {})
    return rule


def cached(comp, it, idx, compute):
    """Memoised initialiser value, valid where its decisions hold."""
    have = None
    for decided, v in comp._cache.get(idx, ()):
        if have is None:
            have = set(it.path)
        if decided <= have:
            return v
    v = compute()
    comp._cache.setdefault(idx, []).append((frozenset(it.path), v))
    return v


def cfg(path):
    return T("sym", "cfg", path)


class SetC:
    """A Pyomo Set component of the abstract model."""

    ctype = "Set"

    def __init__(self, kwargs, args):
        self.kwargs, self.args = kwargs, args
        self.name = None
        self.model = None

    def elements(self, it):
        w = self.model.world
        if self.name == "t":
            return list(w.times)
        if self.name == "regions":
            return list(w.regions)
        init = self.kwargs.get("initialize")
        if init is not None:
            if isinstance(init, (FuncV, BoundV)):
                init = it.call(init, [self.model], {})
            return list(it.iterate(init))
        raise Unsupported(f"set {self.name} without known members")

    def abs_iter(self, it):
        return self.elements(it)

    def abs_len(self, it):
        return len(self.elements(it))

    def abs_array(self, it):
        return VecV(self.elements(it))

    def contains(self, it, x):
        return it.contains(x, self.elements(it))

    def abs_getattr(self, it, name):
        el = self.elements
        if name == "first":
            return Builtin("first", lambda it, a, k: el(it)[0])
        if name == "last":
            return Builtin("last", lambda it, a, k: el(it)[-1])
        if name in ("ordered_data", "data"):
            return Builtin(name, lambda it, a, k: tuple(el(it)))
        if name in ("name", "local_name"):
            return self.name
        if name == "prev":
            return Builtin("prev", lambda it, a, k: el(it)[_idx(it, el(it), a[0]) - 1])
        if name == "next":
            return Builtin("next", lambda it, a, k: el(it)[_idx(it, el(it), a[0]) + 1])
        if name == "at":
            return Builtin("at", lambda it, a, k: el(it)[a[0] - 1 if a[0] > 0 else a[0]])
        if name == "ord":
            return Builtin("ord", lambda it, a, k: _idx(it, el(it), a[0]) + 1)
        it.no_attr(_real("Set"), name, f"Set has no attribute {name!r}")

    def abs_getitem(self, it, k):
        if isinstance(k, (tuple, str, float)):
            raise PyExc(TypeError, ("a Set cannot be indexed by " + type(k).__name__,))
        raise Unsupported("subscript of a Set")

    def abs_isinstance(self, it, t):
        return t.op == "ext" and t.args[0].split(".")[-1] == "Set"


def _idx(it, els, x):
    for i, e in enumerate(els):
        if e is x or e == x:
            return i
    raise PyExc(KeyError, (x,))


class IndexSetV:
    def __init__(self, comp):
        self.comp = comp

    def abs_getattr(self, it, name):
        if name == "dimen":
            n = len(self.comp.sets)
            return n if n else 0
        if name == "subsets":
            return Builtin("subsets", lambda it, a, k: list(self.comp.sets))
        if name == "name":
            return "index"
        raise Unsupported(f"index_set().{name}")

    def abs_iter(self, it):
        return self.comp.index_values(it)


class Comp:
    """Param / Var / Constraint / Objective / Expression component."""
    known_object = True

    def __init__(self, ctype, sets, kwargs, where):
        self.ctype, self.sets, self.kwargs, self.where = ctype, sets, kwargs, where
        self.name = None
        self.model = None
        self.active = True
        self._cache = {}

    def __repr__(self):
        return f"<{self.ctype} {self.name}>"

    @property
    def indexed(self):
        return bool(self.sets)

    def index_values(self, it):
        out = [()]
        for s in self.sets:
            out = [o + (e,) for o in out for e in s.elements(it)]
        if not self.sets:
            return [None]
        return [o[0] if len(o) == 1 else o for o in out]

    # ---- values ---------------------------------------------------------

    def check_index(self, it, key):
        idx = key if isinstance(key, tuple) else (() if key is None and not self.sets else (key,))
        if len(idx) != len(self.sets):
            raise PyExc(KeyError, (f"Index {tm.show(freeze(key))} is not valid for indexed component '{self.name}'",))
        out = []
        for s, i in zip(self.sets, idx):
            i = it.scalar(i)
            i = it.toint(i)
            if isinstance(i, float) and i.is_integer():
                i = int(i)
            els = s.elements(it)
            ok = False
            for e in els:
                if e is i or (not isinstance(e, Term) and not isinstance(i, Term) and e == i):
                    ok = True
                    i = e
                    break
            if not ok:
                if isinstance(i, Term) and not (i.op == "sym" and i.args[0] == "reg"):
                    for e in els:
                        if it.decide_eq(i, e):
                            ok, i = True, e
                            break
                if not ok:
                    raise PyExc(KeyError, (f"Index {tm.show(freeze(key))} is not valid for indexed component '{self.name}'",))
            out.append(i)
        return tuple(out)

    def entry(self, it, key):
        idx = self.check_index(it, key)
        if self.ctype == "Var":
            return T("var", self.name, *idx)
        if self.ctype == "Param":
            if not self.model_ready():
                return T("lazy", self.name, *idx)
            return self.param_value(it, idx)
        if self.ctype == "Expression":
            rule = self.kwargs.get("rule", self.kwargs.get("expr"))
            if isinstance(rule, (FuncV, BoundV)):
                return call_rule(it, rule, self.model, idx)
            return rule
        if self.ctype in ("Constraint", "Objective"):
            return DataV(self, idx)
        raise Unsupported(f"index of a {self.ctype}")

    def param_value(self, it, idx):
        w = self.model.world
        if self.name in w.manual(self.name, idx):
            return w.manual(self.name, idx)[self.name]
        src = self.source(it)
        if src is not None:
            kind, path = src
            if kind == "cfg":
                if idx:
                    raise PyExc(KeyError, (f"scalar configuration value bound to the indexed parameter {self.name!r}",))
                return cfg(path)
            if kind == "regional":
                if len(idx) != 1:
                    raise PyExc(KeyError, (f"regional table bound to parameter {self.name!r} with {len(idx)} indices",))
                return T("par", "regional::" + path, *idx)
            if kind == "timeandregional":
                if len(idx) != 2:
                    raise PyExc(KeyError, (f"data series bound to parameter {self.name!r} with {len(idx)} indices",))
                return T("par", "timeandregional::" + path, *idx)
        init = self.kwargs.get("initialize", self.kwargs.get("default", self.kwargs.get("rule")))
        if init is None:
            raise PyExc(ValueError, (f"parameter {self.name!r} has no value",))
        if isinstance(init, (FuncV, BoundV)):
            return cached(self, it, idx, lambda: call_rule(it, init, self.model, idx))
        if isinstance(init, dict):
            return it.getitem(init, idx[0] if len(idx) == 1 else idx)
        return init

    def source(self, it):
        doc = self.kwargs.get("doc")
        if doc is None:
            return None
        if isinstance(doc, (FuncV, BoundV)):
            doc = it.call(doc, [self.model.params_obj], {})
        if isinstance(doc, Term):
            doc = T("fstr", *doc.args) if doc.op == "fstr" else doc
            if doc.op == "fstr" and isinstance(doc.args[0], str):
                for k in ("timeandregional::", "regional::", "::"):
                    if doc.args[0].startswith(k):
                        rest = it.fstring([doc.args[0][len(k):]] + list(doc.args[1:]))
                        return {"::": "cfg"}.get(k, k[:-2]), PathKey(rest)
            raise Unsupported("parameter documentation string is not resolvable")
        if not isinstance(doc, str):
            return None
        for k in ("timeandregional::", "regional::", "::"):
            if doc.startswith(k):
                return {"::": "cfg"}.get(k, k[:-2]), doc.split("::")[1]
        return None

    def model_ready(self):
        return getattr(self.model, "scenario", None) is not None

    # ---- python protocol --------------------------------------------------

    def abs_getitem(self, it, key):
        return self.entry(it, key)

    def as_scalar(self, it):
        if self.sets:
            raise PyExc(TypeError, (f"indexed component {self.name!r} used as a number",))
        if self.ctype == "Var":
            return T("var", self.name)
        if self.ctype == "Param":
            if not self.model_ready():
                return T("lazy", self.name)
            v = self.param_value(it, ())
            if isinstance(v, str):
                raise PyExc(TypeError, ("string parameter used as a number",))
            return v
        if self.ctype == "Expression":
            return self.entry(it, None)
        raise PyExc(TypeError, (f"{self.ctype} used as a number",))

    def is_numeric_kind(self, it, v):
        if isinstance(v, (bool, int, float, Fraction)):
            return True
        if isinstance(v, Term):
            d = it.domain_of(v)
            if d is not None:
                return d.kind in ("num", "bool")
            return it.numericish(v)
        return False

    def abs_compare(self, it, op, o):
        if self.sets:
            raise PyExc(TypeError, ("comparison of an indexed component",))
        if self.ctype == "Param":
            v = self.param_value(it, ())
            if not self.is_numeric_kind(it, v):
                if op == "==":
                    return False
                if op == "!=":
                    return True
                raise PyExc(TypeError, ("ordering of a non-numeric parameter",))
        else:
            v = self.as_scalar(it)
        return it.compare(op, v, it.scalar(o))

    def abs_eq(self, it, o):
        if o is self:
            return True
        if isinstance(o, (str, type(None))):
            return False
        return self.abs_compare(it, "==", o)

    def truth(self, it):
        if self.sets:
            raise Unsupported("truth of an indexed component")
        if self.ctype == "Param":
            v = self.param_value(it, ())
            if self.is_numeric_kind(it, v):
                return it.truth(v)
            return True
        if self.ctype == "Var":
            raise PyExc(TypeError, ("truth value of a model variable",))
        return True

    def abs_str(self, it):
        return self.name or "None"

    def abs_type(self, it):
        return "Expression" if self.ctype == "Var" else "ScalarParam"

    def abs_getattr(self, it, name):
        if name == "name" or name == "local_name":
            return self.name
        if name == "doc":
            d = self.kwargs.get("doc")
            return d
        if name == "index_set":
            return Builtin("index_set", lambda it, a, k: IndexSetV(self))
        if name == "is_indexed":
            return Builtin("is_indexed", lambda it, a, k: bool(self.sets))
        if name == "deactivate":
            def deact(it, a, k):
                self.active = False
                it.event("deactivate", self)
            return Builtin("deactivate", deact)
        if name == "activate":
            def act(it, a, k):
                self.active = True
                it.event("activate", self)
            return Builtin("activate", act)
        if name == "active":
            return self.active
        if name == "keys":
            return Builtin("keys", lambda it, a, k: self.index_values(it))
        if name == "values":
            return Builtin("values", lambda it, a, k: [self.entry(it, i) for i in self.index_values(it)])
        if name == "items":
            return Builtin("items", lambda it, a, k: [(i, self.entry(it, i)) for i in self.index_values(it)])
        if name == "dim":
            return Builtin("dim", lambda it, a, k: len(self.sets))
        if name in ("fix", "unfix", "set_value"):
            def ev(it, a, k):
                it.event("var-" + name, self, None, tuple(a), dict(k))
            return Builtin(name, ev)
        if name == "value":
            return self.as_scalar(it)
        if name == "ctype":
            return T("ext", "pyomo.environ." + self.ctype)
        it.no_attr(_real(self.ctype, not self.sets), name, f"{self.ctype} {self.name!r} has no attribute {name!r}")

    def abs_setattr(self, it, name, val):
        it.event("comp-setattr", self, name, val)
        self.kwargs[name] = val

    def abs_setitem(self, it, key, val):
        it.event("comp-setitem", self, key, val)

    def abs_call(self, it, a, k):
        return self.as_scalar(it)

    def abs_iter(self, it):
        return self.index_values(it)

    def contains(self, it, x):
        return True

    def abs_isinstance(self, it, t):
        return t.op == "ext" and t.args[0].split(".")[-1] == self.ctype


class PathKey(str):
    """A symbolic table column; hashable through the term it stands for."""

    def __new__(cls, term):
        s = str.__new__(cls, term if isinstance(term, str) else tm.show(term))
        s.term = term
        return s


class DataV:
    """One index of a constraint or objective."""

    def __init__(self, comp, idx):
        self.comp, self.idx = comp, idx

    def abs_getattr(self, it, name):
        if name in ("deactivate", "activate"):
            return Builtin(name, lambda it, a, k: it.event(name + "-index", self.comp, self.idx))
        raise Unsupported(f"ConstraintData.{name}")


class ModelV:
    def __init__(self, world, kind="AbstractModel"):
        self.world = world
        self.kind = kind
        self.comps = {}
        self.attrs = {}
        self.log = []  # declaration diagnostics
        self.params_obj = None
        self.pruned = set()

    def declare(self, it, name, comp, where=None):
        if comp.name is not None and self.comps.get(comp.name) is comp and comp.name != name:
            raise PyExc(RuntimeError, (f"component {comp.name!r} attached twice",))
        comp.name = name
        comp.model = self
        self.comps[name] = comp

    def abs_setattr(self, it, name, val):
        if isinstance(val, (Comp, SetC)):
            if name in self.comps:
                self.log.append(("redeclared", name, _site(it)))
                it.event("redeclared", self, name)
            if name in self.attrs:
                # Pyomo refuses to shadow a plain attribute
                if self.attrs[name] is not None:
                    raise PyExc(RuntimeError, (f"attribute {name!r} already exists",))
                del self.attrs[name]
            self.declare(it, name, val)
            return
        if name in self.comps:
            comp = self.comps[name]
            it.event("comp-assign", comp, val)
            return
        self.attrs[name] = val
        it.event("setattr", self, name, val)

    def abs_getattr(self, it, name):
        if name in self.comps:
            return self.comps[name]
        if name == "year" and getattr(self, "rule_mode", True):
            w = self.world
            v = self.attrs.get("year")
            if v is None:
                return Builtin("year", lambda it, a, k: _year(it, w, a[0]))
            return v
        if name in self.attrs:
            return self.attrs[name]
        if name == "component_objects":
            def objs(it, a, k):
                ct = a[0] if a else k.get("ctype")
                out = list(self.comps.values())
                if ct is not None:
                    n = ct.args[0].split(".")[-1] if isinstance(ct, Term) else getattr(ct, "name", str(ct))
                    out = [c for c in out if c.ctype == n]
                if k.get("active") is True:
                    out = [c for c in out if getattr(c, "active", True)]
                return out
            return Builtin("component_objects", objs)
        if name == "component_map":
            return Builtin("component_map", lambda it, a, k: {c.name: c for c in objs_of(self, a)})
        if name == "component_data_objects":
            raise Unsupported("component_data_objects")
        if name == "add_component":
            def add(it, a, k):
                nm, c = a[0], a[1]
                if nm in self.comps or nm in self.attrs:
                    self.log.append(("duplicate", nm, _site(it)))
                    raise PyExc(RuntimeError, (f"Cannot add component '{nm}': the name is already in use",))
                self.declare(it, nm, c)
            return Builtin("add_component", add)
        if name == "component":
            return Builtin("component", lambda it, a, k: self.comps.get(a[0]))
        if name == "del_component":
            def dele(it, a, k):
                nm = a[0] if isinstance(a[0], str) else a[0].name
                self.comps.pop(nm, None)
                it.event("del_component", self, nm)
            return Builtin("del_component", dele)
        if name == "create_instance":
            def create(it, a, k):
                it.event("create_instance", self, tuple(a), dict(k))
                return self
            return Builtin("create_instance", create)
        if name == "name":
            return "unknown"
        it.no_attr(_real("ConcreteModel"), name, f"model has no component or attribute {name!r}")

    def abs_getattr_sym(self, it, name):
        raise Unsupported("dynamic attribute of the model")

    def truth(self, it):
        return True


def objs_of(m, a):
    return list(m.comps.values())


def _year(it, w, t):
    if isinstance(t, VecV):
        return VecV([w.year(it, x) for x in t.items])
    return w.year(it, t)


def _site(it):
    if it.call_stack:
        return it.call_stack[-1].where
    return "?"


def world_manual(world, name, idx):
    if idx:
        return ()
    m = {"beginyear": world.start, "dt": world.dt, "tf": world.N,
         "year2100": T("fn", "int", T("div", T("sub", 2100, world.start), world.dt))}
    return {name: m[name]} if name in m else ()


World.manual = world_manual


def install(it, world, on_model=None):
    M = it.models

    def make(ctype):
        def f(it, a, k):
            if ctype == "Set":
                return SetC(k, a)
            sets = []
            for s in a:
                if isinstance(s, SetC):
                    sets.append(s)
                elif isinstance(s, (list, tuple, RangeV)):
                    sc = SetC({"initialize": list(it.iterate(s))}, [])
                    sc.name = "<inline>"
                    sets.append(sc)
                elif isinstance(s, Comp):
                    raise PyExc(TypeError, (f"a {s.ctype} is not an index set of a {ctype}",))
                elif isinstance(s, Builtin):
                    raise PyExc(TypeError, (f"a function is not an index set of a {ctype}",))
                else:
                    raise Unsupported(f"index set of a {ctype}: {type(s).__name__}")
            return Comp(ctype, sets, k, _site(it))
        return Builtin(ctype, f)

    for c in COMPONENTS:
        M["pyomo.environ." + c] = CtypeV(c, make(c).fn)

    def model(kind):
        def f(it, a, k):
            m = ModelV(world, kind)
            it.event("model", m)
            if on_model is not None:
                on_model(m)
            return m
        return Builtin(kind, f)

    M["pyomo.environ.AbstractModel"] = model("AbstractModel")
    M["pyomo.environ.ConcreteModel"] = model("ConcreteModel")

    def value(it, a, k):
        x = a[0]
        if isinstance(x, Comp):
            if x.sets:
                raise PyExc(TypeError, ("value() of an indexed component",))
            if x.ctype == "Param":
                return x.param_value(it, ())
            return T("fn", "value", x.as_scalar(it))
        if isinstance(x, Term):
            if any(y.op == "var" for y in tm.subterms(x)):
                return T("fn", "value", x)
            return x
        return x
    M["pyomo.environ.value"] = Builtin("value", value)

    class _Units:
        def abs_getattr(self, it, name):
            if name == "get_units":
                return Builtin("get_units", lambda it, a, k: _get_units(it, a[0]))
            if name == "load_definitions_from_file":
                return Builtin(name, lambda it, a, k: it.event("load_units", a[0]))
            if name == "pint_registry":
                return T("ext", "pyomo.environ.units.pint_registry")
            return T("unit", name)

        def abs_getattr_sym(self, it, name):
            return T("unit", name)

        def truth(self, it):
            return True

    M["pyomo.environ.units"] = _Units()

    def _get_units(it, x):
        if isinstance(x, Comp):
            return x.kwargs.get("units")
        return T("fn", "get_units", freeze(x))


class CtypeV(Builtin):
    __slots__ = ()

    def __init__(self, name, fn):
        Builtin.__init__(self, name, fn)

    def abs_getattr(self, it, name):
        if name in ("Skip", "NoConstraint"):
            return SKIP
        if name == "Feasible":
            return FEASIBLE
        return T("ext", f"pyomo.environ.{self.name}.{name}")
