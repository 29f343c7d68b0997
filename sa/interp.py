"""Abstract interpreter over the Python syntax trees of the repository.

Nothing of the repository is imported or executed: modules are parsed with
``ast`` and evaluated over an abstract domain in which configuration values,
data, model variables and every library result are symbolic terms.  A branch
whose condition is not determined by the facts known so far splits the trace
partition (see ``explore``); there is no solver.
"""
import ast
import builtins as _b
import math
import operator
import os
import re
import string
import time
from fractions import Fraction

from .root import ROOT
from . import terms as tm
from .terms import T, Term
from .store import Store, cmp_atom, Contradiction, show_atom, type_tag, ALL_TAGS

NAN = T("sym", "num", "nan")      # a missing cell of a table: equal to nothing


norm, p_add = tm.norm, tm.p_add


def poly_term(p):
    """A term whose normal form is the given one."""
    return T("poly", tm.pkey(p))


class Unsupported(Exception):
    """The construct is outside what the abstract interpreter models."""


class NeedDecision(Exception):
    pass


DEADLINE = [None]      # of the whole check


class TooManyPaths(Unsupported):
    pass


class PyExc(Exception):
    """A Python exception raised by the interpreted code."""

    def __init__(self, cls, args=(), inst=None, where=None):
        self.cls, self.eargs, self.inst, self.where = cls, args, inst, where
        Exception.__init__(self, f"{exc_name(cls)}: {', '.join(tm.show(a) if isinstance(a, (Term, tuple)) else str(a) for a in args)}")


def exc_name(cls):
    if isinstance(cls, type):
        return cls.__name__
    if isinstance(cls, ClassV):
        return cls.name
    return tm.show(cls)


# --------------------------------------------------------------------------
# values
# --------------------------------------------------------------------------


class Env:
    __slots__ = ("vars", "parent", "globals_", "kind")

    def __init__(self, parent=None, globals_=None, kind="func"):
        self.vars = {}
        self.parent = parent
        self.globals_ = globals_ if globals_ is not None else (parent.globals_ if parent else self)
        self.kind = kind

    def lookup(self, name):
        e = self
        first = True
        while e is not None:
            if (first or e.kind != "class") and name in e.vars:
                return e.vars[name]
            first = False
            e = e.parent
        g = self.globals_
        if name in g.vars:
            return g.vars[name]
        raise KeyError(name)


class FuncV:
    __slots__ = ("node", "module", "env", "name", "defaults", "kwdefaults", "owner", "attrs", "is_gen", "locals_", "__weakref__")

    def __init__(self, node, module, env, name, defaults, kwdefaults, owner=None):
        self.node, self.module, self.env, self.name = node, module, env, name
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.owner = owner
        self.attrs = {}
        self.is_gen = None
        self.locals_ = None

    @property
    def where(self):
        return f"{self.module.relpath}:{self.node.lineno}"

    @property
    def qual(self):
        o = f"{self.owner.name}." if self.owner else ""
        return f"{self.module.name}.{o}{self.name}"

    def __repr__(self):
        return f"<function {self.qual}>"


class BoundV:
    __slots__ = ("func", "self_")

    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class Builtin:
    __slots__ = ("name", "fn")

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"<builtin {self.name}>"


class Prop:
    __slots__ = ("fget",)

    def __init__(self, fget):
        self.fget = fget


class StaticM:
    __slots__ = ("func",)

    def __init__(self, func):
        self.func = func


class ClassM:
    __slots__ = ("func",)

    def __init__(self, func):
        self.func = func


class ClassV:
    def __init__(self, name, bases, ns, module, node):
        self.name, self.bases, self.ns, self.module, self.node = name, bases, ns, module, node
        self.dataclass_fields = None

    def mro(self):
        out, seen = [], set()

        def rec(c):
            if isinstance(c, ClassV):
                if id(c) in seen:
                    return
                seen.add(id(c))
                out.append(c)
                for b in c.bases:
                    rec(b)
            else:
                out.append(c)

        rec(self)
        return out

    def find(self, name):
        for c in self.mro():
            if isinstance(c, ClassV) and name in c.ns:
                return c.ns[name], c
        return None, None

    def __repr__(self):
        return f"<class {self.name}>"


class InstV:
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}

    def __repr__(self):
        return f"<{self.cls.name} object>"


class ContextV:
    """A context manager made from a generator function: its body runs around the body of the with statement."""

    def __init__(self, f, args, kwargs):
        self.f, self.args, self.kwargs = f, args, kwargs

    def run(self, it, rest):
        out = []

        class At(list):
            def append(self, v):
                if out:
                    raise PyExc(RuntimeError, ("generator didn't stop",))
                out.append(None)
                out[0] = rest(v)

            def extend(self, vs):
                raise Unsupported("yield from in a context manager")
        f = self.f
        it.call_func(f, self.args, self.kwargs, At())
        if not out:
            raise PyExc(RuntimeError, ("generator didn't yield",))
        return out[0]

    def abs_call(self, it, a, k):
        f = a[0]
        return Builtin("in_context", lambda it, a2, k2: self.run(it, lambda v: it.call(f, a2, k2)))


class SuperV:
    def __init__(self, cls, inst):
        self.cls, self.inst = cls, inst


class ModV:
    def __init__(self, name, relpath, tree):
        self.name, self.relpath, self.tree = name, relpath, tree
        self.env = Env(kind="module")
        self.env.globals_ = self.env
        self.loaded = False

    def __repr__(self):
        return f"<module {self.name}>"


class SetV:
    order = 0       # 1, -1: one or the other order, for elements whose hash differs between processes

    def __init__(self, items=()):
        self.d = {}
        for i in items:
            self.d[hkey(i)] = i

    def __iter__(self):
        out = list(self.d.values())
        if SetV.order and not all(isinstance(x, (int, float)) for x in out):
            out.sort(key=lambda x: str(hkey(x)), reverse=SetV.order < 0)
        return iter(out)

    def __len__(self):
        return len(self.d)

    def __contains__(self, x):
        return hkey(x) in self.d


class VecV:
    """A one-dimensional array of known length."""

    def __init__(self, items):
        self.items = list(items)

    def __len__(self):
        return len(self.items)


class SymSeq:
    """elem(k) for k in range(lo, hi) with a symbolic bound."""

    def __init__(self, k, lo, hi, elem):
        self.k, self.lo, self.hi, self.elem = k, lo, hi, elem

    def term(self):
        return T("symseq", self.k, freeze(self.lo), freeze(self.hi), freeze(self.elem))


class SymMap:
    """A mapping with entries generated over symbolic ranges."""

    def __init__(self):
        self.entries = []  # (binders, key, value)
        self.plain = {}

    def term(self):
        return T("symmap", tuple(freeze(e) for e in self.entries), freeze(self.plain))


class RangeV:
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step

    def term(self):
        return T("range", freeze(self.lo), freeze(self.hi), freeze(self.step))


class Foreign(dict):
    """A caller-owned dictionary (writes to it are recorded)."""


def hkey(v):
    try:
        hash(v)
        return v
    except TypeError:
        return freeze(v)


def freeze(v):
    """An immutable, hashable stand-in for a value (usable as a term argument)."""
    if isinstance(v, (Term, str, int, float, bool, type(None), Fraction, bytes)):
        return v
    if isinstance(v, list):
        return ("list",) + tuple(freeze(x) for x in v)
    if isinstance(v, tuple):
        return tuple(freeze(x) for x in v)
    if isinstance(v, VecV):
        return ("vec",) + tuple(freeze(x) for x in v.items)
    if isinstance(v, dict):
        return ("dict",) + tuple((freeze(k), freeze(x)) for k, x in v.items())
    if isinstance(v, (SymSeq, SymMap, RangeV)):
        return v.term()
    if isinstance(v, SetV):
        return ("set",) + tuple(freeze(x) for x in v)
    if isinstance(v, slice):
        return ("slice", freeze(v.start), freeze(v.stop), freeze(v.step))
    return v


BUILTIN_EXCS = {
    n: getattr(_b, n)
    for n in dir(_b)
    if isinstance(getattr(_b, n), type) and issubclass(getattr(_b, n), BaseException)
}

BINOPS = {
    ast.Add: ("add", operator.add, "__add__"), ast.Sub: ("sub", operator.sub, "__sub__"),
    ast.Mult: ("mul", operator.mul, "__mul__"), ast.Div: ("div", operator.truediv, "__truediv__"),
    ast.Pow: ("pow", operator.pow, "__pow__"), ast.Mod: ("mod", operator.mod, "__mod__"),
    ast.FloorDiv: ("floordiv", operator.floordiv, "__floordiv__"),
    ast.BitAnd: ("bitand", operator.and_, "__and__"), ast.BitOr: ("bitor", operator.or_, "__or__"),
    ast.BitXor: ("bitxor", operator.xor, "__xor__"), ast.MatMult: ("matmul", operator.matmul, "__matmul__"),
    ast.LShift: ("lshift", operator.lshift, "__lshift__"), ast.RShift: ("rshift", operator.rshift, "__rshift__"),
}
CMPOPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}
PYCMP = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "==": operator.eq, "!=": operator.ne}

RET, BRK, CNT = "ret", "brk", "cnt"


_TREES = {}


def plain_data(v):
    if isinstance(v, (tuple, list)):
        return all(plain_data(x) for x in v)
    if isinstance(v, dict):
        return all(plain_data(x) for x in v.values())
    return v is None or isinstance(v, (str, int, float, Fraction))


class Interp:
    def __init__(self, root=ROOT, packages=("mimosa",), domain_of=None, max_paths=4000, max_steps=4_000_000):
        self.root = root
        self.packages = packages
        self.modules = {}
        self.domain_of = domain_of or (lambda t: None)
        self.models = {}  # dotted library name -> value
        self.opaque_funcs = {}  # repo qualname -> handler
        self.max_paths = max_paths
        self.max_steps = max_steps
        self.deadline = None
        self.steps = 0
        self.visited = set()
        self.call_depth = 0
        self.call_stack = []
        self.binder_depth = 0
        self.no_fork = 0
        self.decisions = None
        self.store = Store(self.domain_of)
        self.epoch = 0
        self.path = []
        self.events = []
        self.overlay = {}
        self.try_stack = []
        self.hooks = {}
        self.readable = set()  # files outside the tree that may be read
        self.extra_paths = {}  # module name -> file path (spec modules)
        self.fork_site = None
        self.fresh = 0
        self.trace_attr = None
        from . import libmodels
        libmodels.install(self)

    def visited_names(self):
        return {q for q in self.visited if q.split(".")[0] in self.packages}

    # ---------------------------------------------------------------- modules

    def module_file(self, name):
        if name in self.extra_paths:
            p = self.extra_paths[name]
            return p, os.path.relpath(p, self.root) if p.startswith(self.root) else p
        if name.split(".")[0] not in self.packages:
            return None
        base = os.path.join(self.root, *name.split("."))
        for p in (base + ".py", os.path.join(base, "__init__.py")):
            if os.path.exists(p):
                return p, os.path.relpath(p, self.root)
        return None

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        f = self.module_file(name)
        if f is None:
            return None
        path, rel = f
        # parents first
        if "." in name and name not in self.extra_paths:
            self.load(name.rsplit(".", 1)[0])
            m = self.modules.get(name)
            if m is not None:
                return m
        with open(path, encoding="utf8") as fh:
            src = fh.read()
        tree = _TREES.get((path, src))
        if tree is None:
            tree = _TREES[(path, src)] = ast.parse(src, filename=path)
        m = ModV(name, rel, tree)
        m.is_pkg = path.endswith("__init__.py")
        self.modules[name] = m
        m.env.vars["__name__"] = name
        m.env.vars["__file__"] = path
        m.env.vars["__doc__"] = ast.get_docstring(tree)
        saved = (self.call_stack, self.try_stack)
        self.call_stack, self.try_stack = [], []
        try:
            self.exec_block(tree.body, m.env, m)
        except PyExc as e:
            raise
        finally:
            self.call_stack, self.try_stack = saved
        m.loaded = True
        if "." in name and name not in self.extra_paths:
            parent, leaf = name.rsplit(".", 1)
            pm = self.modules.get(parent)
            if pm is not None:
                pm.env.vars.setdefault(leaf, m)
        return m

    def import_name(self, dotted, module):
        m = self.load(dotted)
        if m is not None:
            return m
        if dotted.split(".")[0] in self.packages:
            raise PyExc(ModuleNotFoundError, (f"No module named {dotted!r}",))
        return self.ext(dotted)

    def ext(self, dotted):
        if dotted in self.models:
            return self.models[dotted]
        return T("ext", dotted)

    # ---------------------------------------------------------------- paths

    def reset_path(self, prefix):
        self.decisions = list(prefix)
        self.pos = 0
        self.path = []
        self.epoch += 1
        self.store = Store(self.domain_of)
        self.events = []
        self.overlay = {}
        self.fresh = 0
        self.new_forks = []
        self.try_stack = []
        self.call_stack = []
        self.call_depth = 0
        self.binder_depth = 0

    def explore(self, fn, assume=(), setup=None):
        """Run fn() under every trace partition; yields (result, path, store, events).

        result is ("ok", value) or ("raise", PyExc)."""
        stack = [[]]
        n = 0
        while stack:
            prefix = stack.pop()
            n += 1
            self.in_time()
            if n > self.max_paths:
                raise TooManyPaths(f"more than {self.max_paths} partitions")
            self.reset_path(prefix)
            try:
                for atom, val in assume:
                    self.store.assume(atom, val)
                res = ("ok", fn())
            except Contradiction:
                for alt in self.new_forks:
                    stack.append(alt)
                continue
            except PyExc as e:
                res = ("raise", e)
            for alt in self.new_forks:
                stack.append(alt)
            yield res, list(self.path), self.store, list(self.events)

    def in_time(self):
        """What takes longer than its share of time is left undecided (a check always answers)."""
        now = time.time()
        if (self.deadline is not None and now > self.deadline) or (DEADLINE[0] is not None and now > DEADLINE[0]):
            raise TooManyPaths("time budget exhausted")

    def decide(self, atom):
        if isinstance(atom, bool):
            return atom
        q = self.store.query(atom)
        if q is not None:
            return q
        if self.no_fork:
            raise Unsupported(f"data-dependent branch inside a symbolic iteration: {show_atom(atom)}")
        if self.decisions is None:
            raise Unsupported(f"undetermined branch outside an exploration: {show_atom(atom)}")
        # feasibility of both sides
        if self.pos < len(self.decisions):
            val = self.decisions[self.pos]
        else:
            val = True
            self.new_forks.append(self.decisions[: self.pos] + [False])
            self.decisions.append(True)
        self.pos += 1
        self.path.append((atom, val))
        self.store.assume(atom, val)
        return val

    # ---------------------------------------------------------------- truth

    def truth(self, v):
        if v is None or isinstance(v, (bool, int, float, str, list, tuple, dict, Fraction, bytes)):
            return bool(v)
        if isinstance(v, (SetV, VecV)):
            return len(v) > 0
        if isinstance(v, Term):
            return self.truth_term(v)
        if isinstance(v, InstV):
            f, _ = v.cls.find("__bool__")
            if f is not None:
                return self.truth(self.call(BoundV(f, v), [], {}))
            f, _ = v.cls.find("__len__")
            if f is not None:
                return self.truth(self.call(BoundV(f, v), [], {}))
            return True
        h = getattr(v, "truth", None)
        if h is not None:
            return h(self)
        return True

    def truth_term(self, t):
        op = t.op
        if op == "cmp":
            return self.decide_cmp(*t.args)
        if op == "is":
            return self.decide_is(t.args[0], t.args[1])
        if op == "not":
            return not self.truth(t.args[0])
        if op == "in":
            return self.contains(t.args[0], t.args[1])
        if op == "reg":
            return True
        if op == "fn" and t.args[0] in ("isnan", "isfinite", "isinf") and isinstance(t.args[1], Term):
            x = t.args[1]
            nan = self.unchecked_float(x) and self.decide(("bool", T("fn", "isnan", x)))
            if t.args[0] == "isnan":
                return nan
            if nan:
                return False
            inf = any(self.decide(("bool", T("fn", n, x))) for n in ("isinf+", "isinf-"))
            return inf == (t.args[0] == "isinf")
        d = self.domain_of(t)
        if d is not None:
            if d.kind == "bool":
                return self.decide(("bool", t))
            if d.kind in ("num",):
                if d.optional and self.decide(("isfalse", t)):
                    return False
                return self.decide_cmp("!=", t, 0)
            if d.kind == "enum":
                if d.optional and self.decide(("isfalse", t)):
                    return False
                if all(d.enum):
                    return True
            if d.kind == "str":
                if d.optional and self.decide(("isfalse", t)):
                    return False
                return not self.decide(("eq", t, ""))
        if op == "ext":
            return True
        if op in ("add", "sub", "mul", "div", "pow", "neg", "fn", "par"):
            if self.is_relational(t):
                raise Unsupported("truth of a model expression")
            return self.decide_cmp("!=", t, 0)
        if op == "sym" and t.args[0] == "reg":
            return True
        e = self.store.eqs.get(t)
        if e is not None and e[0] == "is":
            return bool(e[1])
        return self.decide(("bool", t))

    def is_relational(self, t):
        return False

    def numericish(self, x):
        if isinstance(x, bool):
            return True
        if isinstance(x, (int, float, Fraction)):
            return True
        if isinstance(x, Term):
            if x.op in ("add", "sub", "mul", "div", "pow", "neg", "fn", "par", "var", "mod", "floordiv", "interp", "poly"):
                return True
            if x.op == "sym":
                if x.args[0] in ("time", "bound", "num"):
                    return True
                d = self.domain_of(x)
                return d is not None and d.kind == "num"
            d = self.domain_of(x)
            return d is not None and d.kind == "num"
        return False

    @staticmethod
    def unchecked_float(x):
        return x.op == "fn" and x.args[0] == "float" and not is_known_num(x.args[1])

    def decide_cmp(self, op, a, b):
        if isinstance(a, Term) and a is b and self.unchecked_float(a) and op in ("==", "!=", "<=", ">="):
            return self.decide(("bool", T("fn", "isnan", a))) == (op == "!=")
        if isinstance(a, Term) and isinstance(b, Term) and a is b and op in ("==", "<=", ">="):
            return True
        if op in ("==", "!="):
            r = self.decide_eq(a, b)
            return r if op == "==" else not r
        # ordering: optional settings must be resolved first
        for x in tm.subterms((a, b)):
            d = self.domain_of(x)
            if d is not None and d.kind == "num" and d.optional and self.store.query(("isfalse", x)) is None:
                self.decide(("isfalse", x))
        if self.decisions is not None or True:
            sub = {x: 0 for x in tm.subterms((a, b)) if self._is_off(x)}
            if sub:
                a, b = substitute(a, sub), substitute(b, sub)
        for x in tm.subterms((a, b)):
            if self.unchecked_float(x):
                if self.decide(("bool", T("fn", "isnan", x))):
                    return False
        for x, y, o in ((a, b, op), (b, a, {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op))):
            if isinstance(y, float) and math.isinf(y):
                # x o +-inf for a value that is not NaN
                if (o == "<=") == (y > 0) and o in ("<=", ">="):
                    return True
                r = self.decide(("bool", T("fn", "isinf+" if y > 0 else "isinf-", freeze(x)))) if isinstance(x, Term) else (x == y)
                return r if o in ("<=", ">=") else not r if (o == "<") == (y > 0) else False
        try:
            r = self.unround(op, a, b)
            if r is not None:
                return r
            a, b = self.clear_positive(a, b)
            r = cmp_atom(op, a, b)
        except tm.Unnormalisable:
            return self.decide(("bool", T("cmp", op, freeze(a), freeze(b))))
        if isinstance(r, bool):
            return r
        atom, pol = r
        v = self.decide(atom)
        return v if pol else not v

    def clear_positive(self, a, b):
        """Multiply a comparison by denominators which are known to be positive."""
        d = p_add(norm(a), norm(b), Fraction(-1))
        low = {}
        for m in d:
            for g, e in m:
                if g[0] == "A" and isinstance(e, Fraction) and e < 0:
                    low[g] = min(low.get(g, 0), e)
        todo = {}
        for g, e in low.items():
            dm = self.domain_of(g[1])
            if dm is not None and dm.kind == "num" and not dm.optional and (dm.lo > 0 or dm.lo == 0 and dm.lo_open):
                todo[g] = -e
        if not todo:
            return a, b
        k = {tuple(sorted(todo.items(), key=lambda x: tm.gkey(x[0]))): Fraction(1)}
        return poly_term(tm.p_mul(d, k)), 0

    def unround(self, op, a, b):
        """Compare a rounded number with a constant by comparing the number."""
        if isinstance(a, Term) is False and isinstance(b, Term) is False:
            return None
        if not any(x.op == "fn" and x.args[0] in ("int", "trunc", "floor", "ceil", "round") for x in tm.subterms((a, b))):
            return None
        d = p_add(norm(a), norm(b), Fraction(-1))
        c = d.pop(tm.ONE_M, Fraction(0))
        if len(d) != 1:
            return None
        (m, k), = d.items()
        if len(m) != 1 or not isinstance(m[0][1], Fraction) or m[0][1] != 1 or m[0][0][0] != "F" or m[0][0][1] not in ("int", "trunc", "floor", "ceil", "round"):
            return None
        g = m[0][0]
        args = g[2:]
        if any(x and x[0] == "raw" for x in args):
            return None
        bound = -c / k
        if k < 0:
            op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
        x = dict(args[0])
        if len(args) == 2:
            nd = dict(args[1])
            if set(nd) - {tm.ONE_M} or g[1] != "round":
                return None
            nd = int(nd.get(tm.ONE_M, 0))
            s = Fraction(10) ** nd
            x, bound = {m_: v * s for m_, v in x.items()}, bound * s
        elif len(args) != 1:
            return None
        x = poly_term(x)

        def le(n):  # rounded <= n
            if g[1] in ("int", "trunc"):
                return self.decide_cmp("<", x, n + 1) if n >= 0 else self.decide_cmp("<=", x, n)
            if g[1] == "floor":
                return self.decide_cmp("<", x, n + 1)
            if g[1] == "ceil":
                return self.decide_cmp("<=", x, n)
            return self.decide_cmp("<=" if n % 2 == 0 else "<", x, Fraction(2 * n + 1, 2))
        if op == "<=":
            return le(math.floor(bound))
        if op == "<":
            return le(math.ceil(bound) - 1)
        if op == ">":
            return not le(math.floor(bound))
        if op == ">=":
            return not le(math.ceil(bound) - 1)
        if op in ("==", "!="):
            eq = bound.denominator == 1 and le(int(bound)) and not le(int(bound) - 1)
            return eq if op == "==" else not eq
        return None

    def _is_off(self, x):
        d = self.domain_of(x)
        return d is not None and d.kind == "num" and d.optional and self.store.query(("isfalse", x)) is True

    def decide_eq(self, a, b):
        if a is NAN or b is NAN:
            return False
        if not isinstance(a, Term):
            a, b = b, a
        if not isinstance(a, Term):
            return self.py_eq(a, b)
        # a is a term
        if isinstance(b, Term):
            if a.op == "sym" and b.op == "sym" and a.args[0] == b.args[0] and a.args[0] in ("reg",):
                return a is b
            if a.op == "ext" and b.op == "ext":
                if a.args[0].startswith("pyomo") and b.args[0].startswith("pyomo"):
                    return a is b
            if a.op == "ext" or b.op == "ext":
                x, c = (b, a) if a.op == "ext" else (a, b)
                return self.decide(("eq", x, c))
            if self.numericish(a) and self.numericish(b):
                r = cmp_atom("==", a, b)
                if isinstance(r, bool):
                    return r
                return self.decide(r[0])
            x, y = (a, b) if a.uid < b.uid else (b, a)
            return self.decide(("bool", T("cmp", "==", x, y)))
        d = self.domain_of(a)
        if isinstance(b, bool):
            if d is not None and d.kind == "bool":
                v = self.decide(("bool", a))
                return v == b
            if d is not None and d.kind == "num":
                if b is False:
                    if d.optional and self.decide(("isfalse", a)):
                        return True
                    r = cmp_atom("==", a, 0)
                    return self.decide(r[0])
                r = cmp_atom("==", a, 1)
                return self.decide(r[0])
            return self.decide(("eq", a, b))
        if isinstance(b, (int, float, Fraction)):
            if self.numericish(a):
                if d is not None and d.optional and self.decide(("isfalse", a)):
                    return b == 0
                r = cmp_atom("==", a, b)
                if isinstance(r, bool):
                    return r
                return self.decide(r[0]) if r[1] else not self.decide(r[0])
            if d is not None and d.kind in ("str",):
                return False
            return self.decide(("eq", a, b))
        if isinstance(b, str):
            if self.numericish(a):
                return False
            if d is not None and d.kind == "bool":
                return False
            if a.op == "fstr":
                # constant prefix / suffix mismatch decides
                pre = a.args[0] if isinstance(a.args[0], str) else ""
                suf = a.args[-1] if isinstance(a.args[-1], str) else ""
                if not b.startswith(pre) or not b.endswith(suf):
                    return False
            return self.decide(("eq", a, b))
        if b is None:
            if self.numericish(a) or d is not None:
                return False
            return self.decide(("eq", a, None))
        return False

    def decide_is(self, a, b):
        if not isinstance(a, Term):
            a, b = b, a
        if not isinstance(a, Term):
            if isinstance(a, (bool, type(None))) or isinstance(b, (bool, type(None))):
                return a is b and type(a) is type(b)
            if isinstance(a, (int, float, str)) and isinstance(b, (int, float, str)):
                return type(a) is type(b) and a == b
            return a is b
        if isinstance(b, Term):
            if a.op == "ext" and b.op == "ext":
                return a is b
            return a is b or self.decide_eq(a, b)
        d = self.domain_of(a)
        if b is False or b is True:
            if d is not None and d.kind == "bool":
                v = self.decide(("bool", a))
                return v is b
            if b is False:
                if d is not None:
                    if not d.optional:
                        return False
                    return self.decide(("isfalse", a))
                if self.numericish(a):
                    return False
            elif d is not None or self.numericish(a):
                return False
            if a.op == "sym" and a.args[0] == "in":
                return self.decide(("type", a, "bool")) and self.decide(("eq", a, b))
            return self.decide(("bool", T("is", a, b)))
        if b is None:
            if d is not None or self.numericish(a):
                return False
            return self.decide(("eq", a, None))
        return False

    def py_eq(self, a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if type(a) is not type(b) or len(a) != len(b):
                return False
            return all(self.decide_eq(x, y) for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict):
            if len(a) != len(b):
                return False
            return all(k in b and self.decide_eq(a[k], b[k]) for k in a)
        if isinstance(a, InstV):
            f, _ = a.cls.find("__eq__")
            if f is not None:
                return self.truth(self.call(BoundV(f, a), [b], {}))
            return a is b
        h = getattr(a, "abs_eq", None)
        if h is not None:
            return self.truth(h(self, b))
        h = getattr(b, "abs_eq", None)
        if h is not None:
            return self.truth(h(self, a))
        for x in (a, b):
            if getattr(x, "elementwise", False):
                raise Unsupported(f"element-wise comparison of {type(x).__name__}")
        if isinstance(a, SetV) and isinstance(b, SetV):
            return set(a.d) == set(b.d)
        try:
            return bool(a == b)
        except Exception:
            return a is b

    def contains(self, x, c):
        if isinstance(c, dict):
            if isinstance(x, Term):
                if hkey(x) in c:
                    return True
                if x.op == "sym" and x.args[0] == "reg":
                    return False
                for k in c:
                    if self.decide_eq(x, k):
                        return True
                return False
            return hkey(x) in c
        if isinstance(c, (list, tuple)):
            for k in c:
                if k is x or self.decide_eq(x, k):
                    return True
            return False
        if isinstance(c, SetV):
            if isinstance(x, Term):
                return any(self.decide_eq(x, k) for k in c)
            return x in c
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            if isinstance(x, Term):
                return self.decide(("bool", T("in", x, c)))
        if isinstance(c, Term):
            if self.plain_scalar(c):
                if isinstance(x, str) and self.decide(("type", c, "str")):
                    return self.decide(("bool", T("in", x, c)))
                raise PyExc(TypeError, ("not iterable",))
            d = self.domain_of(c)
            if d is not None and d.enum is not None and isinstance(x, str):
                for v in d.enum:
                    if self.decide(("eq", c, v)):
                        return x in v
                return False
            return self.decide(("bool", T("in", freeze(x), c)))
        if isinstance(c, RangeV):
            lo = self.compare_bool("<=", c.lo, x)
            return lo and self.compare_bool("<", x, c.hi)
        h = getattr(c, "contains", None)
        if h is not None:
            return h(self, x)
        if isinstance(c, InstV):
            f, _ = c.cls.find("__contains__")
            if f is not None:
                return self.truth(self.call(BoundV(f, c), [x], {}))
            if all(c.cls.find(n)[0] is None for n in ("__iter__", "__getitem__")) and not any(
                    isinstance(b, Term) and b.args[0] not in ("abc.ABC", "object") for b in c.cls.mro()):
                raise PyExc(TypeError, (f"argument of type {c.cls.name!r} is not iterable",))
        if isinstance(c, VecV):
            return self.contains(x, c.items)
        if c is None or isinstance(c, (int, float)):
            raise PyExc(TypeError, (f"argument of type {type(c).__name__!r} is not iterable",))
        raise Unsupported(f"`in` on {type(c).__name__}")

    def compare_bool(self, op, a, b):
        return self.truth(self.compare(op, a, b))

    def compare(self, op, a, b):
        for x, y, rev in ((a, b, False), (b, a, True)):
            h = getattr(x, "abs_compare", None)
            if h is not None:
                o = op if not rev else {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
                return h(self, o, y)
        if isinstance(a, (VecV, SymSeq)) or isinstance(b, (VecV, SymSeq)):
            return self.vec_map(lambda x, y: self.compare(op, x, y), a, b)
        if isinstance(a, Term) or isinstance(b, Term):
            if a is NAN or b is NAN:
                return op == "!="
            if op in ("==", "!=") and not (isinstance(a, Term) and isinstance(b, Term)):
                pass
            return T("cmp", op, freeze(a), freeze(b))
        if op in ("==", "!="):
            r = self.py_eq(a, b)
            return r if op == "==" else not r
        if isinstance(a, InstV):
            nm = {"<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}[op]
            f, _ = a.cls.find(nm)
            if f is not None:
                return self.call(BoundV(f, a), [b], {})
        try:
            return PYCMP[op](a, b)
        except TypeError as e:
            if not (known_object(a) and known_object(b)):
                raise Unsupported(f"comparison of {type(a).__name__} and {type(b).__name__}")
            raise PyExc(TypeError, (str(e),))

    # ---------------------------------------------------------------- arithmetic

    def vec_map(self, f, a, b):
        if isinstance(a, VecV) or isinstance(b, VecV):
            if isinstance(a, VecV) and isinstance(b, VecV):
                if len(a) != len(b):
                    if len(a) == 1:
                        return VecV([f(a.items[0], y) for y in b.items])
                    if len(b) == 1:
                        return VecV([f(x, b.items[0]) for x in a.items])
                    raise PyExc(ValueError, ("operands could not be broadcast together",))
                return VecV([f(x, y) for x, y in zip(a.items, b.items)])
            if isinstance(a, VecV):
                if isinstance(b, list):
                    return self.vec_map(f, a, VecV(b))
                return VecV([f(x, b) for x in a.items])
            if isinstance(a, list):
                return self.vec_map(f, VecV(a), b)
            return VecV([f(a, y) for y in b.items])
        if isinstance(a, SymSeq) and isinstance(b, SymSeq):
            if a.k is b.k and freeze(a.lo) == freeze(b.lo) and freeze(a.hi) == freeze(b.hi):
                return SymSeq(a.k, a.lo, a.hi, f(a.elem, b.elem))
            raise Unsupported("element-wise operation on different symbolic sequences")
        if isinstance(a, SymSeq):
            return SymSeq(a.k, a.lo, a.hi, f(a.elem, b))
        return SymSeq(b.k, b.lo, b.hi, f(a, b.elem))

    def scalar(self, v):
        h = getattr(v, "as_scalar", None)
        if h is not None:
            return h(self)
        return v

    def binop(self, opcls, a, b):
        name, py, dunder = BINOPS[opcls]
        if name == "mod" and isinstance(a, str) and not plain_data(b):
            return self.percent(a, b)
        a, b = self.scalar(a), self.scalar(b)
        if isinstance(a, (VecV, SymSeq)) or isinstance(b, (VecV, SymSeq)):
            return self.vec_map(lambda x, y: self.binop(opcls, x, y), a, b)
        if isinstance(a, Term) or isinstance(b, Term):
            if name == "add" and (isinstance(a, str) or isinstance(b, str) or
                                  (isinstance(a, Term) and a.op == "fstr") or (isinstance(b, Term) and b.op == "fstr")):
                return self.fstring([a, b])
            if isinstance(a, (list, dict)) or isinstance(b, (list, dict)):
                return T(name, freeze(a), freeze(b))
            for x in (a, b):
                if (x is None or (isinstance(x, str) and name not in ("bitand", "bitor"))) and not any(isinstance(y, Term) and opaque(y) for y in (a, b)):
                    raise PyExc(TypeError, (f"unsupported operand type(s) for {name}",))
                if not isinstance(x, (Term, int, float, Fraction, str, tuple)):
                    return T(name, freeze(a), freeze(b))
            if name in ("bitand", "bitor") and isinstance(a, Term) and isinstance(b, Term):
                # order-insensitive conjunction / disjunction of masks
                parts = []
                for x in (a, b):
                    parts.extend(x.args if x.op == name else [x])
                return T(name, *sorted(set(parts), key=tm.show))
            if name == "div" and isinstance(b, (int, float)) and b == 0:
                raise PyExc(ZeroDivisionError, ("division by zero",))
            self.check_div(name, a, b)
            return self.simplify_bin(name, a, b)
        if isinstance(a, InstV) or isinstance(b, InstV):
            for x, y, d in ((a, b, dunder), (b, a, "__r" + dunder[2:])):
                if isinstance(x, InstV):
                    f, _ = x.cls.find(d)
                    if f is not None:
                        return self.call(BoundV(f, x), [y], {})
            raise PyExc(TypeError, ("unsupported operand",))
        if isinstance(a, SetV) and isinstance(b, SetV):
            if name == "sub":
                return SetV([x for x in a if x not in b])
            if name == "bitor":
                return SetV(list(a) + list(b))
            if name == "bitand":
                return SetV([x for x in a if x in b])
            if name == "bitxor":
                return SetV([x for x in a if x not in b] + [x for x in b if x not in a])
        if isinstance(a, dict) and isinstance(b, dict) and name == "bitor":
            d = dict(a)
            d.update(b)
            return d
        for x in (a, b):
            h = getattr(x, "abs_binop", None)
            if h is not None:
                r = h(self, opcls, a, b)
                if r is not NotImplemented:
                    return r
        try:
            return py(a, b)
        except ZeroDivisionError as e:
            raise PyExc(ZeroDivisionError, (str(e),))
        except TypeError as e:
            if not (known_object(a) and known_object(b)):
                raise Unsupported(f"operator on {type(a).__name__} and {type(b).__name__}")
            raise PyExc(TypeError, (str(e),))

    def percent(self, fmt, args):
        """text % args with symbolic arguments, as the equivalent str.format."""
        named = isinstance(args, dict)
        if not named and not isinstance(args, tuple):
            args = (args,)
        out, pos, n = "", 0, 0
        for m in re.finditer(r"%(?:\((?P<name>[^)]*)\))?(?P<spec>[-+ 0#]*\d*(?:\.\d+)?)(?P<kind>.)", fmt):
            out += fmt[pos:m.start()].replace("{", "{{").replace("}", "}}")
            pos = m.end()
            kind, spec = m["kind"], m["spec"]
            if kind == "%":
                out += "%"
                continue
            if kind not in "sreEfFgG" or (m["name"] is None) == named:
                raise Unsupported(f"format {m[0]!r} of a symbolic value")
            if named and not m["name"].isidentifier():
                raise Unsupported(f"format {m[0]!r} of a symbolic value")
            if spec.startswith("-"):
                spec = "<" + spec[1:]
            n += 1
            out += "{" + (m["name"] or "") + ("!r" if kind == "r" else "") + (":" + spec + (kind if kind not in "sr" else "") if spec or kind not in "sr" else "") + "}"
        out += fmt[pos:].replace("{", "{{").replace("}", "}}")
        if not named and n != len(args):
            raise PyExc(TypeError, ("not all arguments converted during string formatting" if n < len(args) else "not enough arguments for format string",))
        return self.call(self.getattr(out, "format"), [] if named else list(args), dict(args) if named else {})

    def check_div(self, name, a, b):
        h = self.hooks.get("div")
        if h is not None:
            h(self, name, a, b)

    def simplify_bin(self, name, a, b):
        isn = tm.is_num
        if name == "add":
            if isn(a) and a == 0:
                return b
            if isn(b) and b == 0:
                return a
        elif name == "sub":
            if isn(b) and b == 0:
                return a
        elif name == "mul":
            if isn(a) and a == 1:
                return b
            if isn(b) and b == 1:
                return a
        elif name in ("div", "pow"):
            if isn(b) and b == 1:
                return a
        return T(name, freeze(a), freeze(b))

    def fstring(self, parts):
        out = []
        for p in parts:
            if isinstance(p, Term) and p.op == "fstr":
                sub = list(p.args)
            elif isinstance(p, Term):
                sub = [p]
            else:
                sub = [p if isinstance(p, str) else self.to_str(p)]
            for s in sub:
                if isinstance(s, str) and out and isinstance(out[-1], str):
                    out[-1] += s
                elif s != "" or not isinstance(s, str):
                    out.append(s)
        if not out:
            return ""
        if len(out) == 1 and isinstance(out[0], str):
            return out[0]
        if len(out) == 1:
            d = self.domain_of(out[0])
            if isinstance(out[0], Term) and (out[0].op in ("fstr",) or (d is not None and d.kind in ("str", "enum") and (d.enum is None or all(isinstance(v, str) for v in d.enum)))):
                return out[0]
        return T("fstr", *out)

    def to_str(self, v):
        if isinstance(v, str):
            return v if type(v) is str else str(v)
        if isinstance(v, Term):
            d = self.domain_of(v)
            if v.op == "fstr" or (v.op == "sym" and v.args[0] == "reg"):
                return v
            if d is not None and d.enum is not None and all(isinstance(x, str) for x in d.enum):
                return v
            return T("fstr", v) if v.op != "str" else v
        if v is None or isinstance(v, (bool, int, float, Fraction)):
            return str(v)
        if isinstance(v, (list, tuple, dict)):
            if not tm.subterms(freeze(v)):
                try:
                    return str(v)
                except Exception:
                    pass
            return T("fstr", freeze(v))
        if isinstance(v, InstV):
            for nm in ("__str__", "__repr__"):
                f, _ = v.cls.find(nm)
                if f is not None:
                    return self.call(BoundV(f, v), [], {})
            return T("fstr", v)
        h = getattr(v, "abs_str", None)
        if h is not None:
            return h(self)
        return T("fstr", freeze(v))

    def unary(self, op, v):
        v = self.scalar(v)
        if isinstance(op, ast.Not):
            return not self.truth(v)
        if isinstance(v, (VecV, SymSeq)):
            if isinstance(v, VecV):
                return VecV([(not x) if isinstance(x, bool) and isinstance(op, ast.Invert) else T("not", x) if isinstance(op, ast.Invert) and isinstance(x, Term)
                             else self.unary(op, x) for x in v.items])
            return SymSeq(v.k, v.lo, v.hi, self.unary(op, v.elem))
        if isinstance(op, ast.USub):
            if isinstance(v, Term):
                return T("neg", v)
            try:
                return -v
            except TypeError as e:
                raise PyExc(TypeError, (str(e),))
        if isinstance(op, ast.UAdd):
            return v
        if isinstance(v, Term):
            return T("invert", v)
        return ~v

    # ---------------------------------------------------------------- attributes

    def getattr(self, obj, name, node=None):
        if isinstance(obj, ModV):
            if name in obj.env.vars:
                return obj.env.vars[name]
            sub = self.load(f"{obj.name}.{name}")
            if sub is not None:
                return sub
            raise PyExc(AttributeError, (f"module {obj.name!r} has no attribute {name!r}",))
        if isinstance(obj, InstV):
            if name in obj.attrs:
                v = obj.attrs[name]
                return v
            if name == "__class__":
                return obj.cls
            if name == "__dict__":
                return obj.attrs
            f, c = obj.cls.find(name)
            if c is not None:
                if isinstance(f, FuncV):
                    return BoundV(f, obj)
                if isinstance(f, Prop):
                    return self.call(BoundV(f.fget, obj), [], {})
                if isinstance(f, StaticM):
                    return f.func
                if isinstance(f, ClassM):
                    return BoundV(f.func, obj.cls)
                return f
            f, c = obj.cls.find("__getattr__")
            if c is not None:
                return self.call(BoundV(f, obj), [name], {})
            ext = [b for b in obj.cls.mro() if isinstance(b, Term) and b.args[0] not in ("abc.ABC", "object", "typing.NamedTuple")]
            if ext:
                return T("attr", T("inst", obj), name)
            self.no_attr(object, name, f"{obj.cls.name!r} object has no attribute {name!r}")
        if isinstance(obj, ClassV):
            f, c = obj.find(name)
            if c is not None:
                if isinstance(f, StaticM):
                    return f.func
                if isinstance(f, ClassM):
                    return BoundV(f.func, obj)
                return f
            if name == "__name__":
                return obj.name
            if name == "__mro__":
                return tuple(obj.mro())
            if name == "__doc__" and getattr(obj, "node", None) is not None:
                return ast.get_docstring(obj.node, clean=False)
            self.no_attr(type, name, f"type object {obj.name!r} has no attribute {name!r}")
        if isinstance(obj, SuperV):
            mro = obj.inst.cls.mro() if isinstance(obj.inst, InstV) else obj.inst.mro()
            i = mro.index(obj.cls)
            for c in mro[i + 1:]:
                if isinstance(c, ClassV) and name in c.ns:
                    f = c.ns[name]
                    if isinstance(f, FuncV):
                        return BoundV(f, obj.inst)
                    if isinstance(f, Prop):
                        return self.call(BoundV(f.fget, obj.inst), [], {})
                    if isinstance(f, (StaticM,)):
                        return f.func
                    return f
            if name in ("__init__", "__init_subclass__", "__setattr__"):
                return Builtin(name, lambda it, a, k: None)
            raise PyExc(AttributeError, (name,))
        if isinstance(obj, FuncV):
            if name == "__name__":
                return obj.name
            if name == "__doc__":
                return ast.get_docstring(obj.node, clean=False) if not isinstance(obj.node, ast.Lambda) else None
            if name in obj.attrs:
                return obj.attrs[name]
            if name == "__module__":
                return obj.module.name
            self.no_attr(type(Interp.no_attr), name, f"function has no attribute {name!r}")
        if isinstance(obj, BoundV):
            if name == "__self__":
                return obj.self_
            return self.getattr(obj.func, name)
        if isinstance(obj, Term):
            if (obj, name) in self.overlay:
                return self.overlay[(obj, name)]
            if obj.op == "ext":
                return self.ext(f"{obj.args[0]}.{name}")
            if name in ("items", "keys", "values", "get", "update", "pop", "setdefault") and self.plain_scalar(obj):
                raise PyExc(AttributeError, (f"no attribute {name!r}",))
            h = self.hooks.get("term_attr")
            if h is not None:
                r = h(self, obj, name)
                if r is not None:
                    return r
            d = self.domain_of(obj)
            if d is not None and d.kind == "num":
                if name in ("shape",):
                    return ()
                return T("attr", obj, name)
            if name in STR_METHODS and (obj.op == "fstr" or (d is not None and d.kind in ("str", "enum")) or (obj.op == "sym" and obj.args[0] == "reg")):
                return Builtin("str." + name, lambda it, a, k, o=obj, n=name: it.str_method(o, n, a, k))
            return T("attr", obj, name)
        if isinstance(obj, (int, float)) and not isinstance(obj, bool) and "num_attr" in self.hooks:
            r = self.hooks["num_attr"](self, obj, name)
            if r is not None:
                return r
        if isinstance(obj, type) and issubclass(obj, BaseException):
            if name == "__name__":
                return obj.__name__
        h = getattr(obj, "abs_getattr", None)
        if h is not None:
            return h(self, name)
        if isinstance(obj, PyExc):
            if name == "args":
                return tuple(obj.eargs)
            return T("attr", T("exc", obj.cls if not isinstance(obj.cls, type) else obj.cls.__name__), name)
        from . import libmodels
        r = libmodels.native_attr(self, obj, name)
        if r is not NotImplemented:
            return r
        self.no_attr(type(obj), name, f"{type(obj).__name__!r} object has no attribute {name!r}")

    def no_attr(self, real, name, msg):
        """The attribute is not modelled: an AttributeError only where the real object has none of that name."""
        if (name.startswith("__") and name.endswith("__")) or hasattr(real, name):
            raise Unsupported(f"unmodelled attribute {name!r} ({msg})")
        raise PyExc(AttributeError, (msg,))

    def setattr(self, obj, name, val):
        if isinstance(obj, InstV):
            f, _ = obj.cls.find("__setattr__")
            if isinstance(f, FuncV):
                return self.call(BoundV(f, obj), [name, val], {})
            obj.attrs[name] = val
            self.event("setattr", obj, name, val)
            return
        if isinstance(obj, ClassV):
            obj.ns[name] = val
            self.event("setattr", obj, name, val)
            return
        if isinstance(obj, ModV):
            obj.env.vars[name] = val
            self.event("setattr", obj, name, val)
            return
        if isinstance(obj, Term):
            self.overlay[(obj, name)] = val
            self.event("setattr", obj, name, freeze(val))
            return
        if isinstance(obj, FuncV):
            obj.attrs[name] = val
            return
        h = getattr(obj, "abs_setattr", None)
        if h is not None:
            return h(self, name, val)
        raise Unsupported(f"attribute assignment on {type(obj).__name__}")

    def event(self, kind, *args):
        self.events.append((kind,) + args)

    # ---------------------------------------------------------------- subscripts

    def getitem(self, obj, key):
        if isinstance(obj, VecV):
            h = getattr(obj, "abs_getitem", None)
            if h is not None:
                return h(self, key)
        if isinstance(obj, dict):
            k = hkey(key)
            try:
                if k in obj:
                    return obj[k]
            except TypeError:
                pass
            if isinstance(key, Term) and not (key.op == "sym" and key.args[0] in ("reg",)):
                for kk in list(obj):
                    if self.decide_eq(key, kk):
                        return obj[kk]
            factory = getattr(obj, "factory", None)
            if factory is not None:
                obj[k] = self.call(factory, [], {})
                return obj[k]
            raise PyExc(KeyError, (key,))
        if isinstance(obj, (list, tuple, str)):
            if isinstance(key, slice):
                if all(x is None or isinstance(x, int) for x in (key.start, key.stop, key.step)):
                    return obj[key]
                return T("item", freeze(obj), freeze(key))
            if isinstance(key, Term):
                if self.numericish(key) and isinstance(obj, (list, tuple)) and len(obj) <= 64:
                    for i, v in enumerate(obj):
                        if self.decide_eq(key, i):
                            return v
                    raise PyExc(IndexError, ("index out of range",))
                return T("item", freeze(obj), key)
            try:
                return obj[key]
            except IndexError as e:
                raise PyExc(IndexError, (str(e),))
            except TypeError as e:
                raise PyExc(TypeError, (str(e),))
        if isinstance(obj, VecV):
            if isinstance(key, slice):
                return VecV(obj.items[key])
            if isinstance(key, VecV):
                return VecV([x for x, k in zip(obj.items, key.items) if self.truth(k)])
            if isinstance(key, int):
                try:
                    return obj.items[key]
                except IndexError as e:
                    raise PyExc(IndexError, (str(e),))
            return T("item", freeze(obj), freeze(key))
        if isinstance(obj, RangeV):
            return self.binop(ast.Add, obj.lo, self.binop(ast.Mult, key, obj.step)) if not (isinstance(key, int) and key < 0) else self.binop(ast.Add, obj.hi, key)
        if isinstance(obj, Term):
            if isinstance(key, str) and self.plain_scalar(obj):
                raise PyExc(TypeError, ("not subscriptable by a name",))
            self.may_raise(T("item", obj, freeze(key)), (KeyError, IndexError, TypeError))
            return self.lib_item(obj, key)
        h = getattr(obj, "abs_getitem", None)
        if h is not None:
            return h(self, key)
        if isinstance(obj, InstV):
            f, _ = obj.cls.find("__getitem__")
            if f is not None:
                return self.call(BoundV(f, obj), [key], {})
        if isinstance(obj, SymMap):
            return self.symmap_get(obj, key)
        if isinstance(obj, SymSeq):
            if isinstance(key, int) and key >= 0 and not isinstance(key, bool):
                return substitute_value(obj.elem, {obj.k: self.binop(ast.Add, obj.lo, key)})
            if isinstance(key, int):
                return substitute_value(obj.elem, {obj.k: self.binop(ast.Add, obj.hi, key)})
            return T("item", obj.term(), freeze(key))
        if isinstance(obj, ClassV) or isinstance(obj, Builtin):
            return obj  # typing subscripts
        if obj is None or isinstance(obj, (int, float)):
            raise PyExc(TypeError, (f"{type(obj).__name__!r} object is not subscriptable",))
        raise Unsupported(f"subscript of {type(obj).__name__}")

    def symmap_get(self, m, key):
        if hkey(key) in m.plain:
            return m.plain[hkey(key)]
        for binders, k, v in m.entries:
            s = match_key(k, key, {b[0] for b in binders})
            if s is not None:
                return substitute_value(v, s)
        raise PyExc(KeyError, (key,))

    def plain_scalar(self, x):
        """An unconstrained input known to be neither a dictionary nor a list nor an object."""
        return (x.op == "sym" and x.args[0] == "in" and not self.store.types.get(x, {"dict"}) & {"dict", "list", "other"})

    def lib_item(self, obj, key):
        # data[<series>] and data.loc[...] normalisations of table look-ups
        return T("item", obj, freeze(key))

    def setitem(self, obj, key, val):
        if isinstance(obj, dict):
            if isinstance(obj, Foreign):
                self.event("foreign-write", obj, key, val)
            obj[hkey(key)] = val
            self.event("setitem", obj, hkey(key), val)
            return
        if isinstance(obj, list):
            if isinstance(key, Term):
                raise Unsupported("list store at a symbolic index")
            try:
                obj[key] = val
            except IndexError as e:
                raise PyExc(IndexError, (str(e),))
            return
        if isinstance(obj, VecV):
            if isinstance(key, int):
                obj.items[key] = val
                return
        if isinstance(obj, SymMap):
            obj.plain[hkey(key)] = val
            return
        if isinstance(obj, Term):
            self.event("lib-setitem", obj, freeze(key), freeze(val))
            self.overlay[(obj, ("item", freeze(key)))] = val
            return
        h = getattr(obj, "abs_setitem", None)
        if h is not None:
            return h(self, key, val)
        if isinstance(obj, InstV):
            f, _ = obj.cls.find("__setitem__")
            if f is not None:
                return self.call(BoundV(f, obj), [key, val], {})
        if obj is None or isinstance(obj, (int, float, str, tuple)):
            raise PyExc(TypeError, ("object does not support item assignment",))
        raise Unsupported(f"item assignment on {type(obj).__name__}")

    # ---------------------------------------------------------------- calls

    def may_raise(self, what, classes):
        """Fork on a library operation failing, when a handler for it is active."""
        if not self.try_stack:
            return
        for frame in reversed(self.try_stack):
            for h in frame:
                if h is None:
                    types = (Exception,)
                else:
                    types = h
                for ty in types:
                    if isinstance(ty, type):
                        if not any(issubclass(ty, c) or issubclass(c, ty) for c in classes):
                            continue
                        c = ty if ty in classes else [c for c in classes if issubclass(ty, c) or issubclass(c, ty)][0]
                    elif isinstance(ty, Term) and "lib" in classes:
                        c = ty
                    else:
                        continue
                    if self.decide(("bool", T("raises", what, exc_name(c)))):
                        raise PyExc(c, (what,))
        return

    def call(self, f, args, kwargs, node=None):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported("analysis step budget exhausted")
        if not self.steps & 255:
            self.in_time()
        if isinstance(f, BoundV):
            return self.call(f.func, [f.self_] + list(args), kwargs, node)
        if isinstance(f, FuncV):
            h = self.opaque_funcs.get(f.qual)
            if h is not None:
                return h(self, f, args, kwargs)
            if "__memo__" in f.attrs:
                return self.call_memo(f, args, kwargs)
            if "__context__" in f.attrs:
                return ContextV(f, args, kwargs)
            return self.call_func(f, args, kwargs)
        if isinstance(f, Builtin):
            return f.fn(self, list(args), dict(kwargs))
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, type) and issubclass(f, BaseException):
            return PyExc(f, tuple(args))
        if isinstance(f, Term):
            return self.call_lib(f, args, kwargs)
        if isinstance(f, (StaticM, ClassM)):
            return self.call(f.func, args, kwargs)
        h = getattr(f, "abs_call", None)
        if h is not None:
            return h(self, args, kwargs)
        if isinstance(f, InstV):
            m, _ = f.cls.find("__call__")
            if m is not None:
                return self.call(BoundV(m, f), args, kwargs)
        raise PyExc(TypeError, (f"{type(f).__name__} object is not callable",))

    def call_memo(self, f, args, kwargs):
        """functools.lru_cache: the same result object for equal arguments (per path)."""
        memo = f.attrs["__memo__"]
        if memo.get("epoch") != self.epoch:
            memo.clear()
            memo["epoch"] = self.epoch
        for a in list(args) + list(kwargs.values()):
            if isinstance(a, (dict, list)):
                raise PyExc(TypeError, (f"unhashable type: {type(a).__name__!r}",))
        key = tuple(id(a) if isinstance(a, InstV) else (type(a).__name__, freeze(a)) for a in args) + tuple(
            (k, freeze(v)) for k, v in sorted(kwargs.items()))
        if key not in memo:
            memo[key] = (self.call_func(f, args, kwargs), list(args))
        return memo[key][0]

    def call_lib(self, f, args, kwargs):
        h = self.hooks.get("call_lib")
        if h is not None:
            r = h(self, f, args, kwargs)
            if r is not NotImplemented:
                return r
        t = T("call", f, tuple(freeze(a) for a in args), tuple(sorted((k, freeze(v)) for k, v in kwargs.items())))
        self.may_raise(t, (ValueError, KeyError, TypeError, OSError, ArithmeticError, "lib") if "lib" else ())
        self.event("call", f, tuple(args), dict(kwargs), t)
        return t

    def bind(self, f, args, kwargs):
        a = f.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        env = Env(f.env, f.module.env)
        vals = {}
        args = list(args)
        if len(args) > len(params) and a.vararg is None:
            raise PyExc(TypeError, (f"{f.name}() takes {len(params)} positional arguments but {len(args)} were given",))
        for p, v in zip(params, args):
            vals[p] = v
        if a.vararg is not None:
            vals[a.vararg.arg] = tuple(args[len(params):])
        kw = dict(kwargs)
        extra = {}
        konly = [p.arg for p in a.kwonlyargs]
        for k, v in kw.items():
            if k in params or k in konly:
                if k in vals:
                    raise PyExc(TypeError, (f"{f.name}() got multiple values for argument {k!r}",))
                vals[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyExc(TypeError, (f"{f.name}() got an unexpected keyword argument {k!r}",))
        if a.kwarg is not None:
            vals[a.kwarg.arg] = extra
        nd = len(f.defaults)
        for i, p in enumerate(params):
            if p not in vals:
                j = i - (len(params) - nd)
                if j >= 0:
                    vals[p] = f.defaults[j]
                else:
                    raise PyExc(TypeError, (f"{f.name}() missing required argument {p!r}",))
        for p in konly:
            if p not in vals:
                if p in f.kwdefaults:
                    vals[p] = f.kwdefaults[p]
                else:
                    raise PyExc(TypeError, (f"{f.name}() missing keyword argument {p!r}",))
        env.vars = vals
        return env

    def call_func(self, f, args, kwargs, at=None):
        env = self.bind(f, args, kwargs)
        self.visited.add(f.qual)
        if self.call_depth > 120:
            raise PyExc(RecursionError, ("maximum recursion depth exceeded",))
        self.call_depth += 1
        self.call_stack.append(f)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env, f.module)
            if f.is_gen is None:
                f.is_gen = _has_yield(f.node)
            if f.is_gen:
                env.vars["__yield__"] = [] if at is None else at
            r = self.exec_block(f.node.body, env, f.module)
            if f.is_gen:
                return env.vars["__yield__"]
            if r is not None and r[0] == RET:
                return r[1]
            return None
        finally:
            self.call_depth -= 1
            self.call_stack.pop()

    def instantiate(self, cls, args, kwargs):
        h = self.opaque_funcs.get(f"{cls.module.name}.{cls.name}")
        if h is not None:
            return h(self, cls, args, kwargs)
        exc_base = [b for b in cls.mro() if isinstance(b, type) and issubclass(b, BaseException)]
        if exc_base:
            e = PyExc(cls, tuple(args))
            return e
        # abstract methods
        abstract = self.abstract_methods(cls)
        if abstract:
            raise PyExc(TypeError, (f"Can't instantiate abstract class {cls.name} ({', '.join(sorted(abstract))})",))
        inst = InstV(cls)
        init, _ = cls.find("__init__")
        if init is not None:
            self.call(BoundV(init, inst), args, kwargs)
        elif self.dc_fields(cls) is not None:
            fields = self.dc_fields(cls)
            names = [n for n, _ in fields]
            vals = dict(zip(names, args))
            if len(args) > len(names):
                raise PyExc(TypeError, ("too many arguments",))
            vals.update(kwargs)
            for n, d in fields:
                if n not in vals:
                    if d is _MISSING:
                        raise PyExc(TypeError, (f"missing argument {n!r}",))
                    vals[n] = self.call(d.f, [], {}) if type(d).__name__ == "FactoryV" else d
            for n in vals:
                if n not in names:
                    raise PyExc(TypeError, (f"unexpected argument {n!r}",))
            inst.attrs.update(vals)
            post, _ = cls.find("__post_init__")
            if post is not None:
                self.call(BoundV(post, inst), [], {})
        elif args or kwargs:
            if not any(isinstance(b, Term) for b in cls.mro()):
                raise PyExc(TypeError, (f"{cls.name}() takes no arguments",))
            inst.attrs["__ctor__"] = (tuple(args), dict(kwargs))
        return inst

    def dc_fields(self, cls):
        fields = None
        for c in reversed(cls.mro()):
            if isinstance(c, ClassV) and c.dataclass_fields is not None:
                fields = (fields or [])
                for n, d in c.dataclass_fields:
                    fields = [x for x in fields if x[0] != n] + [(n, d)]
        return fields

    def abstract_methods(self, cls):
        out = set()
        seen = set()
        for c in cls.mro():
            if not isinstance(c, ClassV):
                continue
            for n, f in c.ns.items():
                if n in seen:
                    continue
                seen.add(n)
                g = f.fget if isinstance(f, Prop) else f
                if isinstance(g, FuncV) and g.attrs.get("__abstract__"):
                    out.add(n)
        return out

    # ---------------------------------------------------------------- expressions

    def ev(self, n, env, mod):
        m = getattr(self, "ev_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__}")
        return m(n, env, mod)

    def ev_Constant(self, n, env, mod):
        return n.value

    def ev_Name(self, n, env, mod):
        try:
            return env.lookup(n.id)
        except KeyError:
            pass
        if n.id in self.builtins:
            return self.builtins[n.id]
        if n.id in BUILTIN_EXCS:
            return BUILTIN_EXCS[n.id]
        if hasattr(_b, n.id):
            raise Unsupported(f"builtin {n.id}")
        # assigned later in this function?
        raise PyExc(NameError, (f"name {n.id!r} is not defined",), where=f"{mod.relpath}:{n.lineno}")

    def ev_Attribute(self, n, env, mod):
        obj = self.ev(n.value, env, mod)
        return self.getattr(obj, n.attr, n)

    def ev_Subscript(self, n, env, mod):
        obj = self.ev(n.value, env, mod)
        key = self.ev(n.slice, env, mod)
        return self.getitem(obj, key)

    def ev_Slice(self, n, env, mod):
        return slice(*[self.ev(x, env, mod) if x is not None else None for x in (n.lower, n.upper, n.step)])

    def ev_Tuple(self, n, env, mod):
        return tuple(self.seq(n.elts, env, mod))

    def ev_List(self, n, env, mod):
        return self.seq(n.elts, env, mod)

    def ev_Set(self, n, env, mod):
        return SetV(self.seq(n.elts, env, mod))

    def seq(self, elts, env, mod):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.iterate(self.ev(e.value, env, mod)))
            else:
                out.append(self.ev(e, env, mod))
        return out

    def ev_Dict(self, n, env, mod):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.ev(v, env, mod)
                if not isinstance(o, dict):
                    raise Unsupported("** of a non-dict")
                d.update(o)
            else:
                kk = self.ev(k, env, mod)
                d[hkey(kk)] = self.ev(v, env, mod)
        return d

    def ev_BinOp(self, n, env, mod):
        return self.binop(type(n.op), self.ev(n.left, env, mod), self.ev(n.right, env, mod))

    def ev_UnaryOp(self, n, env, mod):
        return self.unary(n.op, self.ev(n.operand, env, mod))

    def ev_BoolOp(self, n, env, mod):
        is_and = isinstance(n.op, ast.And)
        v = None
        for i, e in enumerate(n.values):
            v = self.ev(e, env, mod)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if is_and and not t:
                return v
            if not is_and and t:
                return v
        return v

    def ev_Compare(self, n, env, mod):
        left = self.ev(n.left, env, mod)
        res = True
        for i, (op, c) in enumerate(zip(n.ops, n.comparators)):
            right = self.ev(c, env, mod)
            if isinstance(op, (ast.Is, ast.IsNot)):
                r = self.is_op(left, right)
                if isinstance(op, ast.IsNot):
                    r = (not r) if isinstance(r, bool) else T("not", r)
            elif isinstance(op, (ast.In, ast.NotIn)):
                r = self.contains(left, right)
                if isinstance(op, ast.NotIn):
                    r = not r
            else:
                r = self.compare(CMPOPS[type(op)], left, right)
            if i < len(n.ops) - 1:
                if not self.truth(r):
                    return r
            res = r
            left = right
        return res

    def is_op(self, a, b):
        if isinstance(a, Term) or isinstance(b, Term):
            return self.decide_is(a, b)
        return self.decide_is(a, b)

    def ev_IfExp(self, n, env, mod):
        if self.truth(self.ev(n.test, env, mod)):
            return self.ev(n.body, env, mod)
        return self.ev(n.orelse, env, mod)

    def ev_Lambda(self, n, env, mod):
        return self.make_func(n, env, mod, "<lambda>")

    def make_func(self, n, env, mod, name, owner=None):
        a = n.args
        defaults = [self.ev(d, env, mod) for d in a.defaults]
        kwd = {p.arg: self.ev(d, env, mod) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return FuncV(n, mod, env, name, defaults, kwd, owner)

    def ev_NamedExpr(self, n, env, mod):
        v = self.ev(n.value, env, mod)
        self.assign(n.target, v, env, mod)
        return v

    def ev_JoinedStr(self, n, env, mod):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, env, mod)
                x = self.scalar(x)
                if v.format_spec is not None:
                    spec = self.ev(v.format_spec, env, mod)
                    if isinstance(x, (int, float, str)) and isinstance(spec, str):
                        parts.append(format(x, spec))
                    else:
                        parts.append(T("format", freeze(x), freeze(spec)))
                elif v.conversion == ord("r"):
                    parts.append(repr(x) if isinstance(x, (int, float, str)) else T("fn", "repr", freeze(x)))
                else:
                    parts.append(self.to_str(x))
        return self.fstring(parts)

    def ev_FormattedValue(self, n, env, mod):
        return self.to_str(self.ev(n.value, env, mod))

    def ev_Starred(self, n, env, mod):
        raise Unsupported("starred expression")

    def ev_Await(self, n, env, mod):
        raise Unsupported("await")

    def ev_Yield(self, n, env, mod):
        v = self.ev(n.value, env, mod) if n.value is not None else None
        e = env
        while "__yield__" not in e.vars:
            e = e.parent
        e.vars["__yield__"].append(v)
        return None

    def ev_YieldFrom(self, n, env, mod):
        e = env
        while "__yield__" not in e.vars:
            e = e.parent
        e.vars["__yield__"].extend(self.iterate(self.ev(n.value, env, mod)))
        return None

    def ev_Call(self, n, env, mod):
        # super() without arguments
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            f = self.call_stack[-1]
            p = (f.node.args.posonlyargs + f.node.args.args)[0].arg
            return SuperV(f.owner, env.lookup(p))
        f = self.ev(n.func, env, mod)
        args = self.seq(n.args, env, mod)
        kwargs = {}
        for k in n.keywords:
            v = self.ev(k.value, env, mod)
            if k.arg is None:
                if not isinstance(v, dict):
                    raise Unsupported("** of a non-dict")
                kwargs.update(v)
            else:
                kwargs[k.arg] = v
        try:
            return self.call(f, args, kwargs, n)
        except PyExc as e:
            if e.where is None:
                e.where = f"{mod.relpath}:{n.lineno}"
            raise

    # comprehensions --------------------------------------------------------

    def ev_ListComp(self, n, env, mod):
        return self.comp(n.generators, lambda e: self.ev(n.elt, e, mod), env, mod)

    ev_GeneratorExp = ev_ListComp

    def ev_SetComp(self, n, env, mod):
        r = self.comp(n.generators, lambda e: self.ev(n.elt, e, mod), env, mod)
        if isinstance(r, list):
            return SetV(r)
        raise Unsupported("set comprehension over a symbolic range")

    def ev_DictComp(self, n, env, mod):
        r = self.comp(n.generators, lambda e: (self.ev(n.key, e, mod), self.ev(n.value, e, mod)), env, mod, want_map=True)
        if isinstance(r, list):
            d = {}
            for k, v in r:
                d[hkey(k)] = v
            return d
        return r

    def comp(self, gens, leaf, env, mod, want_map=False):
        out = []
        entries = []
        sub = Env(env, env.globals_)
        sub.kind = "comp"

        def rec(i, binders):
            if i == len(gens):
                v = leaf(sub)
                if binders:
                    entries.append((tuple(binders), v))
                else:
                    out.append(v)
                return
            g = gens[i]
            it = self.ev(g.iter, sub if i else env, mod)
            sr = self.symbolic_range(it)
            if sr is not None:
                lo, hi, wrap = sr
                k = T("sym", "bound", f"k{self.binder_depth}")
                self.binder_depth += 1
                self.no_fork += 1
                try:
                    self.assign(g.target, wrap(k), sub, mod)
                    for c in g.ifs:
                        if not self.truth(self.ev(c, sub, mod)):
                            return
                    rec(i + 1, binders + [(k, lo, hi)])
                finally:
                    self.binder_depth -= 1
                    self.no_fork -= 1
                return
            for x in self.iterate(it):
                self.assign(g.target, x, sub, mod)
                if all(self.truth(self.ev(c, sub, mod)) for c in g.ifs):
                    rec(i + 1, binders)

        rec(0, [])
        if not entries:
            return out
        if want_map:
            sm = SymMap()
            for b, (k, v) in entries:
                sm.entries.append((b, k, v))
            for k, v in out:
                sm.plain[hkey(k)] = v
            return sm
        if len(entries) == 1 and not out and len(entries[0][0]) == 1:
            (k, lo, hi), = entries[0][0]
            return SymSeq(k, lo, hi, entries[0][1])
        raise Unsupported("nested comprehension over a symbolic range")

    def symbolic_range(self, it):
        """(lo, hi, wrap) when `it` iterates a range with a symbolic bound."""
        if isinstance(it, RangeV):
            if isinstance(it.lo, int) and isinstance(it.hi, int) and isinstance(it.step, int):
                return None
            if it.step != 1:
                raise Unsupported("symbolic range with a step")
            return it.lo, it.hi, (lambda k: k)
        if isinstance(it, SymSeq):
            return it.lo, it.hi, (lambda k: substitute_value(it.elem, {it.k: k}))
        h = getattr(it, "abs_range", None)
        if h is not None:
            return h(self)
        return None

    def iterate(self, it):
        if isinstance(it, (list, tuple)):
            return list(it)
        if isinstance(it, dict):
            return list(it.keys())
        if isinstance(it, str):
            return list(it)
        if isinstance(it, (SetV,)):
            return list(it)
        if isinstance(it, VecV):
            return list(it.items)
        if isinstance(it, RangeV):
            if all(isinstance(x, int) for x in (it.lo, it.hi, it.step)):
                return list(range(it.lo, it.hi, it.step))
            raise Unsupported("iteration over a symbolic range")
        h = getattr(it, "abs_iter", None)
        if h is not None:
            return h(self)
        if isinstance(it, Term):
            h = self.hooks.get("iter_term")
            if h is not None:
                r = h(self, it)
                if r is not None:
                    return r
            raise Unsupported(f"iteration over an opaque value {tm.show(it)[:80]}")
        if isinstance(it, InstV):
            f, _ = it.cls.find("__iter__")
            if f is not None:
                return self.iterate(self.call(BoundV(f, it), [], {}))
        if it is None or isinstance(it, (int, float, bool)):
            raise PyExc(TypeError, (f"{type(it).__name__!r} object is not iterable",))
        raise Unsupported(f"iteration over {type(it).__name__}")

    # ---------------------------------------------------------------- statements

    def exec_block(self, body, env, mod):
        for s in body:
            r = self.ex(s, env, mod)
            if r is not None:
                return r
        return None

    def ex(self, s, env, mod):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported("analysis step budget exhausted")
        if not self.steps & 255:
            self.in_time()
        m = getattr(self, "ex_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        return m(s, env, mod)

    def ex_Expr(self, s, env, mod):
        if isinstance(s.value, ast.Constant):
            return None
        self.ev(s.value, env, mod)

    def ex_Pass(self, s, env, mod):
        return None

    def ex_Return(self, s, env, mod):
        return (RET, self.ev(s.value, env, mod) if s.value is not None else None)

    def ex_Break(self, s, env, mod):
        return (BRK, None)

    def ex_Continue(self, s, env, mod):
        return (CNT, None)

    def ex_Assign(self, s, env, mod):
        v = self.ev(s.value, env, mod)
        for t in s.targets:
            self.assign(t, v, env, mod)

    def ex_AnnAssign(self, s, env, mod):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env, mod), env, mod)

    def ex_AugAssign(self, s, env, mod):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev_Name(t, env, mod)
            new = self.aug(type(s.op), cur, self.ev(s.value, env, mod))
            self.assign(t, new, env, mod)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env, mod)
            self.setattr(o, t.attr, self.aug(type(s.op), self.getattr(o, t.attr), self.ev(s.value, env, mod)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, mod)
            k = self.ev(t.slice, env, mod)
            self.setitem(o, k, self.aug(type(s.op), self.getitem(o, k), self.ev(s.value, env, mod)))

    def aug(self, op, cur, val):
        if op is ast.Add and isinstance(cur, list) and isinstance(val, (list, tuple)):
            cur.extend(val)
            return cur
        if isinstance(cur, VecV):
            r = self.binop(op, cur, val)
            if isinstance(r, VecV) and len(r) == len(cur):  # arrays are updated in place
                cur.items[:] = r.items
                return cur
            return r
        return self.binop(op, cur, val)

    def assign(self, t, v, env, mod):
        if isinstance(t, ast.Name):
            e = env
            if t.id in env.vars.get("__global__", ()):
                e = env.globals_
                self.event("global-write", mod.name, t.id, v)
            elif t.id in env.vars.get("__nonlocal__", ()):
                e = env.parent
                while e is not None and t.id not in e.vars:
                    e = e.parent
                if e is None:
                    raise Unsupported("nonlocal")
            e.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x, env, mod)
                self.assign(t.elts[i].value, items[i: len(items) - after], env, mod)
                for e, x in zip(t.elts[i + 1:], items[len(items) - after:] if after else []):
                    self.assign(e, x, env, mod)
            else:
                if len(items) != len(t.elts):
                    raise PyExc(ValueError, (f"cannot unpack {len(items)} values into {len(t.elts)}",))
                for e, x in zip(t.elts, items):
                    self.assign(e, x, env, mod)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env, mod), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env, mod), self.ev(t.slice, env, mod), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env, mod)
        else:
            raise Unsupported(f"assignment target {type(t).__name__}")

    def unpack(self, v, elts):
        if isinstance(v, Term):
            return [T("item", v, i) for i in range(len(elts))]
        return self.iterate(v)

    def ex_If(self, s, env, mod):
        if self.truth(self.ev(s.test, env, mod)):
            return self.exec_block(s.body, env, mod)
        return self.exec_block(s.orelse, env, mod)

    def ex_While(self, s, env, mod):
        n = 0
        while self.truth(self.ev(s.test, env, mod)):
            n += 1
            if n > 5000:
                raise Unsupported("while loop does not terminate within the bound")
            r = self.exec_block(s.body, env, mod)
            if r is not None:
                if r[0] == BRK:
                    return None
                if r[0] == RET:
                    return r
        return self.exec_block(s.orelse, env, mod)

    def ex_For(self, s, env, mod):
        it = self.ev(s.iter, env, mod)
        sr = self.symbolic_range(it)
        if sr is not None:
            return self.symloop(s, sr, env, mod)
        for x in self.iterate(it):
            self.assign(s.target, x, env, mod)
            r = self.exec_block(s.body, env, mod)
            if r is not None:
                if r[0] == BRK:
                    return None
                if r[0] == RET:
                    return r
        return self.exec_block(s.orelse, env, mod)

    ex_AsyncFor = ex_For

    def symloop(self, s, sr, env, mod):
        """One generic iteration; only container stores keyed by the index and
        additive accumulators are summarised."""
        lo, hi, wrap = sr
        k = T("sym", "bound", f"k{self.binder_depth}")
        names = _assigned_names(s.body)
        before = {}
        for nme in names:
            if nme in env.vars:
                v = env.vars[nme]
                if isinstance(v, (int, float, Term)) and not isinstance(v, bool):
                    before[nme] = v
                    env.vars[nme] = T("sym", "phi", nme)
        # container effects are observed through events on fresh dictionaries
        ev0 = len(self.events)
        lists = {id(v): (v, len(v)) for v in _reachable_lists(env)}
        self.binder_depth += 1
        self.no_fork += 1
        try:
            self.assign(s.target, wrap(k), env, mod)
            r = self.exec_block(s.body, env, mod)
            if r is not None:
                raise Unsupported("control transfer out of a symbolic loop")
        finally:
            self.binder_depth -= 1
            self.no_fork -= 1
        for nme, v0 in before.items():
            phi = T("sym", "phi", nme)
            new = env.vars[nme]
            if new is phi:
                env.vars[nme] = v0
                continue
            if isinstance(new, Term) and new.op == "add" and new.args[0] is phi and phi not in tm.subterms(new.args[1]):
                body = new.args[1]
            elif isinstance(new, Term) and new.op == "add" and new.args[1] is phi and phi not in tm.subterms(new.args[0]):
                body = new.args[0]
            elif phi not in tm.subterms(freeze(new)):
                continue
            else:
                raise Unsupported("loop-carried value over a symbolic range")
            env.vars[nme] = self.binop(ast.Add, v0, T("symsum", k, freeze(lo), freeze(hi), freeze(body)))
        for e in self.events[ev0:]:
            if e[0] == "setitem" and isinstance(e[1], dict):
                d, key, val = e[1:]
                if k in tm.subterms(freeze(key)):
                    d.pop(key, None)
                    each = d.setdefault("__each__", SymMap()) if not isinstance(d, SymMap) else d
                    each.entries.append((((k, lo, hi),), key, val))
        for v, n in lists.values():
            if len(v) > n:
                new = v[n:]
                del v[n:]
                v.append(("__each__", SymSeq(k, lo, hi, tuple(new) if len(new) > 1 else new[0])))
        return None

    def ex_Try(self, s, env, mod):
        frame = []
        for h in s.handlers:
            if h.type is None:
                frame.append(None)
            else:
                ty = self.ev(h.type, env, mod)
                frame.append(tuple(ty) if isinstance(ty, tuple) else (ty,))
        depth = len(self.try_stack)
        result = None
        pending = None
        try:
            self.try_stack.append(frame)
            try:
                result = self.exec_block(s.body, env, mod)
            finally:
                del self.try_stack[depth:]
            if result is None and s.orelse:
                result = self.exec_block(s.orelse, env, mod)
        except PyExc as e:
            handled = False
            for h, types in zip(s.handlers, frame):
                if types is None or any(self.exc_match(e, t) for t in types):
                    handled = True
                    if h.name:
                        env.vars[h.name] = e
                    env.vars["__exc__"] = e
                    try:
                        result = self.exec_block(h.body, env, mod)
                    except PyExc as e2:
                        pending = e2
                    break
            if not handled:
                pending = e
        if s.finalbody:
            r2 = self.exec_block(s.finalbody, env, mod)
            if r2 is not None:
                return r2
        if pending is not None:
            raise pending
        return result

    def exc_match(self, e, t):
        c = e.cls
        if isinstance(t, tuple):
            return any(self.exc_match(e, x) for x in t)
        if isinstance(c, type):
            return isinstance(t, type) and issubclass(c, t)
        if isinstance(c, ClassV):
            for b in c.mro():
                if b is t or (isinstance(b, type) and isinstance(t, type) and issubclass(b, t)):
                    return True
            return False
        if isinstance(c, Term):
            if c is t:
                return True
            if t in (Exception, BaseException):
                return True
            if isinstance(t, type) and c.op == "ext":
                # pint's errors: documented bases
                known = {"pint.UndefinedUnitError": (AttributeError,), "pint.DimensionalityError": (TypeError,),
                         "pint.OffsetUnitCalculusError": (TypeError,), "pint.DefinitionSyntaxError": (ValueError,)}
                return t in known.get(c.args[0], ())
        return False

    def ex_Raise(self, s, env, mod):
        if s.exc is None:
            raise env.lookup("__exc__")
        v = self.ev(s.exc, env, mod)
        if isinstance(v, PyExc):
            v.where = f"{mod.relpath}:{s.lineno}"
            raise v
        if isinstance(v, type) and issubclass(v, BaseException):
            raise PyExc(v, (), where=f"{mod.relpath}:{s.lineno}")
        if isinstance(v, ClassV):
            raise PyExc(v, (), where=f"{mod.relpath}:{s.lineno}")
        raise PyExc(v if isinstance(v, Term) else TypeError, (), where=f"{mod.relpath}:{s.lineno}")

    def ex_Assert(self, s, env, mod):
        if not self.truth(self.ev(s.test, env, mod)):
            raise PyExc(AssertionError, (), where=f"{mod.relpath}:{s.lineno}")

    def ex_With(self, s, env, mod, i=0):
        if i == len(s.items):
            return self.exec_block(s.body, env, mod)
        item = s.items[i]
        c = self.ev(item.context_expr, env, mod)

        def rest(v):
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, env, mod)
            return self.ex_With(s, env, mod, i + 1)
        return self.in_context(c, rest)

    def in_context(self, c, rest):
        """rest(entered value) within the context manager c."""
        if isinstance(c, ContextV):
            return c.run(self, rest)
        if isinstance(c, InstV):
            enter, _ = c.cls.find("__enter__")
            leave, _ = c.cls.find("__exit__")
            if enter is None or leave is None:
                if any(isinstance(b, Term) for b in c.cls.mro()):
                    raise Unsupported("context manager of a library class")
                raise PyExc(TypeError, (f"{c.cls.name!r} object does not support the context manager protocol",))
            v = self.call(BoundV(enter, c), [], {})
            try:
                r = rest(v)
            except PyExc as e:
                if self.truth(self.call(BoundV(leave, c), [e.cls, e, None], {})):
                    return None
                raise
            self.call(BoundV(leave, c), [None, None, None], {})
            return r
        h = getattr(c, "abs_context", None)
        if h is not None:
            return h(self, rest)
        try:
            return rest(c)
        except PyExc:
            if isinstance(c, Term) and "open" not in tm.show(c)[:40]:
                raise Unsupported("exception through an unknown context manager")
            raise

    def ex_Delete(self, s, env, mod):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env, mod)
                k = self.ev(t.slice, env, mod)
                if isinstance(o, dict):
                    if isinstance(o, Foreign):
                        self.event("foreign-write", o, k, None)
                    if hkey(k) not in o:
                        raise PyExc(KeyError, (k,))
                    del o[hkey(k)]
                elif isinstance(o, list):
                    del o[k]
                elif isinstance(o, Term):
                    self.event("lib-delitem", o, freeze(k))
                else:
                    raise Unsupported("del")
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env, mod)
                if isinstance(o, InstV):
                    o.attrs.pop(t.attr, None)
                else:
                    self.event("delattr", o, t.attr)

    def ex_Global(self, s, env, mod):
        env.vars["__global__"] = tuple(env.vars.get("__global__", ())) + tuple(s.names)

    def ex_Nonlocal(self, s, env, mod):
        env.vars["__nonlocal__"] = tuple(env.vars.get("__nonlocal__", ())) + tuple(s.names)

    def ex_Import(self, s, env, mod):
        for a in s.names:
            v = self.import_name(a.name, mod)
            if a.asname:
                env.vars[a.asname] = v
            else:
                top = a.name.split(".")[0]
                env.vars[top] = self.import_name(top, mod) if "." in a.name else v

    def ex_ImportFrom(self, s, env, mod):
        if s.level:
            base = mod.name.split(".")
            if not mod.is_pkg:
                base = base[:-1]
            if s.level > 1:
                base = base[: -(s.level - 1)]
            dotted = ".".join(base + ([s.module] if s.module else []))
        else:
            dotted = s.module
        src = self.import_name(dotted, mod)
        for a in s.names:
            if a.name == "*":
                if isinstance(src, ModV):
                    for k, v in src.env.vars.items():
                        if not k.startswith("_"):
                            env.vars[k] = v
                continue
            if isinstance(src, ModV):
                if a.name in src.env.vars:
                    v = src.env.vars[a.name]
                else:
                    v = self.load(f"{src.name}.{a.name}")
                    if v is None:
                        raise PyExc(ImportError, (f"cannot import name {a.name!r} from {src.name!r}",), where=f"{mod.relpath}:{s.lineno}")
            else:
                v = self.getattr(src, a.name) if isinstance(src, Term) else self.getattr(src, a.name)
            env.vars[a.asname or a.name] = v

    def ex_FunctionDef(self, s, env, mod, owner=None):
        f = self.make_func(s, env, mod, s.name, owner)
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(self.ev(d, env, mod), v)
        env.vars[s.name] = v

    def decorate(self, d, v):
        return self.call(d, [v], {})

    def ex_ClassDef(self, s, env, mod):
        bases = [self.ev(b, env, mod) for b in s.bases]
        cenv = Env(env, env.globals_, kind="class")
        cls = ClassV(s.name, bases, cenv.vars, mod, s)
        fields = []
        for st in s.body:
            if isinstance(st, ast.FunctionDef):
                self.ex_FunctionDef(st, cenv, mod, owner=cls)
            else:
                self.ex(st, cenv, mod)
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                    fields.append((st.target.id, cenv.vars[st.target.id] if st.value is not None else _MISSING))
        cls.own_fields = fields
        cls.node = s
        v = cls
        for d in reversed(s.decorator_list):
            v = self.decorate(self.ev(d, env, mod), v)
        env.vars[s.name] = v

    # ---------------------------------------------------------------- strings

    def str_method(self, o, name, args, kwargs):
        if isinstance(o, str):
            if name == "format":
                return self.str_format(o, args, kwargs)
            if name == "join":
                items = self.iterate(args[0])
                parts = []
                for i, x in enumerate(items):
                    if i:
                        parts.append(o)
                    parts.append(x)
                if any(isinstance(x, Term) for x in items):
                    return self.fstring(parts)
                if not all(isinstance(x, str) for x in items):
                    raise PyExc(TypeError, ("sequence item: expected str instance",))
                return o.join(items)
            if all(not tm.subterms(freeze(a)) for a in args):
                try:
                    return getattr(o, name)(*args, **kwargs)
                except Exception as e:
                    raise PyExc(type(e), (str(e),))
            if name == "replace" and len(args) == 2 and isinstance(args[0], str) and isinstance(args[1], Term):
                parts = []
                for i, x in enumerate(o.split(args[0])):
                    if i:
                        parts.append(args[1])
                    parts.append(x)
                return self.fstring([x for x in parts if x != ""]) if len(parts) > 1 else o
            return T("call", T("attr", o, name), tuple(freeze(a) for a in args), ())
        # symbolic strings
        if isinstance(o, Term):
            if name == "join" and len(args) == 1 and isinstance(args[0], (list, tuple)) and all(isinstance(x, (str, Term)) for x in args[0]):
                parts = [y for i, x in enumerate(args[0]) for y in ([o, x] if i else [x]) if y != ""]
                return self.fstring(parts) if parts else ""
            if name in ("startswith", "endswith") and o.op == "fstr" and isinstance(args[0], str):
                edge = o.args[0] if name == "startswith" else o.args[-1]
                if isinstance(edge, str):
                    p = args[0]
                    if name == "startswith":
                        if len(edge) >= len(p):
                            return edge.startswith(p)
                        if not p.startswith(edge):
                            return False
                    else:
                        if len(edge) >= len(p):
                            return edge.endswith(p)
                        if not p.endswith(edge):
                            return False
            if name == "split" and o.op == "fstr" and args and isinstance(args[0], str):
                maxsplit = args[1] if len(args) > 1 else kwargs.get("maxsplit", -1)
                out = [[]]
                n = 0
                for p in o.args:
                    if isinstance(p, str):
                        rest = p
                        while args[0] in rest and (maxsplit < 0 or n < maxsplit):
                            a, rest = rest.split(args[0], 1)
                            out[-1].append(a)
                            out.append([])
                            n += 1
                        out[-1].append(rest)
                    else:
                        out[-1].append(p)
                return [self.fstring(x) if x else "" for x in out]
            if name == "partition" and o.op == "fstr" and args and isinstance(args[0], str):
                parts = self.method_split_once(o, args[0])
                return parts if parts is not None else (o, "", "")
            if name in ("removeprefix", "removesuffix") and o.op == "fstr" and isinstance(args[0], str) and args[0]:
                edge = o.args[0] if name == "removeprefix" else o.args[-1]
                if isinstance(edge, str) and len(edge) >= len(args[0]):
                    cut = getattr(edge, name)(args[0])
                    rest = [cut, *o.args[1:]] if name == "removeprefix" else [*o.args[:-1], cut]
                    return self.fstring([x for x in rest if x != ""])
            d = self.domain_of(o)
            if d is not None and d.enum is not None and all(isinstance(a, (str, int)) for a in args):
                for v in d.enum:
                    if self.decide(("eq", o, v)):
                        return getattr(v, name)(*args, **kwargs)
        return T("call", T("attr", o, name), tuple(freeze(a) for a in args), ())

    def method_split_once(self, o, sep):
        """(before, sep, after) of a formatted text, at the first place where a known part holds the separator."""
        for i, p in enumerate(o.args):
            if isinstance(p, str) and sep in p:
                a, b = p.split(sep, 1)
                text = lambda x: self.fstring([y for y in x if y != ""]) if any(y != "" for y in x) else ""
                return text([*o.args[:i], a]), sep, text([b, *o.args[i + 1:]])
        return None

    def str_format(self, s, args, kwargs):
        parts = []
        auto = 0
        for lit, field, spec, conv in string.Formatter().parse(s):
            if lit:
                parts.append(lit)
            if field is None:
                continue
            if field == "":
                v = args[auto]
                auto += 1
            elif field.isdigit():
                v = args[int(field)]
            else:
                v = kwargs.get(field)
                if v is None:
                    return T("fstr", s, freeze(args), freeze(kwargs))
            v = self.scalar(v)
            if spec:
                if isinstance(v, (int, float, str)):
                    parts.append(format(v, spec))
                else:
                    parts.append(T("format", freeze(v), spec))
            else:
                parts.append(self.to_str(v))
        return self.fstring(parts)


STR_METHODS = {m for m in dir(str) if not m.startswith("_")}
_MISSING = object()


def is_known_num(x):
    return isinstance(x, (int, float)) or (isinstance(x, Term) and x.op in ("par", "var"))


def opaque(t):
    """Whether nothing is known of what t is (a result of a library, an attribute or item of one)."""
    return t.op in ("call", "ext", "attr", "item", "div", "sub", "add", "mul") and any(isinstance(x, Term) and x.op in ("ext", "call") for x in tm.subterms(t))


def known_object(x):
    return x is None or isinstance(x, (int, float, complex, str, bytes, list, tuple, dict, set, frozenset, range, slice, type, Fraction, SetV, FuncV, ClassV, InstV, BoundV, ModV, Builtin,
                                       PyExc)) or getattr(x, "known_object", False)


def _has_yield(node):
    stack = list(node.body) if not isinstance(node, ast.Lambda) else [node.body]
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


def _assigned_names(body):
    out = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
    return out


def _reachable_lists(env):
    return [v for v in env.vars.values() if isinstance(v, list)]


def substitute(t, s):
    """Replace terms in a term / tuple according to mapping s."""
    if isinstance(t, Term):
        if t in s:
            return s[t]
        if not t.args:
            return t
        new = tuple(substitute(a, s) for a in t.args)
        if all(a is b for a, b in zip(new, t.args)):
            return t
        return T(t.op, *new)
    if isinstance(t, tuple):
        return tuple(substitute(a, s) for a in t)
    return t


def substitute_value(v, s):
    if isinstance(v, (Term, tuple)):
        return substitute(v, s)
    if isinstance(v, list):
        return [substitute_value(x, s) for x in v]
    if isinstance(v, dict):
        return {substitute_value(k, s): substitute_value(x, s) for k, x in v.items()}
    return v


def match_key(pattern, key, binders):
    s = {}

    def rec(p, k):
        if isinstance(p, Term) and p in binders:
            if p in s:
                return s[p] is k or s[p] == k
            s[p] = k
            return True
        if isinstance(p, tuple) and isinstance(k, tuple) and len(p) == len(k):
            return all(rec(a, b) for a, b in zip(p, k))
        if isinstance(p, Term) or isinstance(k, Term):
            return p is k
        return p == k

    return s if rec(pattern, key) else None
