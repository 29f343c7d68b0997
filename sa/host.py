"""The program's environment: a concrete Pyomo model, solver, transformations, log and written files, as recording models."""
import copy
import json
import os
import posixpath
import re

from . import pyomo_model as pm, terms as tm, unitmodel
from .frames import Frame, isnum
from .interp import Builtin, PyExc, Unsupported, VecV
from .terms import T, Term

STATUSES = ("ok", "warning", "error", "aborted", "unknown")


class World:
    def __init__(self):
        self.times, self.regions = [], []

    def manual(self, name, idx):
        return {}


class HModel(pm.ModelV):
    """A model whose sets, parameters and variables have values."""
    rule_mode = False
    count = 0

    def __init__(self, host, kind="ConcreteModel"):
        super().__init__(World(), kind)
        self.host = host
        self.data = {}
        host.models.append(self)
        self.id = len(host.models)
        self.epoch = 0

    def symbol(self, name, idx):
        return T("par", "cell", f"m{self.id}s{self.epoch}.{name}", *idx)

    def abs_getattr(self, it, name):
        if name == "create_instance":
            def create(it, a, k):
                d = a[0] if a else k.get("data", {})
                d = d.get(None, d)
                self.data = d
                self.world.times = list(it.iterate(scalar(d["t"])))
                self.world.regions = list(it.iterate(scalar(d["regions"])))
                self.kind = "ConcreteModel"
                return self
            return Builtin(name, create)
        if name == "component_objects":
            f = super().abs_getattr(it, name)

            def objs(it, a, k):
                xs = f.fn(it, a, k)
                return [c for c in xs if c.name is not None]
            return Builtin(name, objs)
        return super().abs_getattr(it, name)


def scalar(x):
    return x[None] if isinstance(x, dict) and list(x) == [None] else x


class HComp(pm.Comp):
    def model_ready(self):
        return self.model is not None and self.model.kind == "ConcreteModel"

    def entry(self, it, key):
        idx = self.check_index(it, key)
        if self.ctype == "Var":
            if self.name == "NPV":
                self.model.host.log.append(("read", self.model, self.name))
            return self.model.symbol(self.name, idx)
        return super().entry(it, key)

    def as_scalar(self, it):
        if self.ctype == "Var" and not self.sets:
            return self.model.symbol(self.name, ())
        return super().as_scalar(it)

    def param_value(self, it, idx):
        d = self.model.data.get(self.name)
        if d is not None:
            k = None if not idx else idx[0] if len(idx) == 1 else idx
            if k not in d:
                raise PyExc(KeyError, (k,))
            return d[k]
        init = self.kwargs.get("initialize", self.kwargs.get("default"))
        if isinstance(init, (pm.FuncV, pm.BoundV, Builtin)):
            return T("par", "cell", f"m{self.model.id}.{self.name}", *idx)
        if isinstance(init, dict):
            return it.getitem(init, idx[0] if len(idx) == 1 else idx)
        if init is None:
            raise PyExc(ValueError, (f"parameter {self.name!r} has no value",))
        return init

    def source(self, it):
        return None


class UnitText:
    def __init__(self, text):
        self.text = text

    def abs_str(self, it):
        return self.text

    def to_text(self):
        return self.text


class Written:
    """A file opened for writing."""

    def __init__(self, host, path, mode):
        self.host, self.path = host, path
        if "a" not in mode or path not in host.files:
            host.files[path] = ""

    def abs_getattr(self, it, name):
        if name == "write":
            def write(it, a, k):
                self.host.files[self.path] = join(self.host.files[self.path], a[0])
            return Builtin(name, write)
        if name in ("close", "flush"):
            return Builtin(name, lambda it, a, k: None)
        raise Unsupported(f"file attribute {name}")


def join(a, b):
    if a == "":
        return b
    if not isinstance(a, str) or not isinstance(b, str):
        raise Unsupported("text written in parts")
    return a + b


class Solver:
    def __init__(self, host, name):
        self.host, self.name, self.options = host, name, {}

    def abs_getattr(self, it, name):
        if name == "options":
            return self.options
        if name == "solve":
            return Builtin(name, self.solve)
        if name in ("available", "license_is_valid"):
            return Builtin(name, lambda it, a, k: True)
        raise Unsupported(f"solver attribute {name}")

    def abs_setattr(self, it, name, val):
        if name == "options" and isinstance(val, dict):
            self.options = val
        else:
            raise Unsupported(f"solver attribute {name} assigned")

    def solve(self, it, a, k):
        h = self.host
        k = dict(k)
        m = a[0] if a else k.pop("model", None)
        opts = dict(self.options)
        opts.update(k.pop("options", None) or {})
        h.log.append(("solve", self.name, m, opts, k, dict(h.environ)))
        if h.fail:
            raise PyExc(T("ext", "pyutilib.ApplicationError"), ("no executable",))
        if isinstance(m, HModel):
            m.epoch += 1
        return Obj(solver=Obj(status=h.status, termination_condition=h.condition, message=T("sym", "str", "message")),
                   Solver=Obj(status=h.status, termination_condition=h.condition))


class Manager:
    def __init__(self, host, name):
        self.host, self.name = host, name

    def abs_getattr(self, it, name):
        if name != "solve":
            raise Unsupported(f"solver manager attribute {name}")

        def solve(it, a, k):
            k = dict(k)
            opt = k.pop("opt", None) or k.pop("solver", None) or (a[1] if len(a) > 1 else None)
            s = Solver(self.host, (self.name, opt.name if isinstance(opt, Solver) else opt))
            if isinstance(opt, Solver):
                s.options = opt.options
            return s.solve(it, a[:1], k)
        return Builtin(name, solve)


class Obj:
    def __init__(self, **kw):
        self.kw = kw

    def abs_getattr(self, it, name):
        if name in self.kw:
            return self.kw[name]
        if name.startswith("__"):
            raise PyExc(AttributeError, (name,))
        raise Unsupported(f"attribute {name}")

    def abs_getitem(self, it, k):
        return self.abs_getattr(it, k) if isinstance(k, str) else self

    def truth(self, it):
        return True


class Transformation:
    def __init__(self, host, name):
        self.host, self.name = host, name

    def abs_getattr(self, it, name):
        def f(it, a, k):
            m = a[0] if a else k.get("model", k.get("instance"))
            if name == "update_variables" and not any(e[0] in ("apply_to", "create_using") and e[1] == self.name and e[2] is m for e in self.host.log):
                raise PyExc(AttributeError, ("'ConcreteModel' object has no attribute '_var_aggregator_info'",))
            self.host.log.append((name, self.name, m))
            return m if name == "create_using" else None
        if name in ("apply_to", "create_using", "update_variables"):
            return Builtin(name, f)
        raise Unsupported(f"transformation attribute {name}")


class Logger:
    def __init__(self, host, name):
        self.host, self.name = host, name

    def abs_getattr(self, it, name):
        def f(it, a, k):
            args = [it.scalar(x) for x in a]
            msg = args[0] if args else ""
            if len(args) > 1:
                msg = it.binop(pm.ast.Mod, msg, tuple(args[1:])) if name != "log" else args[1]
            self.host.logs.append((self.name, name, msg))
        if name in ("debug", "info", "warning", "error", "critical", "exception", "log", "warn"):
            return Builtin("log." + name, f)
        if name == "name":
            return self.name
        if name == "getChild":
            return Builtin(name, lambda it, a, k: Logger(self.host, f"{self.name}.{a[0]}"))
        if name in ("addHandler", "setLevel"):
            return Builtin(name, lambda it, a, k: None)
        raise Unsupported(f"logger attribute {name}")

    def truth(self, it):
        return True


class Environ(dict):
    pass


class Host:
    def __init__(self, session):
        self.session = session
        self.it = session.it
        self.reset()
        self.install()

    def reset(self):
        self.models, self.log, self.logs, self.files, self.dirs = [], [], [], {}, []
        self.status, self.condition, self.fail = "ok", T("sym", "str", "condition"), False
        self.environ = Environ()
        self.ticks = 0

    def run(self, fn):
        def body(it):
            self.reset()
            it.models["os.environ"] = self.environ
            return fn(it)
        return body

    def install(self):
        it, M = self.it, self.it.models
        units = M["pyomo.environ.units"]
        pm.install(it, World())
        M["pyomo.environ.units"] = units

        old = type(units).abs_getattr

        def units_attr(it, name):
            if name == "get_units":
                return Builtin(name, lambda it, a, k: a[0].kwargs.get("units") if isinstance(a[0], pm.Comp) else unsup("get_units"))
            return old(units, it, name)
        units.abs_getattr = units_attr

        def make(ctype):
            def f(it, a, k):
                if ctype == "Set":
                    return pm.SetC(k, a)
                sets = []
                for s in a:
                    if isinstance(s, (list, tuple, pm.RangeV)):
                        sc = pm.SetC({"initialize": list(it.iterate(s))}, [])
                        sc.name = "<inline>"
                        s = sc
                    if not isinstance(s, pm.SetC):
                        raise Unsupported(f"index set of a {ctype}")
                    sets.append(s)
                u = k.get("units")
                if isinstance(u, (unitmodel.UnitV, unitmodel.QuantityV)) and not isinstance(u, unitmodel.PyomoUnitV):
                    raise PyExc(AttributeError, (f"{'Unit' if isinstance(u, unitmodel.UnitV) else 'Quantity'!r} object has no attribute 'is_expression_type'",))
                return HComp(ctype, sets, dict(k), pm._site(it))
            return f
        for c in pm.COMPONENTS:
            M["pyomo.environ." + c] = pm.CtypeV(c, make(c))
        for kind in ("AbstractModel", "ConcreteModel"):
            M["pyomo.environ." + kind] = Builtin(kind, lambda it, a, k, kind=kind: HModel(self, kind))
        val = M["pyomo.environ.value"]

        def value(it, a, k):
            x = a[0]
            if isinstance(x, pm.Comp) and not x.sets and x.ctype == "Var":
                return number(x.as_scalar(it))
            return number(val.fn(it, a, k))
        M["pyomo.environ.value"] = Builtin("value", value)
        st = Obj(**{s: s for s in STATUSES})
        for lib in ("pyomo.environ", "pyomo.opt"):
            M[lib + ".SolverStatus"] = st
            M[lib + ".SolverFactory"] = Builtin("SolverFactory", lambda it, a, k: self.solver(a, k))
            M[lib + ".SolverManagerFactory"] = Builtin("SolverManagerFactory", lambda it, a, k: Manager(self, a[0]))
        M["pyomo.environ.TransformationFactory"] = Builtin("TransformationFactory", lambda it, a, k: Transformation(self, a[0]))
        M["logging.getLogger"] = Builtin("getLogger", lambda it, a, k: Logger(self, a[0] if a else "root"))
        M["os.environ"] = self.environ
        for c in ("time", "perf_counter", "monotonic"):
            M["time." + c] = Builtin(c, self.clock)
        M["os.makedirs"] = Builtin("makedirs", self.makedirs)
        M["os.mkdir"] = Builtin("mkdir", self.makedirs)
        for n in ("exists", "isfile", "isdir"):
            M["os.path." + n] = Builtin(n, lambda it, a, k, n=n: self.there(n, a[0]))
        M["json.dumps"] = Builtin("json.dumps", lambda it, a, k: dumps(a[0], k))
        M["json.dump"] = Builtin("json.dump", lambda it, a, k: it.call(it.getattr(a[1], "write"), [dumps(a[0], k)], {}))
        M["json.loads"] = Builtin("json.loads", lambda it, a, k: json.loads(a[0]))
        for h in ("md5", "sha1", "sha256"):
            M["hashlib." + h] = Builtin(h, lambda it, a, k, h=h: Hash(h, a))
        M["glob.glob"] = Builtin("glob", self.glob)
        read = it.builtins["open"]

        def open_(it, a, k):
            mode = a[1] if len(a) > 1 else k.get("mode", "r")
            if isinstance(mode, str) and mode[0] in "wxa":
                p = a[0] if a else k["file"]
                if not isinstance(p, str):
                    raise Unsupported("file with a symbolic name")
                self.need_dir(p)
                return Written(self, norm(p), mode)
            return read.fn(it, a, k)
        it.builtins["open"] = Builtin("open", open_)
        it.hooks["to_csv"] = self.to_csv
        attr, lib = it.hooks.get("term_attr"), it.hooks.get("call_lib")

        def term_attr(it, obj, name):
            if name == "value" and number(obj) is not obj:
                return number(obj)
            if name == "value" and (isnum(obj) or obj.op == "interp"):
                raise PyExc(AttributeError, ("'float' object has no attribute 'value'",))
            return attr(it, obj, name) if attr else None

        def call_lib(it, f, a, k):
            if number(f) is not f:
                return number(f)
            return lib(it, f, a, k) if lib else NotImplemented
        it.hooks["term_attr"], it.hooks["call_lib"] = term_attr, call_lib

    def clock(self, it, a, k):
        self.ticks += 1
        t = T("par", "cell", "clock", self.ticks)
        self.log.append(("clock", t))
        return t

    def solver(self, a, k):
        s = Solver(self, a[0] if a else k.get("name"))
        s.options = dict(k.get("options") or {})
        return s

    def makedirs(self, it, a, k):
        p = norm(a[0] if a else k["name"])
        if p in self.dirs and k.get("exist_ok", len(a) > 2 and a[2]) is not True:
            raise PyExc(FileExistsError, (p,))
        while p and p not in self.dirs:
            self.dirs.append(p)
            p = posixpath.dirname(p)

    def there(self, what, path):
        if isinstance(path, str) and os.path.isabs(path) and os.path.normpath(path).startswith(str(self.session.root).rstrip("/") + "/"):
            return getattr(os.path, what)(path)
        p = norm(path)
        is_file, is_dir = p in self.files or p in self.session.tables, p in self.dirs
        return is_file if what == "isfile" else is_dir if what == "isdir" else is_file or is_dir

    def need_dir(self, p):
        d = posixpath.dirname(norm(p))
        if d and d not in self.dirs:
            raise PyExc(FileNotFoundError, (p,))

    def to_csv(self, it, frame, a, k):
        p = a[0] if a else k.pop("path_or_buf", None)
        if p is not None and not isinstance(p, (str, Written)):
            raise Unsupported("to_csv to a symbolic path")
        k = dict(zip(("sep", "na_rep", "float_format", "columns", "header", "index"), a[1:]), **k)
        out = Csv(frame.copy(), k)
        if p is None:
            return out
        if isinstance(p, Written):
            self.files[p.path] = join(self.files[p.path], out)
        else:
            self.need_dir(p)
            self.files[norm(p)] = out

    def glob(self, it, a, k):
        import fnmatch
        names = list(self.session.tables) + [f for f in self.files if isinstance(self.files[f], Csv)]
        return sorted(n for n in names if fnmatch.fnmatch(n, a[0]))


def is_element(x):
    """Whether x is an element of a variable of a model (an object; its number is its value)."""
    return isinstance(x, Term) and x.op == "par" and x.args[0] == "cell" and isinstance(x.args[1], str) and re.match(r"m\d+s\d+\.", x.args[1]) is not None


def expression(x):
    """Whether x is an element or an expression of elements, and not a number."""
    if not isinstance(x, Term) or x.op == "fn" and x.args[0] == "value":
        return False
    return is_element(x) or any(expression(a) for a in x.args)


def number(x):
    return T("fn", "value", x) if expression(x) else x


class Csv:
    def __init__(self, frame, options):
        self.frame, self.options = frame, options


class Hash:
    def __init__(self, kind, a):
        self.kind, self.data = kind, [x for x in a]

    def abs_getattr(self, it, name):
        import hashlib
        if name == "hexdigest":
            h = hashlib.new(self.kind)
            for x in self.data:
                if not isinstance(x, (bytes, str)):
                    raise Unsupported("hash of a symbolic text")
                h.update(x.encode() if isinstance(x, str) else x)
            return Builtin(name, lambda it, a, k: h.hexdigest())
        if name == "update":
            return Builtin(name, lambda it, a, k: self.data.append(a[0]))
        raise Unsupported(f"hash attribute {name}")


def unsup(what):
    raise Unsupported(what)


def norm(p):
    if not isinstance(p, str):
        raise Unsupported("symbolic path")
    return posixpath.normpath(p)


def plain(x):
    if isinstance(x, dict):
        out = {}
        for k, v in x.items():
            if not isinstance(k, (str, int, float, bool)) and k is not None:
                raise PyExc(TypeError, (f"keys must be str, int, float, bool or None, not {type(k).__name__}",))
            out[k] = plain(v)
        return out
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if x is None or isinstance(x, (str, int, float, bool)):
        return x
    if isinstance(x, Term):
        raise Unsupported("json text of a symbolic value")
    raise PyExc(TypeError, (f"Object of type {type(x).__name__} is not JSON serializable",))


def dumps(x, k):
    if isinstance(x, Term):
        return x
    kw = {n: v for n, v in k.items() if n in ("indent", "sort_keys", "separators", "ensure_ascii", "allow_nan", "default", "skipkeys", "check_circular")}
    if set(k) - set(kw):
        raise Unsupported("json options " + ",".join(set(k) - set(kw)))
    try:
        x = plain(x)
    except PyExc:
        if "default" in k or "skipkeys" in k:
            raise Unsupported("json text of an object by a given function")
        raise
    return json.dumps(x, **{n: v for n, v in kw.items() if n != "default"})
