"""Model of the unit registry: definitions file, unit expressions, exact factors."""
import ast
import os
import re
from fractions import Fraction

from . import terms as tm
from .terms import T, Term
from .interp import Builtin, PyExc, Unsupported, VecV, freeze, Interp

PREFIX = {}
for short, long_, e in (("y", "yocto", -24), ("z", "zepto", -21), ("a", "atto", -18), ("f", "femto", -15), ("p", "pico", -12),
                        ("n", "nano", -9), ("u", "micro", -6), ("m", "milli", -3), ("c", "centi", -2), ("d", "deci", -1),
                        ("da", "deca", 1), ("h", "hecto", 2), ("k", "kilo", 3), ("M", "mega", 6), ("G", "giga", 9), ("T", "tera", 12),
                        ("P", "peta", 15), ("E", "exa", 18), ("Z", "zetta", 21), ("Y", "yotta", 24)):
    PREFIX[short] = PREFIX[long_] = Fraction(10) ** e

BASE = {"m": "[length]", "s": "[time]", "g": "[mass]", "K": "[temperature]", "delta_degC": "[temperature]", "bit": "[information]"}
DERIVED = {
    "meter": "m", "metre": "m", "second": "s", "gram": "g", "kelvin": "K", "degK": "K", "delta_celsius": "delta_degC",
    "min": "60 s", "minute": "60 s", "hour": "3600 s", "day": "86400 s", "week": "604800 s", "year": "365.25 day", "yr": "year",
    "a": "year", "annum": "year", "julian_year": "year", "month": "30.4375 day", "century": "100 year",
    "metric_ton": "1000000 g", "tonne": "metric_ton", "t": "metric_ton", "ton": "907184.74 g", "percent": "0.01", "ppm": "0.000001",
    "dimensionless": "1", "count": "1", "radian": "1", "Tt": "0.001 g/m",
}
DIMENSIONALITY = T("ext", "pint.DimensionalityError")
UNDEFINED = T("ext", "pint.UndefinedUnitError")
SYNTAX = T("ext", "pint.DefinitionSyntaxError")


class UnitError(Exception):
    def __init__(self, cls, msg):
        self.cls = cls
        super().__init__(msg)


class Registry:
    def __init__(self):
        self.defs = {k: ("base", v) for k, v in BASE.items()}
        self.defs.update({k: ("expr", v) for k, v in DERIVED.items()})
        self.cache = {}
        self.files = []

    def load(self, path):
        self.files.append(path)
        self.cache.clear()
        with open(path, encoding="utf8") as fh:
            for line in fh:
                line = line.split("#")[0].strip()
                if not line:
                    continue
                parts = [x.strip() for x in line.split("=")]
                if len(parts) < 2 or line.startswith("@"):
                    raise Unsupported(f"unit definition {line!r}")
                name, val, alias = parts[0], parts[1], parts[2:]
                if name.endswith("-"):
                    PREFIX_DEF = self.expr(val)
                    self.defs[name[:-1]] = ("prefix", PREFIX_DEF)
                    continue
                if re.fullmatch(r"\[\w*\]", val):
                    self.defs[name] = ("base", val if val != "[]" else None)
                else:
                    self.defs[name] = ("expr", val)
                for a in alias:
                    if a and a != "_":
                        self.defs[a] = ("expr", name)

    def name(self, n):
        """(factor, dims) of a unit name."""
        if n in self.cache:
            return self.cache[n]
        for cand in (n, n[:-1] if n.endswith("s") and len(n) > 2 else None):
            if cand is None:
                continue
            if cand in self.defs:
                r = self.definition(cand)
                self.cache[n] = r
                return r
            for p in sorted(PREFIX, key=len, reverse=True):
                if cand.startswith(p) and cand[len(p):] in self.defs:
                    f, d = self.definition(cand[len(p):])
                    r = (PREFIX[p] * f, d)
                    self.cache[n] = r
                    return r
        raise UnitError(UNDEFINED, f"{n!r} is not defined in the unit registry")

    def definition(self, n):
        kind, v = self.defs[n]
        if kind == "base":
            return (Fraction(1), {v: 1} if v else {})
        return self.expr(v)

    def expr(self, s):
        """(factor, dims) of an expression; juxtaposition is multiplication."""
        toks = re.findall(r"\d+\.?\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?|\*\*|[*/^()+-]|[^\W\d]\w*|\S", s)
        pos = 0

        def peek():
            return toks[pos] if pos < len(toks) else None

        def take():
            nonlocal pos
            pos += 1
            return toks[pos - 1]

        def atom():
            t = peek()
            if t is None:
                raise UnitError(SYNTAX, f"cannot parse {s!r}")
            if t == "(":
                take()
                v = total()
                if peek() != ")":
                    raise UnitError(SYNTAX, f"cannot parse {s!r}")
                take()
            elif t in "+-" and len(t) == 1:
                take()
                f, d = power()
                return (-f if t == "-" else f), d
            elif re.match(r"[\d.]", t):
                take()
                v = (Fraction(t), {})
            elif re.match(r"[^\W\d]", t):
                take()
                v = self.name(t)
            else:
                raise UnitError(SYNTAX, f"cannot parse {s!r}")
            return v

        def power():
            f, d = atom()
            if peek() in ("**", "^"):
                take()
                e, ed = power()
                if ed or e.denominator != 1:
                    raise Unsupported("fractional unit power")
                f, d = f ** int(e), {k: v * int(e) for k, v in d.items() if v * e}
            return f, d

        def mul(a, b, sign):
            d = dict(a[1])
            for k, v in b[1].items():
                d[k] = d.get(k, 0) + sign * v
                if not d[k]:
                    del d[k]
            if sign < 0 and b[0] == 0:
                raise UnitError(SYNTAX, "division by zero")
            return (a[0] * b[0] if sign > 0 else a[0] / b[0]), d

        def total():
            v = power()
            while peek() is not None and peek() != ")":
                t = peek()
                if t == "*":
                    take()
                    v = mul(v, power(), 1)
                elif t == "/":
                    take()
                    v = mul(v, power(), -1)
                elif t in "+-" and len(t) == 1:
                    take()
                    w = power()
                    if w[1] != v[1]:
                        raise UnitError(DIMENSIONALITY, "sum of different dimensions")
                    v = (v[0] + (w[0] if t == "+" else -w[0]), v[1])
                else:
                    v = mul(v, power(), 1)
            return v
        if not s.strip():
            return Fraction(1), {}
        v = total()
        if pos != len(toks):
            raise UnitError(SYNTAX, f"cannot parse {s!r}")
        return v

    def factor(self, unit, target):
        a, b = self.expr(unit), self.expr(target)
        if a[1] != b[1]:
            raise UnitError(DIMENSIONALITY, f"cannot convert from {unit!r} to {target!r}")
        return a[0] / b[0]


def exact(x):
    return int(x) if x.denominator == 1 else float(x)


def scale(it, v, f):
    if isinstance(v, VecV):
        return VecV([scale(it, x, f) for x in v.items])
    if isinstance(v, bool) or v is None or isinstance(v, (dict, list, tuple)):
        raise Unsupported("quantity of a non-number")
    if isinstance(v, (int, float)):
        return float(v * f)
    if isinstance(v, str):
        raise Unsupported("quantity of a text")
    return it.binop(ast.Mult, v, exact(f)) if f != 1 else v


class QuantityV:
    """value * unit expression"""

    def __init__(self, reg, value, unit):
        self.reg, self.value, self.unit = reg, value, unit

    def term(self):
        return T("quantityobj", freeze(self.value), self.unit)

    def to(self, it, a, k):
        target = a[0]
        if isinstance(target, QuantityV) or isinstance(target, UnitV):
            target = target.unit
        if not isinstance(target, str):
            raise Unsupported("conversion to a symbolic unit")
        f = guarded(lambda: self.reg.factor(self.unit, target))
        return QuantityV(self.reg, scale(it, self.value, f), target)

    def abs_getattr(self, it, name):
        if name in ("magnitude", "m"):
            return self.value
        if name in ("units", "u"):
            return UnitV(self.reg, self.unit)
        if name == "to":
            return Builtin("to", self.to)
        if name in ("m_as",):
            return Builtin("m_as", lambda it, a, k: self.to(it, a, k).value)
        if name in ("check", "is_compatible_with"):
            def compatible(it, a, k):
                t = a[0].unit if hasattr(a[0], "unit") else a[0]
                return guarded(lambda: self.reg.expr(self.unit)[1] == self.reg.expr(t)[1])
            if name == "is_compatible_with":
                return Builtin(name, compatible)
        raise Unsupported(f"quantity attribute {name}")


class UnitV:
    def __init__(self, reg, unit):
        self.reg, self.unit = reg, unit
        guarded(lambda: reg.expr(unit))

    def term(self):
        return T("unitobj", self.unit)

    def to_text(self):
        return self.unit


class PyomoUnitV(UnitV):
    """A unit of Pyomo (as opposed to one of pint)."""


def guarded(f):
    try:
        return f()
    except UnitError as e:
        raise PyExc(e.cls, (str(e),))


class RegistryV:
    def __init__(self, reg):
        self.reg = reg

    def term(self):
        return T("ext", "pint_registry")

    def quantity(self, it, a, k):
        v = a[0] if a else k["value"]
        u = a[1] if len(a) > 1 else k.get("units")
        if isinstance(u, UnitV):
            u = u.unit
        if u is None:
            if isinstance(v, str):
                f, d = guarded(lambda: self.reg.expr(v))
                # keep the leading number as the value and the rest as unit
                m = re.match(r"\s*([+-]?\s*(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)\s*", v)
                unit = v[m.end():] if m else v
                num = float(m.group(1).replace(" ", "")) if m else 1
                if m and unit[:1] in ("/", "+", "-", "*", "^"):
                    unit = "1" + unit if unit[0] == "/" else None
                    if unit is None:
                        raise Unsupported(f"quantity expression {v!r}")
                return QuantityV(self.reg, num, unit or "dimensionless")
            if isinstance(v, (int, float, Term, VecV)) and not isinstance(v, bool):
                if isinstance(v, Term) and v.op == "fstr":
                    raise Unsupported("quantity of a symbolic text")
                return QuantityV(self.reg, v, "dimensionless")
            raise Unsupported("quantity of an unsupported value")
        if not isinstance(u, str):
            raise Unsupported("symbolic unit")
        guarded(lambda: self.reg.expr(u))
        if isinstance(v, str):
            q = self.quantity(it, [v], {})
            return QuantityV(self.reg, q.value, f"({q.unit})*({u})")
        return QuantityV(self.reg, v, u)

    def abs_getattr(self, it, name):
        if name == "Quantity":
            return Builtin("Quantity", self.quantity)
        if name == "Unit":
            return Builtin("Unit", lambda it, a, k: UnitV(self.reg, a[0]))
        if name in ("parse_expression", "__call__"):
            return Builtin(name, lambda it, a, k: self.quantity(it, [a[0]], {}))
        if name == "parse_units":
            return Builtin(name, lambda it, a, k: UnitV(self.reg, a[0]))
        if name == "load_definitions":
            return Builtin(name, lambda it, a, k: self.reg.load(a[0]))
        raise Unsupported(f"unit registry attribute {name}")

    def abs_call(self, it, a, k):
        return self.quantity(it, a, k)


class UnitsModuleV:
    """pyomo.environ.units"""

    def __init__(self, reg):
        self.reg = reg
        self.rv = RegistryV(reg)

    def term(self):
        return T("ext", "pyomo.environ.units")

    def abs_getattr(self, it, name):
        if name == "load_definitions_from_file":
            def load(it, a, k):
                p = a[0] if a else k["definition_file"]
                if not isinstance(p, str):
                    raise Unsupported("definitions file")
                if not os.path.exists(p):
                    raise PyExc(FileNotFoundError, (p,))
                self.reg.load(p)
            return Builtin(name, load)
        if name == "pint_registry":
            return self.rv
        if name.startswith("__"):
            raise PyExc(AttributeError, (name,))
        return PyomoUnitV(self.reg, name)


def install(it: Interp):
    reg = Registry()
    um = UnitsModuleV(reg)
    it.models["pyomo.environ.units"] = um
    return reg
