"""Models of the Python builtins and the library functions the repository uses."""
import ast
import json as _json
import math
import os
import re as _re
from fractions import Fraction

from . import terms as tm
from .terms import T, Term


def _i():
    from . import interp
    return interp


def install(it):
    I = _i()
    B = I.Builtin
    b = {}

    def reg(name):
        def deco(fn):
            b[name] = B(name, fn)
            return fn
        return deco

    for c in ("True", "False", "None"):
        pass

    @reg("len")
    def _len(it, a, k):
        x = a[0]
        if isinstance(x, (list, tuple, dict, str)):
            if isinstance(x, list) and any(isinstance(y, tuple) and y and y[0] == "__each__" for y in x):
                return T("fn", "len", I.freeze(x))
            return len(x)
        if isinstance(x, (I.SetV, I.VecV)):
            return len(x)
        if isinstance(x, I.RangeV):
            if isinstance(x.lo, int) and isinstance(x.hi, int):
                return len(range(x.lo, x.hi, x.step))
            return it.binop(ast.Sub, x.hi, x.lo)
        if isinstance(x, I.SymSeq):
            return it.binop(ast.Sub, x.hi, x.lo)
        h = getattr(x, "abs_len", None)
        if h is not None:
            return h(it)
        if isinstance(x, I.InstV):
            f, _ = x.cls.find("__len__")
            if f is not None:
                return it.call(I.BoundV(f, x), [], {})
        if isinstance(x, Term):
            return T("fn", "len", x)
        if x is None or isinstance(x, (int, float)):
            raise I.PyExc(TypeError, ("object has no len()",))
        raise I.Unsupported(f"len of {type(x).__name__}")

    @reg("range")
    def _range(it, a, k):
        a = [it.scalar(x) for x in a]
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        lo, hi = (_toint(x) for x in (lo, hi))
        for x in (lo, hi, st):
            if isinstance(x, float):
                raise I.PyExc(TypeError, ("'float' object cannot be interpreted as an integer",))
        return I.RangeV(lo, hi, st)

    def _toint(x):
        if isinstance(x, Term):
            try:
                p = tm.norm(x)
            except tm.Unnormalisable:
                return x
            if not p:
                return 0
            if set(p) == {tm.ONE_M} and p[tm.ONE_M].denominator == 1:
                return int(p[tm.ONE_M])
        return x

    it.toint = _toint

    @reg("sum")
    def _sum(it, a, k):
        start = a[1] if len(a) > 1 else k.get("start", 0)
        x = a[0]
        if isinstance(x, I.RangeV) and not (isinstance(x.lo, int) and isinstance(x.hi, int)):
            kk = T("sym", "bound", "ks")
            return it.binop(ast.Add, start, T("symsum", kk, I.freeze(x.lo), I.freeze(x.hi), kk))
        if isinstance(x, I.SymSeq):
            return it.binop(ast.Add, start, T("symsum", x.k, I.freeze(x.lo), I.freeze(x.hi), I.freeze(x.elem)))
        if isinstance(x, Term):
            return T("fn", "sum", x, I.freeze(start))
        out = start
        for y in it.iterate(x):
            out = it.binop(ast.Add, out, y)
        return out

    def minmax(name):
        def f(it, a, k):
            items = a if len(a) > 1 else it.iterate(a[0])
            items = list(items)
            key = k.get("key")
            if not items:
                if "default" in k:
                    return k["default"]
                raise I.PyExc(ValueError, (f"{name}() arg is an empty sequence",))
            if key is not None:
                raise I.Unsupported(f"{name} with key")
            raw = list(items)
            items = [it.scalar(x) for x in items]
            if all(isinstance(x, (int, float, Fraction)) for x in items):
                r = (min if name == "min" else max)(items)
                return r
            if len(items) == 1:
                return raw[0]
            return T("fn", name, *[I.freeze(x) for x in items])
        return f

    b["min"] = B("min", minmax("min"))
    b["max"] = B("max", minmax("max"))

    @reg("abs")
    def _abs(it, a, k):
        x = it.scalar(a[0])
        if isinstance(x, (int, float, Fraction)):
            return abs(x)
        return T("fn", "abs", I.freeze(x))

    def conv(name, py):
        def f(it, a, k):
            if not a:
                return py()
            x = it.scalar(a[0])
            if isinstance(x, bool) or isinstance(x, (int, float, str, Fraction)):
                try:
                    return py(x)
                except ValueError as e:
                    raise I.PyExc(ValueError, (str(e),))
                except OverflowError as e:
                    raise I.PyExc(OverflowError, (str(e),))
            if x is None or isinstance(x, (list, dict, tuple)):
                raise I.PyExc(TypeError, (f"{name}() argument must be a string or a real number",))
            if isinstance(x, Term):
                d = it.domain_of(x)
                if name == "float":
                    if (x.op in ("add", "sub", "mul", "div", "pow", "neg", "par", "interp") or (d is not None and d.kind == "num") or (x.op == "fn" and x.args[0] not in ("repr",))) :
                        return x
                if name == "int" and d is not None and d.kind == "num" and d.integer:
                    return x
                h = it.hooks.get("conv")
                if h is not None:
                    r = h(it, name, x)
                    if r is not NotImplemented:
                        return r
                if x.op == "fn" and x.args[0] in ("ceil", "floor", "int") and name == "int":
                    return x
                return T("fn", name, x)
            if isinstance(x, I.VecV):
                if len(x) == 1:
                    return x.items[0]
                raise I.PyExc(TypeError, ("only length-1 arrays can be converted",))
            raise I.Unsupported(f"{name}() of {type(x).__name__}")
        return f

    b["float"] = B("float", conv("float", float))
    b["int"] = B("int", conv("int", int))

    @reg("str")
    def _str(it, a, k):
        if not a:
            return ""
        x = it.scalar(a[0])
        h = it.hooks.get("conv")
        if h is not None and isinstance(x, Term):
            r = h(it, "str", x)
            if r is not NotImplemented:
                return r
        return it.to_str(x)

    @reg("repr")
    def _repr(it, a, k):
        x = a[0]
        if isinstance(x, (int, float, str, bool, type(None))):
            return repr(x)
        return T("fn", "repr", I.freeze(x))

    @reg("bool")
    def _bool(it, a, k):
        return it.truth(a[0]) if a else False

    def _list(it, a, k):
        if not a:
            return []
        x = a[0]
        sr = it.symbolic_range(x)
        if sr is not None:
            lo, hi, wrap = sr
            kk = T("sym", "bound", f"k{it.binder_depth}")
            return I.SymSeq(kk, lo, hi, wrap(kk))
        if isinstance(x, Term):
            h = it.hooks.get("iter_term")
            r = h(it, x) if h else None
            if r is not None:
                return list(r)
            return T("fn", "list", x)
        return list(it.iterate(x))

    b["list"] = B("list", _list)

    @reg("tuple")
    def _tuple(it, a, k):
        if not a:
            return ()
        x = _list(it, a, k)
        return tuple(x) if isinstance(x, list) else x

    @reg("dict")
    def _dict(it, a, k):
        d = {}
        if a:
            x = a[0]
            if isinstance(x, dict):
                d.update(x)
            elif isinstance(x, Term):
                return T("fn", "dict", x)
            else:
                for p in it.iterate(x):
                    kk, v = it.iterate(p)
                    d[I.hkey(kk)] = v
        d.update(k)
        return d

    @reg("set")
    def _set(it, a, k):
        if a and isinstance(a[0], Term):
            return T("fn", "set", a[0])
        return I.SetV(it.iterate(a[0]) if a else ())

    b["frozenset"] = b["set"]

    @reg("sorted")
    def _sorted(it, a, k):
        x = a[0]
        if isinstance(x, Term):
            return T("fn", "sorted", x)
        items = it.iterate(x)
        key = k.get("key")
        ks = [it.call(key, [y], {}) if key is not None else y for y in items]
        if any(isinstance(y, Term) or not isinstance(y, (int, float, str, tuple)) for y in ks):
            return T("fn", "sorted", I.freeze(list(items)))
        order = sorted(range(len(items)), key=lambda i: ks[i], reverse=bool(k.get("reverse", False)))
        return [items[i] for i in order]

    @reg("reversed")
    def _reversed(it, a, k):
        return list(reversed(it.iterate(a[0])))

    @reg("enumerate")
    def _enum(it, a, k):
        st = a[1] if len(a) > 1 else k.get("start", 0)
        return [(i + st, x) for i, x in enumerate(it.iterate(a[0]))]

    @reg("zip")
    def _zip(it, a, k):
        if any(isinstance(x, Term) for x in a):
            return T("fn", "zip", *[I.freeze(x) for x in a])
        return [tuple(x) for x in zip(*[it.iterate(y) for y in a])]

    @reg("map")
    def _map(it, a, k):
        return [it.call(a[0], list(x), {}) for x in zip(*[it.iterate(y) for y in a[1:]])]

    @reg("filter")
    def _filter(it, a, k):
        return [x for x in it.iterate(a[1]) if it.truth(it.call(a[0], [x], {}) if a[0] is not None else x)]

    @reg("any")
    def _any(it, a, k):
        return any(it.truth(x) for x in it.iterate(a[0]))

    @reg("all")
    def _all(it, a, k):
        return all(it.truth(x) for x in it.iterate(a[0]))

    @reg("round")
    def _round(it, a, k):
        x = it.scalar(a[0])
        if isinstance(x, (int, float)) and all(isinstance(y, int) for y in a[1:]):
            return round(x, *a[1:])
        return T("fn", "round", *[I.freeze(y) for y in a])

    @reg("format")
    def _format(it, a, k):
        x, spec = it.scalar(a[0]), (a[1] if len(a) > 1 else "")
        if spec == "":
            return it.to_str(x)
        if isinstance(x, (int, float, str)) and isinstance(spec, str):
            return format(x, spec)
        return T("format", I.freeze(x), I.freeze(spec))

    @reg("ord")
    def _ord(it, a, k):
        if isinstance(a[0], str):
            return ord(a[0])
        raise I.Unsupported("ord")

    @reg("chr")
    def _chr(it, a, k):
        if isinstance(a[0], int):
            return chr(a[0])
        raise I.Unsupported("chr")

    @reg("pow")
    def _pow(it, a, k):
        return it.binop(ast.Pow, a[0], a[1])

    @reg("isinstance")
    def _isinstance(it, a, k):
        return isinstance_(it, a[0], a[1])

    @reg("issubclass")
    def _issub(it, a, k):
        c, t = a
        if isinstance(c, I.ClassV):
            ts = t if isinstance(t, tuple) else (t,)
            return any(x in c.mro() for x in ts)
        raise I.Unsupported("issubclass")

    @reg("hasattr")
    def _hasattr(it, a, k):
        try:
            it.getattr(a[0], a[1])
            return True
        except I.PyExc as e:
            if e.cls is AttributeError:
                return False
            raise

    @reg("getattr")
    def _getattr(it, a, k):
        if not isinstance(a[1], str):
            h = getattr(a[0], "abs_getattr_sym", None)
            if h is not None:
                return h(it, a[1])
            return T("fn", "getattr", I.freeze(a[0]), a[1])
        try:
            return it.getattr(a[0], a[1])
        except I.PyExc as e:
            if e.cls is AttributeError and len(a) > 2:
                return a[2]
            raise

    @reg("setattr")
    def _setattr(it, a, k):
        it.setattr(a[0], a[1], a[2])

    @reg("callable")
    def _callable(it, a, k):
        return isinstance(a[0], (I.FuncV, I.BoundV, I.Builtin, I.ClassV)) or (
            isinstance(a[0], I.InstV) and a[0].cls.find("__call__")[0] is not None)

    @reg("print")
    def _print(it, a, k):
        it.event("print", tuple(a))

    @reg("id")
    def _id(it, a, k):
        return T("fn", "id", I.freeze(a[0]))

    @reg("hash")
    def _hash(it, a, k):
        return T("fn", "hash", I.freeze(a[0]))

    @reg("iter")
    def _iter(it, a, k):
        return list(it.iterate(a[0]))

    @reg("next")
    def _next(it, a, k):
        x = a[0]
        if isinstance(x, Term):
            return T("fn", "next", *[I.freeze(y) for y in a])
        if isinstance(x, I.SymSeq):
            return it.getitem(x, 0)
        items = it.iterate(x)
        if items:
            return items[0]
        if len(a) > 1:
            return a[1]
        raise I.PyExc(StopIteration, ())

    @reg("type")
    def _type(it, a, k):
        x = a[0]
        if isinstance(x, I.InstV):
            return x.cls
        h = getattr(x, "abs_type", None)
        if h is not None:
            return TypeV(h(it))
        if isinstance(x, Term):
            if any(y.op == "var" for y in tm.subterms(x)):
                return TypeV("Expression")
            if it.numericish(x):
                return TypeV("float")
            return T("fn", "type", x)
        if isinstance(x, (int, float, str, bool, list, dict, tuple, type(None))):
            nm = type(x).__name__
            return b.get(nm, TypeV(nm))
        if isinstance(x, I.VecV):
            return TypeV("ndarray")
        if isinstance(x, I.Builtin) or isinstance(x, I.FuncV):
            return TypeV("function")
        raise I.Unsupported("type()")

    @reg("super")
    def _super(it, a, k):
        return I.SuperV(a[0], a[1])

    @reg("property")
    def _property(it, a, k):
        return I.Prop(a[0])

    @reg("staticmethod")
    def _static(it, a, k):
        return I.StaticM(a[0])

    @reg("classmethod")
    def _classm(it, a, k):
        return I.ClassM(a[0])

    @reg("open")
    def _open(it, a, k):
        mode = a[1] if len(a) > 1 else k.get("mode", "r")
        if isinstance(a[0], str) and mode in ("r", "rt", "rb") and in_root(it, a[0]):
            p = os.path.normpath(a[0])
            if not os.path.exists(p):
                raise I.PyExc(FileNotFoundError, (a[0],))
            return FileV(p)
        return it.call_lib(T("ext", "open"), a, k)

    @reg("vars")
    def _vars(it, a, k):
        return a[0].attrs

    @reg("divmod")
    def _divmod(it, a, k):
        return (it.binop(ast.FloorDiv, *a), it.binop(ast.Mod, *a))

    b["object"] = T("ext", "object")
    b["slice"] = B("slice", lambda it, a, k: slice(*a) if len(a) > 1 else slice(None, a[0]))
    b["Ellipsis"] = Ellipsis
    b["NotImplemented"] = T("ext", "NotImplemented")
    b["__name__"] = "__main__"
    b["bytes"] = T("ext", "bytes")
    b["complex"] = T("ext", "complex")
    it.builtins = b
    install_libs(it)


class TypeV:
    def __init__(self, name):
        self.name = name

    def abs_getattr(self, it, n):
        if n in ("__name__", "__qualname__"):
            return self.name
        import builtins
        it.no_attr(getattr(builtins, self.name, object), n, f"type {self.name!r} has no attribute {n!r}")

    def abs_eq(self, it, o):
        return isinstance(o, TypeV) and o.name == self.name or (isinstance(o, _i().Builtin) and o.name == self.name)


TYPE_TAGS = {
    "dict": {"dict"}, "list": {"list"}, "str": {"str"}, "float": {"num"}, "int": {"num", "bool"},
    "bool": {"bool"}, "tuple": {"tuple"},
}


def isinstance_(it, x, t):
    I = _i()
    if isinstance(t, tuple):
        return any(isinstance_(it, x, y) for y in t)
    if isinstance(t, I.ClassV):
        if isinstance(x, I.InstV):
            return t in x.cls.mro()
        if isinstance(x, I.PyExc):
            return it.exc_match(x, t)
        return False
    h = getattr(x, "abs_isinstance", None)
    if h is not None and isinstance(x, str):
        return bool(h(it, t)) or getattr(t, "name", None) == "Path"
    if isinstance(t, I.Builtin):
        nm = t.name
        if isinstance(x, I.InstV):
            return any(isinstance(c, I.Builtin) and c.name == nm for c in x.cls.mro())
        if isinstance(x, Term):
            d = it.domain_of(x)
            if d is not None and d.kind != "any":
                if d.kind == "num":
                    if d.optional and it.decide(("isfalse", x)):
                        return nm in ("bool", "int")
                    if nm == "int" and not d.integer:
                        return it.decide(("bool", T("fn", "isinstance", x, nm)))
                    if nm == "float" and d.integer:
                        return it.decide(("bool", T("fn", "isinstance", x, nm)))
                    return nm in ("int", "float")
                if d.kind == "bool":
                    return nm in ("bool", "int")
                if d.optional and it.decide(("isfalse", x)):
                    return nm in ("bool", "int")
                return nm == "str"
            if x.op == "fstr":
                return nm == "str"
            if x.op == "fn" and x.args[0] in ("float", "int"):
                return nm == x.args[0]
            if x.op in ("add", "sub", "mul", "div", "pow", "par"):
                return nm in ("float", "int")
            if nm in TYPE_TAGS:
                for tag in sorted(TYPE_TAGS[nm]):
                    if tag == "tuple":
                        continue
                    if it.decide(("type", x, tag)):
                        if nm in ("int", "float") and tag == "num":
                            # which of int / float is not distinguished
                            if it.decide(("bool", T("fn", "is_int", x))):
                                return nm == "int"
                            return nm == "float"
                        return True
                return False
            return it.decide(("bool", T("fn", "isinstance", x, nm)))
        if nm == "bool":
            return isinstance(x, bool)
        if nm == "int":
            return isinstance(x, int)
        if nm == "float":
            return isinstance(x, float)
        if nm == "str":
            return isinstance(x, str)
        if nm == "dict":
            return isinstance(x, dict)
        if nm == "list":
            return isinstance(x, list)
        if nm == "tuple":
            return isinstance(x, tuple)
        if nm in ("set", "frozenset"):
            return isinstance(x, I.SetV)
        raise I.Unsupported(f"isinstance against {nm}")
    if isinstance(t, type):
        if isinstance(x, I.PyExc):
            return isinstance(x.cls, type) and issubclass(x.cls, t)
        return False
    if isinstance(t, Term):
        h = getattr(x, "abs_isinstance", None)
        if h is not None:
            r = h(it, t)
            if r is not None:
                return r
        nm = t.args[0] if t.op == "ext" else None
        if nm and nm.startswith("numbers."):
            if isinstance(x, Term) and it.numericish(x):
                return True
            if isinstance(x, (int, float)):
                return True
            if not isinstance(x, Term):
                return False
        if nm == "object":
            return True
        if isinstance(x, Term):
            return it.decide(("bool", T("fn", "isinstance", x, t)))
        if isinstance(x, (list, dict, str, int, float, bool, type(None), I.InstV, tuple)):
            return False
        return False
    if isinstance(t, TypeV):
        return False
    raise I.Unsupported("isinstance")


# --------------------------------------------------------------------------
# methods of native containers
# --------------------------------------------------------------------------


def native_attr(it, obj, name):
    I = _i()
    B = I.Builtin
    if isinstance(obj, str) and type(obj) is not str:
        from .stdlib import PathStr, path_attr
        if isinstance(obj, PathStr):
            return path_attr(it, obj, name)

    def m(fn):
        return B(f"{type(obj).__name__}.{name}", fn)

    if name == "__class__":
        return TypeV(type(obj).__name__)

    if isinstance(obj, dict):
        if name == "keys":
            return m(lambda it, a, k: list(obj.keys()) if True else None)
        if name == "values":
            return m(lambda it, a, k: list(obj.values()))
        if name == "items":
            return m(lambda it, a, k: [(x, y) for x, y in obj.items()])
        if name == "get":
            def get(it, a, k):
                d = a[1] if len(a) > 1 else k.get("default")
                if getattr(obj, "factory", None) is not None and not it.contains(a[0], obj):
                    return d
                try:
                    return it.getitem(obj, a[0])
                except I.PyExc as e:
                    if e.cls is KeyError:
                        return d
                    raise
            return m(get)
        if name == "update":
            def update(it, a, k):
                src = {}
                if a:
                    if isinstance(a[0], dict):
                        src.update(a[0])
                    elif isinstance(a[0], (list, tuple)):
                        for kk, v in a[0]:
                            src[I.hkey(kk)] = v
                    elif isinstance(a[0], Term):
                        it.event("update", obj, a[0])
                        obj[("__update__", len(obj))] = a[0]
                        src = {}
                    elif isinstance(a[0], I.SymMap):
                        obj[("__update__", len(obj))] = a[0]
                    else:
                        raise I.Unsupported("dict.update of an unknown value")
                src.update(k)
                for kk, v in src.items():
                    it.setitem(obj, kk, v)
            return m(update)
        if name == "setdefault":
            def setdefault(it, a, k):
                kk = I.hkey(a[0])
                if not it.contains(a[0], obj):
                    it.setitem(obj, a[0], a[1] if len(a) > 1 else None)
                return it.getitem(obj, a[0])
            return m(setdefault)
        if name == "pop":
            def pop(it, a, k):
                kk = I.hkey(a[0])
                if kk in obj:
                    if isinstance(obj, I.Foreign):
                        it.event("foreign-write", obj, kk, None)
                    it.event("delitem", obj, kk)
                    return obj.pop(kk)
                if len(a) > 1:
                    return a[1]
                raise I.PyExc(KeyError, (a[0],))
            return m(pop)
        if name == "copy":
            return m(lambda it, a, k: dict(obj))
        if name == "clear":
            def clear(it, a, k):
                if isinstance(obj, I.Foreign):
                    it.event("foreign-write", obj, None, None)
                obj.clear()
            return m(clear)
        return NotImplemented
    if isinstance(obj, list):
        if name == "append":
            def append(it, a, k):
                obj.append(a[0])
                it.event("append", obj, a[0])
            return m(append)
        if name == "extend":
            def extend(it, a, k):
                if isinstance(a[0], (Term, I.SymSeq)):
                    obj.append(("__each__", a[0]))
                else:
                    obj.extend(it.iterate(a[0]))
            return m(extend)
        if name == "insert":
            return m(lambda it, a, k: obj.insert(a[0], a[1]))
        if name == "pop":
            def pop(it, a, k):
                try:
                    return obj.pop(*a)
                except IndexError as e:
                    raise I.PyExc(IndexError, (str(e),))
            return m(pop)
        if name == "copy":
            return m(lambda it, a, k: list(obj))
        if name == "index":
            def index(it, a, k):
                for i, x in enumerate(obj):
                    if x is a[0] or it.decide_eq(x, a[0]):
                        return i
                raise I.PyExc(ValueError, ("not in list",))
            return m(index)
        if name == "count":
            return m(lambda it, a, k: sum(1 for x in obj if it.decide_eq(x, a[0])))
        if name == "remove":
            def remove(it, a, k):
                for i, x in enumerate(obj):
                    if x is a[0] or it.decide_eq(x, a[0]):
                        del obj[i]
                        return
                raise I.PyExc(ValueError, ("not in list",))
            return m(remove)
        if name == "reverse":
            return m(lambda it, a, k: obj.reverse())
        if name == "sort":
            def sort(it, a, k):
                r = it.call(it.builtins["sorted"], [obj], k)
                if isinstance(r, Term):
                    raise I.Unsupported("in-place sort of symbolic values")
                obj[:] = r
            return m(sort)
        if name == "clear":
            return m(lambda it, a, k: obj.clear())
        return NotImplemented
    if isinstance(obj, tuple):
        if name == "index":
            return m(lambda it, a, k: obj.index(a[0]))
        return NotImplemented
    if isinstance(obj, str):
        if hasattr(str, name):
            return B("str." + name, lambda it, a, k: it.str_method(obj, name, a, k))
        return NotImplemented
    if isinstance(obj, I.SetV):
        if name == "add":
            def add(it, a, k):
                obj.d[I.hkey(a[0])] = a[0]
                it.event("set-add", obj, a[0])
            return m(add)
        if name in ("difference", "union", "intersection", "symmetric_difference"):
            op = {"difference": ast.Sub, "union": ast.BitOr, "intersection": ast.BitAnd, "symmetric_difference": ast.BitXor}[name]
            return m(lambda it, a, k: it.binop(op, obj, I.SetV(it.iterate(a[0]))))
        if name == "issubset":
            return m(lambda it, a, k: all(x in I.SetV(it.iterate(a[0])) for x in obj))
        if name == "issuperset":
            return m(lambda it, a, k: all(x in obj for x in it.iterate(a[0])))
        if name in ("discard", "remove"):
            return m(lambda it, a, k: obj.d.pop(I.hkey(a[0]), None))
        if name == "update":
            def upd(it, a, k):
                for x in it.iterate(a[0]):
                    obj.d[I.hkey(x)] = x
            return m(upd)
        if name == "copy":
            return m(lambda it, a, k: I.SetV(obj))
        return NotImplemented
    if isinstance(obj, I.VecV):
        if name == "sum":
            return m(lambda it, a, k: it.call(it.builtins["sum"], [list(obj.items)], {}))
        if name in ("min", "max"):
            return m(lambda it, a, k: it.call(it.builtins[name], [list(obj.items)], {}))
        if name in ("astype", "copy", "to_numpy", "flatten", "ravel"):
            return m(lambda it, a, k: I.VecV(obj.items))
        if name == "tolist":
            return m(lambda it, a, k: list(obj.items))
        if name == "size":
            return len(obj)
        if name == "shape":
            return (len(obj),)
        if name == "cumsum":
            def cs(it, a, k):
                out, acc = [], 0
                for x in obj.items:
                    acc = it.binop(ast.Add, acc, x)
                    out.append(acc)
                return I.VecV(out)
            return m(cs)
        return NotImplemented
    if isinstance(obj, I.RangeV):
        if name == "start":
            return obj.lo
        if name == "stop":
            return obj.hi
        return NotImplemented
    if isinstance(obj, I.SymMap):
        if name == "items":
            return m(lambda it, a, k: T("items", obj.term()))
        return NotImplemented
    if isinstance(obj, (int, float)):
        if name == "is_integer":
            return m(lambda it, a, k: float(obj).is_integer())
        if name in ("real",):
            return obj
        if name == "item":
            return m(lambda it, a, k: obj)
        return NotImplemented
    if isinstance(obj, I.Builtin):
        if name == "__name__":
            return obj.name.split(".")[-1]
        if obj.name == "dict" and name == "fromkeys":
            return B("fromkeys", lambda it, a, k: {I.hkey(x): (a[1] if len(a) > 1 else None) for x in it.iterate(a[0])})
        if obj.name == "str" and hasattr(str, name):
            return B("str." + name, lambda it, a, k: it.str_method(a[0], name, a[1:], k))
        return NotImplemented
    if isinstance(obj, I.Prop):
        if name == "setter":
            return B("setter", lambda it, a, k: obj)
        return NotImplemented
    return NotImplemented


# --------------------------------------------------------------------------
# libraries
# --------------------------------------------------------------------------


def install_libs(it):
    I = _i()
    B = I.Builtin
    M = it.models

    def fn1(name, py):
        def f(it, a, k):
            x = a[0]
            x = it.scalar(x)
            if isinstance(x, I.VecV):
                return I.VecV([f(it, [y], {}) for y in x.items])
            if isinstance(x, (list, tuple)):
                return I.VecV([f(it, [y], {}) for y in x])
            if isinstance(x, I.SymSeq):
                return I.SymSeq(x.k, x.lo, x.hi, f(it, [x.elem], {}))
            if isinstance(x, (int, float)) and not isinstance(x, bool):
                if name == "exp" and x != 0:
                    return T("fn", "exp", x)
                if name in ("log", "log2", "log10", "sqrt") and x > 0 and x != 1:
                    if name == "sqrt":
                        r = py(x)
                        if r * r == x and float(r).is_integer():
                            return r
                    return T("fn", name, x)
                try:
                    return py(x)
                except ValueError as e:
                    raise I.PyExc(ValueError, (str(e),))
            return T("fn", name, I.freeze(x))
        return B(name, f)

    FN = {"exp": math.exp, "log": math.log, "log2": math.log2, "log10": math.log10, "sqrt": math.sqrt,
          "sin": math.sin, "cos": math.cos, "tan": math.tan, "tanh": math.tanh, "sinh": math.sinh, "cosh": math.cosh}
    for n, py in FN.items():
        for lib in ("numpy", "math", "pyomo.environ"):
            M[f"{lib}.{n}"] = fn1(n, py)
    for lib, n in (("numpy", "arctan"), ("math", "atan"), ("pyomo.environ", "atan")):
        M[f"{lib}.{n}"] = fn1("atan", math.atan)

    def rnd(name, py):
        def f(it, a, k):
            x = it.scalar(a[0])
            if isinstance(x, (int, float)):
                return py(x)
            return T("fn", name, I.freeze(x))
        return B(name, f)

    for n, py in (("ceil", math.ceil), ("floor", math.floor)):
        M[f"numpy.{n}"] = rnd(n, lambda x, py=py: float(py(x)))
        M[f"math.{n}"] = rnd(n, py)
    M["numpy.pi"] = math.pi
    M["math.pi"] = math.pi
    M["numpy.e"] = math.e
    M["math.e"] = math.e
    M["numpy.inf"] = math.inf
    M["math.inf"] = math.inf
    M["numpy.nan"] = T("sym", "num", "nan")
    M["math.nan"] = T("sym", "num", "nan")
    M["numpy.abs"] = M["numpy.absolute"] = M["numpy.fabs"] = it.builtins["abs"]

    def isnan(it, a, k):
        x = a[0]
        if isinstance(x, (int, float)):
            return x != x
        return T("fn", "isnan", I.freeze(x))
    M["math.isnan"] = M["numpy.isnan"] = B("isnan", isnan)

    def isfinite(it, a, k):
        x = a[0]
        if isinstance(x, (int, float)):
            return math.isfinite(x)
        return T("fn", "isfinite", I.freeze(x))
    M["math.isfinite"] = M["numpy.isfinite"] = B("isfinite", isfinite)

    def array(it, a, k):
        x = a[0]
        if isinstance(x, I.VecV):
            return I.VecV(x.items)
        if isinstance(x, (int, float)) or (isinstance(x, Term) and it.numericish(x)):
            return x
        sr = it.symbolic_range(x)
        if sr is not None:
            lo, hi, wrap = sr
            kk = T("sym", "bound", f"k{it.binder_depth}")
            return I.SymSeq(kk, lo, hi, wrap(kk))
        h = getattr(x, "abs_array", None)
        if h is not None:
            return h(it)
        if isinstance(x, Term):
            return T("fn", "array", x)
        items = it.iterate(x)
        return I.VecV([it.scalar(y) for y in items])
    M["numpy.array"] = M["numpy.asarray"] = B("array", array)

    def arange(it, a, k):
        a = [it.scalar(x) for x in a]
        if all(isinstance(x, (int, float)) for x in a):
            lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
            n = max(0, math.ceil((hi - lo) / st))
            if n <= 2000:
                return I.VecV([lo + i * st for i in range(n)])
        return T("fn", "arange", *([0] if len(a) == 1 else []), *[I.freeze(x) for x in a])
    M["numpy.arange"] = B("arange", arange)

    def trapz(it, a, k):
        y = a[0]
        x = a[1] if len(a) > 1 else k.get("x")
        dx = a[2] if len(a) > 2 else k.get("dx", 1.0)
        if isinstance(y, (list, tuple)):
            y = array(it, [y], {})
        if isinstance(x, (list, tuple)):
            x = array(it, [x], {})
        if isinstance(y, I.VecV) and (x is None or isinstance(x, I.VecV)):
            out = 0
            for i in range(len(y) - 1):
                w = dx if x is None else it.binop(ast.Sub, x.items[i + 1], x.items[i])
                s = it.binop(ast.Add, y.items[i], y.items[i + 1])
                out = it.binop(ast.Add, out, it.binop(ast.Div, it.binop(ast.Mult, w, s), 2))
            return out
        return T("fn", "trapz", I.freeze(y), I.freeze(x), I.freeze(dx))
    M["numpy.trapz"] = M["numpy.trapezoid"] = B("trapz", trapz)

    def concatenate(it, a, k):
        parts = a[0]
        if isinstance(parts, (list, tuple)):
            out = []
            for p in parts:
                if isinstance(p, Term) or isinstance(p, (I.SymSeq,)):
                    return T("fn", "concatenate", *[I.freeze(list(q.items) if isinstance(q, I.VecV) else q) for q in parts])
                out.extend(it.iterate(p))
            return I.VecV(out)
        return T("fn", "concatenate", I.freeze(parts))
    M["numpy.concatenate"] = B("concatenate", concatenate)

    def ew(name):
        def f(it, a, k):
            x, y = it.scalar(a[0]), it.scalar(a[1])
            if isinstance(x, (I.VecV, list)) or isinstance(y, (I.VecV, list)):
                x = I.VecV(x) if isinstance(x, list) else x
                y = I.VecV(y) if isinstance(y, list) else y
                return it.vec_map(lambda p, q: f(it, [p, q], {}), x, y)
            return it.call(it.builtins[name], [x, y], {})
        return B(name, f)
    M["numpy.maximum"] = ew("max")
    M["numpy.minimum"] = ew("min")
    M["numpy.sum"] = B("npsum", lambda it, a, k: it.call(it.builtins["sum"], [a[0]], {}))
    M["numpy.prod"] = B("npprod", lambda it, a, k: _prod(it, a[0]))
    M["math.prod"] = M["numpy.prod"]
    M["math.fsum"] = it.builtins["sum"]

    def _prod(it, xs):
        out = 1
        for y in it.iterate(xs):
            out = it.binop(ast.Mult, out, y)
        return out

    M["numpy.log1p"] = B("log1p", lambda it, a, k: M["numpy.log"].fn(it, [it.binop(ast.Add, 1, a[0])], {}))
    M["numpy.power"] = B("power", lambda it, a, k: it.binop(ast.Pow, a[0], a[1]))
    M["numpy.cumsum"] = B("cumsum", lambda it, a, k: native_attr(it, array(it, [a[0]], {}), "cumsum").fn(it, [], {}))
    M["math.pow"] = M["numpy.power"]

    def items_of(it, x):
        return it.iterate(array(it, [x], {}) if isinstance(x, (list, tuple)) else x)

    def symbolic(*xs):
        return any(isinstance(x, (Term, I.SymSeq)) and not _isnum(x) for x in xs)

    def _isnum(x):
        return isinstance(x, Term) and x.op in ("par", "sym", "var", "add", "sub", "mul", "div", "neg", "pow")

    def nplist(name):
        def wrap(f):
            def g(it, a, k):
                if symbolic(*a):
                    return T("fn", name, *[I.freeze(x) for x in a])
                return f(it, a, k)
            M["numpy." + name] = B(name, g)
            return f
        return wrap

    @nplist("append")
    def append(it, a, k):
        more = items_of(it, a[1]) if isinstance(a[1], (I.VecV, list, tuple)) else [a[1]]
        return I.VecV(list(items_of(it, a[0])) + list(more))

    @nplist("hstack")
    def hstack(it, a, k):
        out = []
        for p in it.iterate(a[0]):
            if isinstance(p, Term) and not _isnum(p):
                raise I.Unsupported("hstack of an opaque value")
            out += list(items_of(it, p)) if isinstance(p, (I.VecV, list, tuple)) else [p]
        return I.VecV(out)

    @nplist("linspace")
    def linspace(it, a, k):
        lo, hi = a[0], a[1]
        n = a[2] if len(a) > 2 else k.get("num", 50)
        if not all(isinstance(x, (int, float)) for x in (lo, hi, n)) or n > 2000:
            return T("fn", "linspace", I.freeze(lo), I.freeze(hi), I.freeze(n))
        ep = k.get("endpoint", a[3] if len(a) > 3 else True)
        d = (n - 1 if ep else n) or 1
        return I.VecV([float(lo + (hi - lo) * i / d) for i in range(n)])

    for nm, val in (("zeros", 0.0), ("ones", 1.0)):
        def mk(it, a, k, nm=nm, val=val):
            n = a[0]
            return I.VecV([val] * n) if isinstance(n, int) else T("fn", nm, I.freeze(n))
        M["numpy." + nm] = B(nm, mk)
    for nm, val in (("zeros_like", 0.0), ("ones_like", 1.0)):
        M["numpy." + nm] = B(nm, lambda it, a, k, nm=nm, val=val: I.VecV([val] * len(it.iterate(a[0]))) if not symbolic(a[0]) else T("fn", nm, a[0]))
    M["numpy.full"] = B("full", lambda it, a, k: I.VecV([a[1]] * a[0]) if isinstance(a[0], int) else T("fn", "full", I.freeze(a[0]), I.freeze(a[1])))

    @nplist("diff")
    def diff(it, a, k):
        xs = list(items_of(it, a[0]))
        return I.VecV([it.binop(ast.Sub, y, x) for x, y in zip(xs, xs[1:])])

    @nplist("mean")
    def mean(it, a, k):
        xs = list(items_of(it, a[0]))
        return it.binop(ast.Div, it.call(it.builtins["sum"], [xs], {}), len(xs))

    def where(it, a, k):
        c = a[0]
        if len(a) != 3:
            raise I.Unsupported("numpy.where with one argument")
        pick = lambda c, x, y: x if it.truth(c) else y
        if isinstance(c, I.VecV):
            n = len(c.items)
            at = lambda x, i: x.items[i] if isinstance(x, I.VecV) else x
            return I.VecV([pick(c.items[i], at(a[1], i), at(a[2], i)) for i in range(n)])
        return pick(c, a[1], a[2])
    M["numpy.where"] = B("where", where)

    def clip(it, a, k):
        lo = a[1] if len(a) > 1 else k.get("a_min", k.get("min"))
        hi = a[2] if len(a) > 2 else k.get("a_max", k.get("max"))
        x = a[0]
        if lo is not None:
            x = M["numpy.maximum"].fn(it, [x, lo], {})
        if hi is not None:
            x = M["numpy.minimum"].fn(it, [x, hi], {})
        return x
    M["numpy.clip"] = B("clip", clip)
    for nm, op in (("add", ast.Add), ("multiply", ast.Mult), ("subtract", ast.Sub), ("divide", ast.Div), ("true_divide", ast.Div)):
        M["numpy." + nm] = B(nm, lambda it, a, k, op=op: it.binop(op, array(it, [a[0]], {}) if isinstance(a[0], list) else a[0], a[1]))
    M["numpy.square"] = B("square", lambda it, a, k: it.binop(ast.Pow, a[0], 2))

    class Logical:
        def __init__(self, name):
            self.name = name

        def one(self, it, x, y):
            if self.name == "logical_and":
                return it.truth(x) and it.truth(y)
            return it.truth(x) or it.truth(y)

        def both(self, it, x, y):
            if isinstance(x, I.VecV) or isinstance(y, I.VecV):
                return it.vec_map(lambda p, q: self.one(it, p, q), x, y)
            return self.one(it, x, y)

        def abs_call(self, it, a, k):
            return self.both(it, a[0], a[1])

        def abs_getattr(self, it, name):
            if name != "reduce":
                raise I.Unsupported(f"numpy.{self.name}.{name}")

            def red(it, a, k):
                xs = list(it.iterate(a[0]))
                out = xs[0]
                for x in xs[1:]:
                    out = self.both(it, out, x)
                return out
            return B("reduce", red)
    M["numpy.logical_and"], M["numpy.logical_or"] = Logical("logical_and"), Logical("logical_or")

    def logical_not(it, a, k):
        return I.VecV([not it.truth(x) for x in a[0].items]) if isinstance(a[0], I.VecV) else not it.truth(a[0])
    M["numpy.logical_not"] = B("logical_not", logical_not)
    for nm, f in (("any", any), ("all", all)):
        M["numpy." + nm] = B("np" + nm, lambda it, a, k, f=f, nm=nm: f([it.truth(x) for x in it.iterate(a[0])]) if isinstance(a[0], (I.VecV, list, tuple))
                             else it.truth(a[0]))

    # operator / functools / itertools / copy -------------------------------
    for nm, op in (("add", ast.Add), ("mul", ast.Mult), ("sub", ast.Sub), ("truediv", ast.Div), ("pow", ast.Pow)):
        M[f"operator.{nm}"] = B(nm, lambda it, a, k, op=op: it.binop(op, a[0], a[1]))
    for nm, op in (("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">="), ("eq", "=="), ("ne", "!=")):
        M[f"operator.{nm}"] = B(nm, lambda it, a, k, op=op: it.compare(op, a[0], a[1]))

    def reduce(it, a, k):
        items = list(it.iterate(a[1]))
        acc = a[2] if len(a) > 2 else items.pop(0)
        for x in items:
            acc = it.call(a[0], [acc, x], {})
        return acc
    M["functools.reduce"] = B("reduce", reduce)

    def partial(it, a, k):
        f, pre = a[0], list(a[1:])
        return B("partial", lambda it, a2, k2: it.call(f, pre + list(a2), {**k, **k2}))
    M["functools.partial"] = B("partial", partial)
    M["functools.wraps"] = B("wraps", lambda it, a, k: B("wraps1", lambda it, a2, k2: a2[0]))
    M["functools.lru_cache"] = B("lru_cache", lambda it, a, k: _lru(it, a, k))
    M["functools.cache"] = B("cache", lambda it, a, k: _lru(it, a, k))

    def memo(f):
        if isinstance(f, I.FuncV):
            f.attrs["__memo__"] = {}
            f.attrs["cache_clear"] = B("cache_clear", lambda it, a, k: f.attrs["__memo__"].clear())
        return f

    def _lru(it, a, k):
        if a and isinstance(a[0], I.FuncV):
            it.event("memoised", a[0])
            return memo(a[0])
        def deco(it, a2, k2):
            it.event("memoised", a2[0])
            return memo(a2[0])
        return B("lru1", deco)

    def product(it, a, k):
        out = [()]
        for x in a:
            out = [o + (y,) for o in out for y in it.iterate(x)]
        return out
    M["itertools.product"] = B("product", product)
    M["itertools.chain"] = ChainV()
    M["itertools.repeat"] = B("repeat", lambda it, a, k: [a[0]] * a[1])
    M["itertools.count"] = T("ext", "itertools.count")

    def accumulate(it, a, k):
        out, acc = [], None
        for i, x in enumerate(it.iterate(a[0])):
            acc = x if i == 0 else it.binop(ast.Add, acc, x)
            out.append(acc)
        return out
    M["itertools.accumulate"] = B("accumulate", accumulate)

    def deepcopy(it, a, k):
        return deepcopy_(I, a[0], {})
    M["copy.deepcopy"] = B("deepcopy", deepcopy)

    def copy(it, a, k):
        x = a[0]
        if isinstance(x, dict):
            return dict(x)
        if isinstance(x, list):
            return list(x)
        if isinstance(x, I.InstV):
            y = I.InstV(x.cls)
            y.attrs = dict(x.attrs)
            return y
        return x
    M["copy.copy"] = B("copy", copy)

    # collections / dataclasses / abc / typing -----------------------------
    def namedtuple(it, a, k):
        nm, fields = a[0], a[1]
        if isinstance(fields, str):
            fields = fields.replace(",", " ").split()
        c = I.ClassV(nm, [], {}, _FakeMod, None)
        c.dataclass_fields = [(f, I._MISSING) for f in fields]
        c.own_fields = c.dataclass_fields
        c.ns["_fields"] = tuple(fields)
        c.ns["__iter__"] = None
        it_fields = list(fields)

        def iterf(it, a2, k2):
            return [a2[0].attrs[f] for f in it_fields]
        c.ns["__iter__"] = I.Builtin("__iter__", iterf)
        return c
    M["collections.namedtuple"] = B("namedtuple", namedtuple)
    M["collections.OrderedDict"] = it.builtins["dict"]
    M["collections.defaultdict"] = B("defaultdict", lambda it, a, k: DefaultD(a[0] if a else None, {**(a[1] if len(a) > 1 else {}), **k}))

    def dataclass(it, a, k):
        def deco(it, a2, k2):
            c = a2[0]
            c.dataclass_fields = c.own_fields
            return c
        if a:
            return deco(it, a, {})
        return B("dataclass1", deco)
    M["dataclasses.dataclass"] = B("dataclass", dataclass)
    M["dataclasses.field"] = B("field", lambda it, a, k: k.get("default", I._MISSING) if "default_factory" not in k else _factory(k["default_factory"]))

    def abstract(it, a, k):
        f = a[0]
        if isinstance(f, I.FuncV):
            f.attrs["__abstract__"] = True
        return f
    M["abc.abstractmethod"] = B("abstractmethod", abstract)
    M["abc.abstractproperty"] = B("abstractproperty", lambda it, a, k: I.Prop(abstract(it, a, k)))
    for n in ("Sequence", "Tuple", "Dict", "List", "Iterable", "Optional", "Union", "Callable", "Any"):
        M[f"typing.{n}"] = TypingV(n)
    M["typing.cast"] = B("cast", lambda it, a, k: a[1])
    M["typing.overload"] = B("overload", lambda it, a, k: a[0])

    # re ---------------------------------------------------------------------
    def re_fn(name):
        def f(it, a, k):
            a = [x.p if isinstance(x, PatternV) else x for x in a[:1]] + list(a[1:])
            if all(isinstance(x, (str, int, _re.Pattern)) for x in a):
                try:
                    r = getattr(_re, name)(*a, **k)
                except _re.error as e:
                    raise I.PyExc(ValueError, (str(e),))
                if r is None or isinstance(r, (str, list)):
                    return r
                return MatchV(r)
            if isinstance(a[1] if name != "sub" else a[1], (I.FuncV, I.BoundV)) and isinstance(a[0], str) and isinstance(a[2], str):
                parts, pos = [], 0
                for mt in _re.finditer(a[0], a[2]):
                    parts.append(a[2][pos:mt.start()])
                    parts.append(it.call(a[1], [MatchV(mt)], {}))
                    pos = mt.end()
                parts.append(a[2][pos:])
                return it.fstring(parts)
            h = it.hooks.get("regex")
            if h is not None:
                r = h(it, name, a, k)
                if r is not NotImplemented:
                    return r
            t = T("call", T("ext", f"re.{name}"), tuple(I.freeze(x) for x in a), ())
            return t
        return B(f"re.{name}", f)
    for n in ("findall", "sub", "match", "search", "fullmatch", "split"):
        M[f"re.{n}"] = re_fn(n)

    def compile_(it, a, k):
        if isinstance(a[0], PatternV):
            return a[0]
        flags = a[1] if len(a) > 1 else k.get("flags", 0)
        if flags:
            return PatternV(_re.compile(a[0], flags))
        return PatternV(a[0])
    M["re.finditer"] = B("re.finditer", lambda it, a, k: [MatchV(x) for x in _re.finditer(a[0].p if isinstance(a[0], PatternV) else a[0], a[1])] if isinstance(a[1], str) else T("call", T("ext", "re.finditer"), (a[0], I.freeze(a[1])), ()))
    M["re.compile"] = B("re.compile", compile_)
    M["re.escape"] = B("re.escape", lambda it, a, k: _re.escape(a[0]) if isinstance(a[0], str) else T("fn", "re.escape", a[0]))
    for n in ("IGNORECASE", "DOTALL", "MULTILINE"):
        M[f"re.{n}"] = int(getattr(_re, n))

    # os.path ----------------------------------------------------------------
    def osjoin(it, a, k):
        if all(isinstance(x, str) for x in a):
            return os.path.join(*a)
        out = []
        for i, x in enumerate(a):
            if i:
                out.append("/")
            out.append(x if isinstance(x, str) else it.to_str(x))
        return it.fstring(out)
    M["os.path.join"] = B("join", osjoin)

    def pathfn(name):
        def f(it, a, k):
            if isinstance(a[0], str):
                return getattr(os.path, name)(a[0])
            return T("call", T("ext", f"os.path.{name}"), (I.freeze(a[0]),), ())
        return B(name, f)
    for n in ("dirname", "basename", "normpath", "abspath", "splitext"):
        M[f"os.path.{n}"] = pathfn(n)

    def known(name):
        def f(it, a, k):
            p = a[0]
            if isinstance(p, str) and os.path.isabs(p):
                if it.hooks.get("has_path", lambda p: False)(p):
                    return name != "isdir"
                if os.path.normpath(p).startswith(str(it.root).rstrip("/") + "/"):
                    return getattr(os.path, name)(p)
            return it.decide(("bool", T("call", T("ext", f"os.path.{name}"), (I.freeze(p),), ())))
        return B(name, f)
    for n in ("exists", "isfile", "isdir"):
        M[f"os.path.{n}"] = known(n)

    def safe_load(it, a, k):
        import yaml
        x = a[0]
        if isinstance(x, FileV):
            it.event("read", x.path)
            with open(x.path, encoding="utf8") as fh:
                return yaml.safe_load(fh)
        if isinstance(x, str):
            return yaml.safe_load(x)
        return it.call_lib(T("ext", "yaml.safe_load"), a, k)
    M["yaml.safe_load"] = B("safe_load", safe_load)

    # logging ------------------------------------------------------------------
    M["logging.getLogger"] = B("getLogger", lambda it, a, k: LoggerV())
    M["warnings.warn"] = B("warn", lambda it, a, k: it.event("warn", tuple(a)))
    M["time.time"] = B("time", lambda it, a, k: T("sym", "num", "clock"))
    from . import stdlib
    stdlib.install(it)


class LoggerV:
    def abs_getattr(self, it, name):
        return _i().Builtin("log." + name, lambda it, a, k: it.event("log", name, tuple(a)))

    def truth(self, it):
        return True


class ChainV:
    def abs_call(self, it, a, k):
        return [y for x in a for y in it.iterate(x)]

    def abs_getattr(self, it, name):
        return _i().Builtin("from_iterable", lambda it, a, k: [y for x in it.iterate(a[0]) for y in it.iterate(x)])


class TypingV:
    def __init__(self, n):
        self.n = n

    def abs_getitem(self, it, k):
        return self


def _factory(f):
    from .stdlib import FactoryV
    return FactoryV(f)


class DefaultD(dict):
    def __init__(self, factory, *a):
        super().__init__(*a)
        self.factory = factory


class MatchV:
    def __init__(self, m):
        self.m = m

    def truth(self, it):
        return True

    def abs_getattr(self, it, name):
        m = self.m
        if name in ("group", "groups", "start", "end", "span"):
            return _i().Builtin(name, lambda it, a, k: getattr(m, name)(*a))
        it.no_attr(type(m), name, f"a match has no attribute {name!r}")


class PatternV:
    def __init__(self, p):
        self.p = p

    def abs_getattr(self, it, name):
        return _i().Builtin(name, lambda it, a, k: it.call(it.models["re." + name], [self.p] + list(a), k))


class _FakeMod:
    name = "collections"
    relpath = "<namedtuple>"


def deepcopy_(I, x, memo):
    if id(x) in memo:
        return memo[id(x)]
    if isinstance(x, dict):
        d = {}
        memo[id(x)] = d
        for k, v in x.items():
            d[k] = deepcopy_(I, v, memo)
        return d
    if isinstance(x, list):
        l = []
        memo[id(x)] = l
        l.extend(deepcopy_(I, v, memo) for v in x)
        return l
    if isinstance(x, tuple):
        return tuple(deepcopy_(I, v, memo) for v in x)
    if isinstance(x, I.VecV):
        return I.VecV(list(x.items))
    if isinstance(x, I.SetV):
        return I.SetV(list(x))
    if isinstance(x, I.InstV):
        y = I.InstV(x.cls)
        memo[id(x)] = y
        y.attrs = {k: deepcopy_(I, v, memo) for k, v in x.attrs.items()}
        return y
    return x


def in_root(it, p):
    p = os.path.normpath(p)
    return p in it.readable or p.startswith(os.path.normpath(it.root) + os.sep)


class FileV:
    """A file of the repository opened for reading."""

    def __init__(self, path):
        self.path = path

    def text(self):
        with open(self.path, encoding="utf8") as fh:
            return fh.read()

    def abs_iter(self, it):
        return self.text().splitlines(keepends=True)

    def abs_getattr(self, it, name):
        B = _i().Builtin
        if name == "read":
            return B("read", lambda it, a, k: self.text())
        if name == "readlines":
            return B("readlines", lambda it, a, k: self.text().splitlines(keepends=True))
        if name == "close":
            return B("close", lambda it, a, k: None)
        import io
        it.no_attr(io.TextIOWrapper, name, f"a file has no attribute {name!r}")

    def truth(self, it):
        return True
