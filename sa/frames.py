"""Abstract tables: the part of the pandas interface the analysed code uses,
over cells that are concrete labels, numbers or symbolic numbers."""
import ast
import csv

from .terms import T, Term
from .interp import NAN, Builtin, PyExc, Unsupported, VecV, SetV, freeze




def isnan(x):
    return x is NAN or (isinstance(x, float) and x != x)


def isnum(x):
    return isnan(x) or (isinstance(x, (int, float)) and not isinstance(x, bool)) or (
        isinstance(x, Term) and x.op in ("sym", "par", "add", "mul", "div", "sub", "neg", "fn"))


def to_float(x):
    if isinstance(x, str):
        try:
            return float(x)
        except ValueError as e:
            raise PyExc(ValueError, (str(e),))
    if isinstance(x, (int, float)):
        return float(x)
    return x


def astype(it, items, a):
    ty = a[0]
    name = ty if isinstance(ty, str) else getattr(ty, "name", getattr(ty, "__name__", "")) or (ty.args[0].split(".")[-1] if isinstance(ty, Term) else "")
    if name.startswith("float") or name == "double":
        return [to_float(x) for x in items]
    if name.startswith("int"):
        return [int(to_float(x)) if isinstance(x, (str, int, float)) else x for x in items]
    if name.startswith("str") or name == "object":
        return [x if name == "object" else x if isinstance(x, str) else it.to_str(x) for x in items]
    raise Unsupported(f"astype({name})")


def label_pos(labels, key):
    out = [i for i, x in enumerate(labels) if type(x) is type(key) and x == key or (isnum(x) and isnum(key) and x == key)]
    return out


def mask_of(it, m, n):
    items = m.items if isinstance(m, VecV) else list(m)
    if len(items) != n:
        raise PyExc(ValueError, ("boolean index of a different length",))
    return [i for i in range(n) if it.truth(items[i])]


def is_mask(k):
    if isinstance(k, (VecV, list)):
        xs = k.items if isinstance(k, VecV) else k
        return bool(xs) and all(isinstance(x, bool) or (isinstance(x, Term) and x.op in ("cmp", "bitand", "bitor", "not", "in", "is")) for x in xs)
    return False


class Arr(VecV):
    """one-dimensional array"""

    def abs_getattr(self, it, name):
        if name == "astype":
            return Builtin("astype", lambda it, a, k: Arr(astype(it, self.items, a or [k["dtype"]])))
        if name in ("values", "T"):
            return self
        if name in ("to_numpy", "copy", "flatten", "ravel", "squeeze"):
            return Builtin(name, lambda it, a, k: Arr(self.items))
        if name == "tolist":
            return Builtin(name, lambda it, a, k: list(self.items))
        if name == "mean":
            return Builtin(name, lambda it, a, k: mean(it, self.items))
        if name == "item":
            def item(it, a, k):
                if len(self.items) != 1:
                    raise PyExc(ValueError, ("can only convert an array of size 1 to a scalar",))
                return self.items[0]
            return Builtin(name, item)
        if name in ("any", "all"):
            f = any if name == "any" else all
            return Builtin(name, lambda it, a, k: f([it.truth(x) for x in self.items]))
        from . import libmodels
        r = libmodels.native_attr(it, VecV(self.items), name)
        if r is NotImplemented:
            raise Unsupported(f"array attribute {name}")
        return r

    def abs_getitem(self, it, key):
        if isinstance(key, slice):
            return Arr(self.items[key])
        if is_mask(key):
            return Arr([self.items[i] for i in mask_of(it, key, len(self.items))])
        if isinstance(key, int):
            try:
                return self.items[key]
            except IndexError as e:
                raise PyExc(IndexError, (str(e),))
        if isinstance(key, tuple) and all(isinstance(x, VecV) for x in self.items):
            row = self.abs_getitem(it, key[0])
            if isinstance(key[0], int):
                return row.abs_getitem(it, key[1]) if not (isinstance(key[1], slice) and key[1] == slice(None)) else row
            return Arr([r.abs_getitem(it, key[1]) for r in row.items])
        if isinstance(key, (list, VecV)):
            return Arr([self.items[i] for i in (key.items if isinstance(key, VecV) else key)])
        raise Unsupported("array index")


class Index(Arr):
    def __init__(self, items, name=None):
        super().__init__(items)
        self.name = name

    def abs_getattr(self, it, name):
        if name == "str":
            return StrAcc(self)
        if name == "values":
            return Arr(self.items)
        if name == "name":
            return self.name
        if name == "get_loc":
            def loc(it, a, k):
                p = label_pos(self.items, a[0])
                if not p:
                    raise PyExc(KeyError, (a[0],))
                return p[0]
            return Builtin(name, loc)
        if name == "tolist" or name == "to_list":
            return Builtin(name, lambda it, a, k: list(self.items))
        if name == "unique":
            return Builtin(name, lambda it, a, k: Index(dict.fromkeys(self.items), self.name))
        if name == "isin":
            return Builtin(name, lambda it, a, k: Arr([it.contains(x, list(it.iterate(a[0]))) for x in self.items]))
        if name == "map":
            return Builtin(name, lambda it, a, k: Index([it.call(a[0], [x], {}) for x in self.items]))
        if name in ("is_unique", "has_duplicates"):
            return (len(set(self.items)) == len(self.items)) == (name == "is_unique")
        return super().abs_getattr(it, name)

    def contains(self, it, x):
        return bool(label_pos(self.items, x)) if not isinstance(x, Term) else any(it.decide_eq(x, y) for y in self.items)


class StrAcc:
    def __init__(self, s):
        self.s = s

    def abs_getattr(self, it, name):
        def f(it, a, k):
            out = [it.str_method(x, name, a, k) if isinstance(x, str) else x for x in self.s.items]
            return Index(out) if isinstance(self.s, Index) else Series(out, self.s.index)
        return Builtin("str." + name, f)


def mean(it, xs):
    xs = [x for x in xs if not isnan(x)]
    if not xs:
        return NAN
    for x in xs:
        if not isnum(x):
            raise PyExc(TypeError, ("could not convert to numeric",))
    tot = xs[0]
    for x in xs[1:]:
        tot = it.binop(ast.Add, tot, x)
    return it.binop(ast.Div, tot, len(xs)) if len(xs) > 1 else tot


def total(it, xs):
    tot = 0
    for x in xs:
        if not isnan(x):
            tot = it.binop(ast.Add, tot, x)
    return tot


def aggregate(it, how, xs):
    good = [x for x in xs if not isnan(x)]
    if isinstance(how, str):
        if how == "mean":
            return mean(it, xs)
        if how == "first":
            return good[0] if good else NAN
        if how == "last":
            return good[-1] if good else NAN
        if how == "sum":
            return total(it, xs)
        if how in ("min", "max"):
            return it.call(it.builtins[how], [good], {}) if good else NAN
        if how == "median":
            if any(isinstance(x, Term) for x in good):
                for x in good:
                    if not isnum(x):
                        raise PyExc(TypeError, ("could not convert to numeric",))
                return mean(it, good) if len(good) < 3 else T("fn", "median", *good)
            s = it.call(it.builtins["sorted"], [good], {})
            if isinstance(s, list) and s:
                n = len(s)
                return s[n // 2] if n % 2 else it.binop(ast.Div, it.binop(ast.Add, s[n // 2 - 1], s[n // 2]), 2)
            raise Unsupported("median of symbolic values")
        if how in ("count", "size"):
            return len(good) if how == "count" else len(xs)
    elif callable(getattr(how, "fn", None)) or hasattr(how, "node"):
        return it.call(how, [Series(xs)], {})
    raise Unsupported(f"aggregation {how!r}")


class Series(Arr):
    def __init__(self, items, index=None, name=None):
        super().__init__(items)
        self.index = list(index) if index is not None else list(range(len(self.items)))
        self.name = name

    def like(self, items):
        return Series(items, self.index, self.name)

    def abs_getattr(self, it, name):
        B = Builtin
        if name == "str":
            return StrAcc(self)
        if name == "values":
            return Arr(self.items)
        if name == "index":
            return Index(self.index)
        if name == "name":
            return self.name
        if name == "iloc":
            return Loc(self, True)
        if name in ("loc", "at"):
            return Loc(self, False)
        if name == "iat":
            return Loc(self, True)
        if name == "empty":
            return not self.items
        if name == "astype":
            return B(name, lambda it, a, k: self.like(astype(it, self.items, a or [k["dtype"]])))
        if name in ("copy",):
            return B(name, lambda it, a, k: self.like(self.items))
        if name in ("to_list",):
            return B(name, lambda it, a, k: list(self.items))
        if name == "to_dict":
            return B(name, lambda it, a, k: dict(zip(self.index, self.items)))
        if name == "items":
            return B(name, lambda it, a, k: list(zip(self.index, self.items)))
        if name in ("keys",):
            return B(name, lambda it, a, k: Index(self.index))
        if name == "get":
            return B(name, lambda it, a, k: self.abs_getitem(it, a[0]) if label_pos(self.index, a[0]) else (a[1] if len(a) > 1 else None))
        if name in ("mean", "first", "last", "sum", "min", "max", "median", "count"):
            return B(name, lambda it, a, k: aggregate(it, name, self.items))
        if name in ("isna", "isnull", "notna", "notnull"):
            return B(name, lambda it, a, k: self.like([isnan(x) == name.startswith("is") for x in self.items]))
        if name == "isin":
            return B(name, lambda it, a, k: self.like([it.contains(x, list(it.iterate(a[0]))) for x in self.items]))
        if name == "unique":
            return B(name, lambda it, a, k: Arr(dict.fromkeys(self.items)))
        if name == "nunique":
            return B(name, lambda it, a, k: len({x for x in self.items if not isnan(x)}))
        if name in ("eq", "ne", "lt", "le", "gt", "ge"):
            op = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}[name]
            return B(name, lambda it, a, k: it.compare(op, self, a[0]))
        if name == "dropna":
            keep = [i for i, x in enumerate(self.items) if not isnan(x)]
            return B(name, lambda it, a, k: Series([self.items[i] for i in keep], [self.index[i] for i in keep], self.name))
        if name == "fillna":
            return B(name, lambda it, a, k: self.like(filled(self.items, a, k)))
        if name == "map":
            return B(name, lambda it, a, k: self.like([it.getitem(a[0], x) if isinstance(a[0], dict) else it.call(a[0], [x], {}) for x in self.items]))
        if name in ("rename", "rename_axis"):
            return B(name, lambda it, a, k: Series(self.items, self.index, a[0] if a and isinstance(a[0], str) else self.name))
        if name == "reset_index":
            return B(name, lambda it, a, k: Series(self.items, None, self.name) if k.get("drop") else Frame(
                {"index": list(self.index), self.name or 0: list(self.items)}, None))
        if name == "dtype":
            return DType(self.items)
        return super().abs_getattr(it, name)

    def abs_getitem(self, it, key):
        if isinstance(key, slice):
            return slice_labels(self, key)
        if is_mask(key) or isinstance(key, VecV):
            ks = mask_of(it, key, len(self.items))
            return Series([self.items[i] for i in ks], [self.index[i] for i in ks], self.name)
        if isinstance(key, list):
            return Series([self.abs_getitem(it, x) for x in key], key, self.name)
        p = label_pos(self.index, key)
        if not p and isinstance(key, Term):
            p = [i for i, x in enumerate(self.index) if it.decide_eq(key, x)]
        if not p:
            if isinstance(key, int) and not any(isinstance(x, int) for x in self.index):
                return Arr.abs_getitem(self, it, key)
            raise PyExc(KeyError, (key,))
        if len(p) == 1:
            return self.items[p[0]]
        return Series([self.items[i] for i in p], [self.index[i] for i in p], self.name)

    def contains(self, it, x):
        return bool(label_pos(self.index, x))


def slice_labels(s, key):
    if all(x is None or isinstance(x, int) for x in (key.start, key.stop)) and not any(isinstance(x, str) for x in (key.start, key.stop)):
        return Series(s.items[key], s.index[key], s.name)
    lo, hi = bounds(s.index, key)
    return Series(s.items[lo:hi], s.index[lo:hi], s.name)


def bounds(labels, key):
    lo, hi = 0, len(labels)
    if key.start is not None:
        p = label_pos(labels, key.start)
        if not p:
            raise PyExc(KeyError, (key.start,))
        lo = p[0]
    if key.stop is not None:
        p = label_pos(labels, key.stop)
        if not p:
            raise PyExc(KeyError, (key.stop,))
        hi = p[-1] + 1
    return lo, hi


def filled(items, a, k):
    v = a[0] if a else k.get("value")
    if not (isinstance(v, (int, float, str)) or isinstance(v, Term) and isnum(v)) or set(k) - {"value", "inplace"}:
        raise Unsupported("fillna")
    return [v if isnan(x) else x for x in items]


def kind_of(items):
    """float, int or object: the type pandas gives the column (symbolic numbers are floats)."""
    if not items or not all(isnum(x) for x in items):
        return "object"
    return "int" if all(isinstance(x, int) for x in items) else "float"


class DType:
    def __init__(self, items):
        self.items = items

    def abs_compare(self, it, op, o):
        obj = not all(isnum(x) for x in self.items)
        nm = getattr(o, "name", o)
        nm = nm.args[0].split(".")[-1] if isinstance(nm, Term) and nm.op == "ext" else nm
        if not isinstance(nm, str):
            raise Unsupported("comparison of a column type")
        if not obj and nm not in ("object", "O", "str"):
            r = nm.rstrip("0123456789") == kind_of(self.items)
        else:
            r = (nm in ("object", "O", "str")) == obj
        return r if op == "==" else not r

    def abs_getattr(self, it, name):
        if name == "kind":
            return {"float": "f", "int": "i", "object": "O"}[kind_of(self.items)]
        if name == "name":
            return {"float": "float64", "int": "int64", "object": "object"}[kind_of(self.items)]
        raise Unsupported(f"dtype.{name}")


class Loc:
    def __init__(self, o, positional):
        self.o, self.pos = o, positional

    def abs_getitem(self, it, key):
        o = self.o
        if isinstance(o, Series):
            if self.pos:
                if isinstance(key, slice):
                    return Series(o.items[key], o.index[key], o.name)
                if isinstance(key, int):
                    return Arr.abs_getitem(o, it, key)
                raise Unsupported("iloc")
            return o.abs_getitem(it, key)
        row, col = key if isinstance(key, tuple) else (key, slice(None))
        rows, rscalar = self.select(it, row, o.index, self.pos)
        cols, cscalar = self.select(it, col, o.columns, self.pos)
        names = [o.columns[i] for i in cols]
        if rscalar and cscalar:
            return o.cols[names[0]][rows[0]]
        if rscalar:
            return Series([o.cols[c][rows[0]] for c in names], names, o.index[rows[0]])
        if cscalar:
            return Series([o.cols[names[0]][i] for i in rows], [o.index[i] for i in rows], names[0])
        return Frame({c: [o.cols[c][i] for i in rows] for c in names}, [o.index[i] for i in rows], o.index_name)

    def select(self, it, key, labels, pos):
        n = len(labels)
        if isinstance(key, slice):
            if key == slice(None):
                return list(range(n)), False
            if pos:
                return list(range(n))[key], False
            lo, hi = bounds(labels, key)
            return list(range(lo, hi)), False
        if isinstance(key, (VecV, list)):
            if is_mask(key) or (isinstance(key, Series) and not key.items):
                return mask_of(it, key, n), False
            out = []
            for x in (key.items if isinstance(key, VecV) else key):
                out += self.select(it, x, labels, pos)[0]
            return out, False
        if pos:
            if not isinstance(key, int) or not -n <= key < n:
                raise PyExc(IndexError, ("single positional indexer is out-of-bounds",))
            return [key % n], True
        p = label_pos(labels, key)
        if not p and isinstance(key, Term):
            p = [i for i, x in enumerate(labels) if it.decide_eq(key, x)]
        if not p:
            raise PyExc(KeyError, (key,))
        return p, len(p) == 1

    def abs_setitem(self, it, key, val):
        raise Unsupported("writing to a table")


class Frame:
    elementwise = True
    def __init__(self, cols, index=None, index_name=None, origin=None):
        self.cols = dict(cols)
        n = len(next(iter(self.cols.values()))) if self.cols else (len(index) if index is not None else 0)
        self.index = list(index) if index is not None else list(range(n))
        self.index_name = index_name
        self.origin = origin

    @property
    def columns(self):
        return list(self.cols)

    @property
    def n(self):
        return len(self.index)

    def term(self):
        return T("frame", self.origin or "", tuple(map(str, self.cols)), self.n)

    def copy(self):
        return Frame({c: list(v) for c, v in self.cols.items()}, self.index, self.index_name, self.origin)

    def take(self, rows):
        return Frame({c: [v[i] for i in rows] for c, v in self.cols.items()}, [self.index[i] for i in rows], self.index_name)

    def abs_len(self, it):
        return self.n

    def truth(self, it):
        raise PyExc(ValueError, ("The truth value of a DataFrame is ambiguous",))

    def abs_iter(self, it):
        return self.columns

    def contains(self, it, x):
        return bool(label_pos(self.columns, x))

    def abs_getitem(self, it, key):
        if isinstance(key, slice):
            return self.take(list(range(self.n))[key])
        if is_mask(key) or isinstance(key, Series) and not self.n:
            return self.take(mask_of(it, key, self.n))
        if isinstance(key, (list, VecV)):
            ks = key.items if isinstance(key, VecV) else key
            for c in ks:
                if c not in self.cols:
                    raise PyExc(KeyError, (c,))
            return Frame({c: list(self.cols[c]) for c in ks}, self.index, self.index_name)
        if isinstance(key, Term):
            for c in self.cols:
                if it.decide_eq(key, c):
                    return Series(self.cols[c], self.index, c)
            raise PyExc(KeyError, (key,))
        if key not in self.cols:
            raise PyExc(KeyError, (key,))
        return Series(self.cols[key], self.index, key)

    def abs_setitem(self, it, key, val):
        if isinstance(val, VecV):
            self.cols[key] = list(val.items)
        elif isinstance(val, list):
            self.cols[key] = list(val)
        else:
            self.cols[key] = [val] * self.n
        it.event("frame-write", self, key)

    def abs_setattr(self, it, name, val):
        if name == "columns":
            names = it.iterate(val)
            if len(names) != len(self.cols):
                raise PyExc(ValueError, ("Length mismatch",))
            self.cols = dict(zip(names, self.cols.values()))
            return
        if name == "index":
            self.index = it.iterate(val)
            return
        raise Unsupported(f"DataFrame.{name} = ...")

    def dropped(self, names):
        for c in names:
            if c not in self.cols:
                raise PyExc(KeyError, (f"{[c]} not found in axis",))
        return Frame({c: v for c, v in self.cols.items() if c not in names}, self.index, self.index_name)

    def abs_getattr(self, it, name):
        B = Builtin
        if name == "columns":
            return Index(self.columns)
        if name == "index":
            return Index(self.index, self.index_name)
        if name == "loc" or name == "at":
            return Loc(self, False)
        if name == "iloc" or name == "iat":
            return Loc(self, True)
        if name == "values":
            return Arr([Arr([self.cols[c][i] for c in self.cols]) for i in range(self.n)])
        if name == "to_numpy":
            return B(name, lambda it, a, k: self.abs_getattr(it, "values"))
        if name == "shape":
            return (self.n, len(self.cols))
        if name == "empty":
            return self.n == 0 or not self.cols
        if name in ("copy",):
            return B(name, lambda it, a, k: self.copy())
        if name == "to_csv" and "to_csv" in it.hooks:
            return B(name, lambda it, a, k: it.hooks["to_csv"](it, self, list(a), dict(k)))
        if name in ("T", "transpose"):
            t = Frame({i: [self.cols[c][n] for c in self.cols] for n, i in enumerate(self.index)}, list(self.cols))
            return t if name == "T" else B(name, lambda it, a, k: t)
        if name == "set_index":
            def set_index(it, a, k):
                c = a[0] if a else k["keys"]
                if not isinstance(c, str):
                    raise Unsupported("set_index")
                if c not in self.cols:
                    raise PyExc(KeyError, (c,))
                out = {x: v for x, v in self.cols.items() if x != c or k.get("drop") is False}
                r = Frame(out, self.cols[c], c)
                return self.inplace(r, k)
            return B(name, set_index)
        if name == "reset_index":
            def reset(it, a, k):
                if k.get("drop"):
                    return self.inplace(Frame(self.cols, None if self.cols else list(range(self.n))), k)
                d = {self.index_name or "index": list(self.index)}
                d.update(self.cols)
                return self.inplace(Frame(d), k)
            return B(name, reset)
        if name == "drop":
            def drop(it, a, k):
                cols = k.get("columns")
                if cols is None and k.get("axis") in (1, "columns"):
                    cols = a[0] if a else k.get("labels")
                if cols is None:
                    lab = a[0] if a else k.get("index")
                    lab = lab if isinstance(lab, list) else [lab]
                    return self.take([i for i in range(self.n) if self.index[i] not in lab])
                cols = [cols] if isinstance(cols, str) else list(it.iterate(cols))
                if k.get("errors") == "ignore":
                    cols = [c for c in cols if c in self.cols]
                return self.inplace(self.dropped(cols), k)
            return B(name, drop)
        if name == "rename":
            def rename(it, a, k):
                m = k.get("columns")
                if m is None:
                    raise Unsupported("rename")
                g = (lambda c: it.getitem(m, c) if it.contains(c, m) else c) if isinstance(m, dict) else (lambda c: it.call(m, [c], {}))
                return self.inplace(Frame({g(c): v for c, v in self.cols.items()}, self.index, self.index_name), k)
            return B(name, rename)
        if name == "merge":
            return B(name, lambda it, a, k: merge(it, self, a[0] if a else k["right"], dict(zip(("how", "on", "left_on", "right_on"), a[1:])), k))
        if name == "join":
            raise Unsupported("DataFrame.join")
        if name == "groupby":
            def groupby(it, a, k):
                by = a[0] if a else k["by"]
                if isinstance(by, list) and len(by) == 1:
                    by = by[0]
                if not isinstance(by, str):
                    raise Unsupported("groupby")
                if by not in self.cols:
                    raise PyExc(KeyError, (by,))
                return GroupBy(self, by, k.get("as_index", True), k.get("sort", True), k.get("dropna", True))
            return B(name, groupby)
        if name == "items":
            return B(name, lambda it, a, k: [(c, Series(v, self.index, c)) for c, v in self.cols.items()])
        if name == "iterrows":
            return B(name, lambda it, a, k: [(self.index[i], Series([v[i] for v in self.cols.values()], self.columns, self.index[i])) for i in range(self.n)])
        if name == "to_dict":
            def to_dict(it, a, k):
                o = a[0] if a else k.get("orient", "dict")
                if o == "records":
                    return [{c: v[i] for c, v in self.cols.items()} for i in range(self.n)]
                if o == "list":
                    return {c: list(v) for c, v in self.cols.items()}
                if o == "dict":
                    return {c: dict(zip(self.index, v)) for c, v in self.cols.items()}
                if o == "index":
                    return {self.index[i]: {c: v[i] for c, v in self.cols.items()} for i in range(self.n)}
                raise Unsupported("to_dict")
            return B(name, to_dict)
        if name == "dropna":
            def dropna(it, a, k):
                sub = k.get("subset") or self.columns
                sub = [sub] if isinstance(sub, str) else sub
                f = all if k.get("how") == "all" else any
                return self.inplace(self.take([i for i in range(self.n) if not f(isnan(self.cols[c][i]) for c in sub)]), k)
            return B(name, dropna)
        if name == "fillna":
            return B(name, lambda it, a, k: self.inplace(Frame({c: filled(v, a, k) for c, v in self.cols.items()}, self.index, self.index_name), k))
        if name in ("duplicated", "drop_duplicates"):
            def dup(it, a, k):
                sub = a[0] if a else k.get("subset")
                sub = self.columns if sub is None else [sub] if isinstance(sub, str) else list(it.iterate(sub))
                keep = k.get("keep", "first")
                for c in sub:
                    if c not in self.cols:
                        raise PyExc(KeyError, (c,))
                keys = [tuple(repr(freeze(self.cols[c][i])) for c in sub) for i in range(self.n)]
                first, last = {}, {}
                for i, x in enumerate(keys):
                    first.setdefault(x, i)
                    last[x] = i
                out = [{"first": first[x] != i, "last": last[x] != i}.get(keep, first[x] != last[x]) for i, x in enumerate(keys)]
                if name == "duplicated":
                    return Series(out, self.index)
                r = self.take([i for i in range(self.n) if not out[i]])
                if k.get("ignore_index"):
                    r.index = list(range(r.n))
                return self.inplace(r, k)
            return B(name, dup)
        if name == "squeeze":
            return B(name, lambda it, a, k: Loc(self, True).abs_getitem(it, 0) if self.n == 1 else self)
        if name == "head":
            return B(name, lambda it, a, k: self.take(list(range(self.n))[: a[0] if a else 5]))
        if name == "filter":
            def filt(it, a, k):
                items = a[0] if a else k.get("items")
                if items is None:
                    raise Unsupported("filter")
                return Frame({c: self.cols[c] for c in items if c in self.cols}, self.index, self.index_name)
            return B(name, filt)
        if name == "get":
            return B(name, lambda it, a, k: self.abs_getitem(it, a[0]) if a[0] in self.cols else (a[1] if len(a) > 1 else None))
        if name == "pop":
            def pop(it, a, k):
                s = self.abs_getitem(it, a[0])
                del self.cols[a[0]]
                return s
            return B(name, pop)
        if name == "query":
            return B(name, lambda it, a, k: self.query(it, a[0]))
        if name == "sort_values":
            def sort_values(it, a, k):
                by = a[0] if a else k.get("by")
                by = [by] if isinstance(by, str) else list(it.iterate(by))
                keys = [tuple(self.cols[c][i] for c in by) for i in range(self.n)]
                if set(k) - {"by", "ignore_index", "ascending", "inplace", "kind"} or not all(isinstance(x, (str, int, float)) for t in keys for x in t):
                    raise Unsupported("sort_values")
                rows = sorted(range(self.n), key=lambda i: keys[i], reverse=k.get("ascending") is False)
                r = self.take(rows)
                if k.get("ignore_index"):
                    r.index = list(range(r.n))
                return self.inplace(r, k)
            return B(name, sort_values)
        if name == "sort_index":
            return B(name, lambda it, a, k: self.take(sorted(range(self.n), key=lambda i: self.index[i])))
        if name == "dtypes":
            return Series([DType(v) for v in self.cols.values()], self.columns)
        if name == "select_dtypes":
            raise Unsupported("select_dtypes")
        if name in self.cols:
            return Series(self.cols[name], self.index, name)
        if name.startswith("__"):
            raise PyExc(AttributeError, (name,))
        raise Unsupported(f"DataFrame.{name}")

    def inplace(self, r, k):
        if k.get("inplace"):
            self.cols, self.index, self.index_name = r.cols, r.index, r.index_name
            return None
        return r

    def query(self, it, text):
        if not isinstance(text, str):
            raise Unsupported("query with a symbolic text")
        tree = ast.parse(text, mode="eval").body
        if any(isinstance(n, ast.MatMult) for n in ast.walk(tree)) or "@" in text:
            raise Unsupported("query referring to local variables")

        def ev(n):
            if isinstance(n, ast.BoolOp):
                vs = [ev(x) for x in n.values]
                f = all if isinstance(n.op, ast.And) else any
                return [f(it.truth(v[i]) for v in vs) for i in range(self.n)]
            if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.BitAnd, ast.BitOr)):
                a, b = ev(n.left), ev(n.right)
                return [(it.truth(x) and it.truth(y)) if isinstance(n.op, ast.BitAnd) else (it.truth(x) or it.truth(y)) for x, y in zip(a, b)]
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                from .interp import CMPOPS
                a, b = ev(n.left), ev(n.comparators[0])
                return [it.compare_bool(CMPOPS[type(n.ops[0])], x, y) for x, y in zip(a, b)]
            if isinstance(n, ast.Name):
                return list(self.cols[n.id])
            if isinstance(n, ast.Constant):
                return [n.value] * self.n
            raise Unsupported("query expression")
        return self.take([i for i, v in enumerate(ev(tree)) if v])


def merge(it, left, right, pos, k):
    kw = {**pos, **k}
    how = kw.get("how", "inner")
    lo, ro = kw.get("left_on", kw.get("on")), kw.get("right_on", kw.get("on"))
    if isinstance(lo, list) and len(lo) == 1:
        lo = lo[0]
    if isinstance(ro, list) and len(ro) == 1:
        ro = ro[0]
    if lo is None and ro is None:
        common = [c for c in left.cols if c in right.cols]
        if len(common) != 1:
            raise Unsupported("merge on several columns")
        lo = ro = common[0]
    if kw.get("left_index") or kw.get("right_index") or not isinstance(lo, str) or not isinstance(ro, str):
        raise Unsupported("merge on an index")
    for f, c in ((left, lo), (right, ro)):
        if c not in f.cols:
            raise PyExc(KeyError, (c,))
    pairs = []
    lk, rk = left.cols[lo], right.cols[ro]
    if any(isinstance(x, Term) and not isnan(x) for x in list(lk) + list(rk)):
        raise Unsupported("merge on symbolic keys")
    eq = lambda a, b: (isnan(a) and isnan(b)) or (type(a) is type(b) and a == b)
    for i, a in enumerate(lk):
        m = [(i, j) for j, b in enumerate(rk) if eq(a, b)]
        pairs += m or ([(i, None)] if how in ("left", "outer") else [])
    if how in ("right", "outer"):
        seen = {j for _, j in pairs}
        extra = [(None, j) for j in range(len(rk)) if j not in seen]
        pairs += extra
        if how == "right":
            pairs.sort(key=lambda p: (p[1], p[0] if p[0] is not None else -1))
    key = lambda p: lk[p[0]] if p[0] is not None else rk[p[1]]
    if how == "outer":
        pairs.sort(key=lambda p: (isnan(key(p)), str(key(p))))
    if how not in ("inner", "left", "right", "outer"):
        raise Unsupported(f"merge how={how}")
    out = {}
    same = lo == ro
    clash = {c for c in left.cols if c in right.cols and not (same and c == lo)}
    sx = kw.get("suffixes", ("_x", "_y"))
    for c, v in left.cols.items():
        nm = c + sx[0] if c in clash else c
        out[nm] = [v[i] if i is not None else (rk[j] if same and c == lo else NAN) for i, j in pairs]
    for c, v in right.cols.items():
        if same and c == ro:
            continue
        nm = c + sx[1] if c in clash else c
        out[nm] = [v[j] if j is not None else NAN for i, j in pairs]
    return Frame(out)


class GroupBy:
    def __init__(self, frame, by, as_index, sort, dropna):
        self.f, self.by, self.as_index = frame, by, as_index
        keys = list(dict.fromkeys(k for k in frame.cols[by] if not (isnan(k) and dropna)))
        self.keys = sorted(keys, key=lambda x: (isnan(x), str(x) if not isnum(x) else x)) if sort else keys
        self.groups = {k: [i for i, x in enumerate(frame.cols[by]) if x is k or (not isnan(x) and x == k)] for k in self.keys}

    def build(self, it, how):
        cols = {c: [aggregate(it, h, [self.f.cols[c][i] for i in self.groups[k]]) for k in self.keys] for c, h in how.items()}
        if self.as_index:
            return Frame(cols, self.keys, self.by)
        return Frame({self.by: list(self.keys), **cols})

    def abs_getattr(self, it, name):
        rest = [c for c in self.f.cols if c != self.by]
        if name in ("agg", "aggregate"):
            def agg(it, a, k):
                h = a[0] if a else k.get("func")
                if isinstance(h, dict):
                    for c in h:
                        if c not in self.f.cols:
                            raise PyExc(KeyError, (c,))
                    return self.build(it, h)
                if h is not None:
                    return self.build(it, {c: h for c in rest})
                return self.build(it, k)
            return Builtin(name, agg)
        if name in ("mean", "first", "last", "sum", "min", "max", "median", "count"):
            def f(it, a, k):
                cs = rest
                if k.get("numeric_only"):
                    cs = [c for c in rest if all(isnum(x) for x in self.f.cols[c])]
                return self.build(it, {c: name for c in cs})
            return Builtin(name, f)
        if name == "size":
            return Builtin(name, lambda it, a, k: Series([len(self.groups[x]) for x in self.keys], self.keys))
        raise Unsupported(f"groupby.{name}")

    def abs_getitem(self, it, key):
        cs = key if isinstance(key, list) else [key]
        g = GroupBy(Frame({self.by: self.f.cols[self.by], **{c: self.f.cols[c] for c in cs}}, self.f.index), self.by, self.as_index, True, True)
        if isinstance(key, list):
            return g
        return SeriesGroup(g, key)

    def abs_iter(self, it):
        return [(k, self.f.take(self.groups[k])) for k in self.keys]


class SeriesGroup:
    def __init__(self, g, col):
        self.g, self.col = g, col

    def abs_getattr(self, it, name):
        def f(it, a, k):
            fr = self.g.build(it, {self.col: a[0] if name == "agg" else name})
            return Series(fr.cols[self.col], self.g.keys, self.col)
        return Builtin(name, f)


def from_csv(path):
    with open(path, encoding="utf-8-sig", newline="") as fh:
        rows = list(csv.reader(fh))
    head, rows = rows[0], [r for r in rows[1:] if r]
    head = [h if h else f"Unnamed: {i}" for i, h in enumerate(head)]
    cols = {}
    for i, h in enumerate(head):
        cells = [r[i] if i < len(r) else "" for r in rows]
        miss = ("", "NaN", "nan", "NA", "N/A", "null", "NULL", "None", "n/a", "#N/A", "<NA>", "-NaN", "-nan", "#NA")
        try:
            vals = [NAN if c in miss else float(c) for c in cells]
        except ValueError:
            vals = [NAN if c in miss else c for c in cells]
        cols[h] = vals
    return Frame(cols, origin=path)


def number_attr(it, x, name):
    """Attributes of the numbers which arrays hold."""
    if name == "shape":
        return ()
    if name in ("ndim", "size"):
        return 0 if name == "ndim" else 1
    if name in ("item", "tolist"):
        return Builtin(name, lambda it, a, k: x)
    return None


def install(it, source=None):
    """pandas / scipy / numpy table functions; ``source(path)`` may supply generic tables."""
    M = it.models
    old = it.hooks.get("term_attr")

    def term_attr(it, obj, name):
        r = old(it, obj, name) if old else None
        return number_attr(it, obj, name) if r is None and (isnum(obj) or obj.op == "interp") else r
    it.hooks["term_attr"] = term_attr
    it.hooks["num_attr"] = number_attr

    def read_csv(it, a, k):
        p = a[0] if a else k.get("filepath_or_buffer")
        if isinstance(p, (dict, list, tuple, int, float, Frame, type(None))):
            raise PyExc(ValueError, (f"Invalid file path or buffer object type: {type(p)}",))
        if not isinstance(p, str):
            raise Unsupported("read_csv of a symbolic path")
        import os
        p = os.path.normpath(p)
        it.event("read_csv", p)
        f = source(p) if source else None
        if f is None:
            if not os.path.exists(p):
                raise PyExc(FileNotFoundError, (p,))
            f = from_csv(p)
        f = f.copy()
        for key in k:
            if key == "index_col":
                c = k[key] if isinstance(k[key], str) else f.columns[k[key]]
                f = Frame({x: v for x, v in f.cols.items() if x != c}, f.cols[c], c)
            elif key == "usecols":
                f = Frame({c: f.cols[c] for c in f.cols if c in k[key]}, f.index)
            elif key not in ("encoding", "filepath_or_buffer", "engine", "sep"):
                raise Unsupported(f"read_csv({key}=)")
        return f
    B = Builtin
    M["pandas.read_csv"] = B("read_csv", read_csv)
    M["pandas.api.types.is_numeric_dtype"] = B("is_numeric_dtype", lambda it, a, k: all(isnum(x) for x in a[0].items))
    def typed(name, kinds):
        def f(it, a, k):
            x = a[0]
            if not isinstance(x, (VecV, DType)):
                raise Unsupported(name)
            return kind_of(x.items) in kinds
        M["pandas.api.types." + name] = B(name, f)
    typed("is_float_dtype", ("float",))
    typed("is_integer_dtype", ("int",))
    typed("is_object_dtype", ("object",))
    typed("is_string_dtype", ("object",))
    M["pandas.isna"] = M["pandas.isnull"] = B("isna", lambda it, a, k: isnan(a[0]) if not isinstance(a[0], VecV) else Arr([isnan(x) for x in a[0].items]))
    M["pandas.notna"] = M["pandas.notnull"] = B("notna", lambda it, a, k: not isnan(a[0]))
    M["pandas.merge"] = B("merge", lambda it, a, k: merge(it, a[0], a[1], dict(zip(("how", "on"), a[2:])), k))

    def concat(it, a, k):
        fs = it.iterate(a[0] if a else k["objs"])
        if k.get("axis", 0) not in (0, "index") or not all(isinstance(f, Frame) for f in fs):
            raise Unsupported("concat")
        names = list(dict.fromkeys(c for f in fs for c in f.cols))
        cols = {c: [x for f in fs for x in (f.cols.get(c) or [NAN] * f.n)] for c in names}
        return Frame(cols, None if k.get("ignore_index") else [i for f in fs for i in f.index])
    M["pandas.concat"] = B("concat", concat)

    def data_frame(it, a, k):
        d = a[0] if a else k.get("data")
        cols = k.get("columns", a[2] if len(a) > 2 else None)
        index = k.get("index", a[1] if len(a) > 1 else None)
        if isinstance(d, dict) and d and all(isinstance(v, dict) for v in d.values()):
            rows = list(dict.fromkeys(r for v in d.values() for r in v)) if index is None else list(it.iterate(index))
            return Frame({c: [v.get(r, NAN) for r in rows] for c, v in d.items()}, rows)
        if isinstance(d, dict):
            n = max([len(v) for v in d.values() if isinstance(v, (list, VecV))] or [1])
            return Frame({c: list(v.items if isinstance(v, VecV) else v if isinstance(v, list) else [v] * n) for c, v in d.items()}, index)
        if isinstance(d, list) and all(isinstance(r, dict) for r in d):
            names = cols or list(dict.fromkeys(c for r in d for c in r))
            return Frame({c: [r.get(c, NAN) for r in d] for c in names}, index)
        if isinstance(d, list) and cols is not None:
            rows = [it.iterate(r) for r in d]
            for r in rows:
                if len(r) != len(it.iterate(cols)):
                    raise PyExc(ValueError, ("columns passed do not match the data",))
            return Frame({c: [r[i] for r in rows] for i, c in enumerate(it.iterate(cols))}, index if index is not None else list(range(len(rows))))
        if isinstance(d, (str, int, float)):
            raise PyExc(ValueError, ("DataFrame constructor not properly called!",))
        raise Unsupported("DataFrame(...)")
    M["pandas.DataFrame"] = B("DataFrame", data_frame)
    M["pandas.Series"] = B("Series", lambda it, a, k: Series(list(a[0].values()), list(a[0])) if isinstance(a[0], dict) else Series(it.iterate(a[0]), k.get("index")))

    # interpolation ---------------------------------------------------------

    def univariate(it, a, k):
        xs = it.iterate(a[0])
        kk = k.get("k", 3)
        if list(k) not in ([], ["k"]) or len(a) != 2 or kk not in (1, 3):
            raise Unsupported("InterpolatedUnivariateSpline options")
        if any(isinstance(x, (int, float)) and isinstance(y, (int, float)) and y <= x for x, y in zip(xs, xs[1:])):
            raise PyExc(ValueError, ("x must be strictly increasing",))
        if len(xs) <= kk:
            raise PyExc(ValueError, ("too few points",))
        return Interp1d(xs, it.iterate(a[1]), "linear" if kk == 1 else "IUS", False, "extrapolate")

    def interp1d(it, a, k):
        kw = dict(zip(("x", "y", "kind", "axis", "copy", "bounds_error", "fill_value"), a))
        kw.update(k)
        return Interp1d(it.iterate(kw["x"]), it.iterate(kw["y"]), kw.get("kind", "linear"), kw.get("bounds_error"), kw.get("fill_value"))
    M["scipy.interpolate.interp1d"] = B("interp1d", interp1d)
    M["scipy.interpolate.InterpolatedUnivariateSpline"] = B("InterpolatedUnivariateSpline", univariate)
    M["scipy.interpolate.CubicSpline"] = B("CubicSpline", lambda it, a, k: Interp1d(it.iterate(a[0]), it.iterate(a[1]), "CubicSpline", False, "extrapolate"))

    def npinterp(it, a, k):
        kw = dict(zip(("x", "xp", "fp", "left", "right", "period"), a), **k)
        x, xs, ys = kw.pop("x"), it.iterate(kw.pop("xp")), it.iterate(kw.pop("fp"))
        k = kw
        if k.get("period") is not None:
            raise Unsupported("np.interp(period)")
        if k.get("left") is not None or k.get("right") is not None:
            raise Unsupported("np.interp(left/right)")
        if isinstance(x, (VecV, list)):
            return Arr([linear(it, y, xs, ys, True) for y in it.iterate(x)])
        return linear(it, x, xs, ys, True)
    M["numpy.interp"] = B("interp", npinterp)


def near(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def linear(it, x, xs, ys, clamp):
    if not isinstance(x, (int, float)) or not all(isinstance(v, (int, float)) for v in xs):
        raise Unsupported("interpolation at a symbolic abscissa")
    if len(xs) != len(ys):
        raise PyExc(ValueError, ("fp and xp are not of the same length",))
    for a, y in zip(xs, ys):
        if near(a, x):
            return y
    if not clamp and not xs[0] <= x <= xs[-1]:
        raise PyExc(ValueError, ("A value in x_new is outside the interpolation range",))
    if x < xs[0]:
        return ys[0]
    if x > xs[-1]:
        return ys[-1]
    for i in range(len(xs) - 1):
        if xs[i] < x < xs[i + 1]:
            w = (x - xs[i]) / (xs[i + 1] - xs[i])
            return it.binop(ast.Add, it.binop(ast.Mult, ys[i], 1 - w), it.binop(ast.Mult, ys[i + 1], w))
    raise Unsupported("interpolation on an unsorted grid")


class Interp1d:
    def __init__(self, xs, ys, kind, bounds_error, fill):
        self.xs, self.ys, self.kind, self.be, self.fill = xs, ys, kind, bounds_error, fill
        if len(xs) != len(ys):
            raise PyExc(ValueError, ("x and y arrays must be equal in length along interpolation axis",))

    def at(self, it, x):
        if not isinstance(x, (int, float)) or not all(isinstance(v, (int, float)) for v in self.xs):
            raise Unsupported("interpolation at a symbolic abscissa")
        for a, y in zip(self.xs, self.ys):
            if near(a, x):
                return y
        inside = min(self.xs) <= x <= max(self.xs)
        if not inside and self.fill is None and self.be is not False:
            raise PyExc(ValueError, ("A value in x_new is outside the interpolation range",))
        if not inside and self.fill != "extrapolate":
            if self.fill is None:
                return NAN
            if isinstance(self.fill, (int, float)):
                return self.fill
            if isinstance(self.fill, (tuple, list)) and len(self.fill) == 2:
                return self.fill[0 if x < min(self.xs) else 1]
            raise Unsupported("fill_value of interp1d")
        if self.kind in ("linear", 1, "slinear"):
            return linear(it, x, self.xs, self.ys, False)
        return T("interp", str(self.kind), tuple(float(v) for v in self.xs), freeze(list(self.ys)), float(x))

    def abs_call(self, it, a, k):
        x = a[0]
        if isinstance(x, (VecV, list)):
            return Arr([self.at(it, y) for y in it.iterate(x)])
        return self.at(it, x)
