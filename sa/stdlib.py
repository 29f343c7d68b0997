"""Models of further standard-library facilities a program may be written with: contextlib, itertools, operator, pathlib,
defaultdict/Counter, dataclass field factories. They only describe; a case not described here is Unsupported (undecided)."""
import ast
import os
import posixpath

from . import interp as I
from . import terms as tm
from .terms import T, Term

B = I.Builtin


class FactoryV:
    """A dataclass field made anew for each instance."""
    known_object = True

    def __init__(self, f):
        self.f = f


class SuppressV:
    def __init__(self, types):
        self.types = types

    def abs_context(self, it, rest):
        depth = len(it.try_stack)
        it.try_stack.append([tuple(self.types)])
        try:
            return rest(self)
        except I.PyExc as e:
            if any(it.exc_match(e, t) for t in self.types):
                return None
            raise
        finally:
            del it.try_stack[depth:]


class NullV:
    def __init__(self, v=None):
        self.v = v

    def abs_context(self, it, rest):
        return rest(self.v)


class PathStr(str):
    """A pathlib.Path with known text; a string to the functions that accept paths."""

    def abs_binop(self, it, opcls, a, b):
        if opcls is ast.Div and isinstance(a, str) and isinstance(b, str):
            return PathStr(clean(os.path.join(a, b)))
        if isinstance(a, (str, int, float, list, tuple)) and isinstance(b, (str, int, float, list, tuple)):
            raise I.PyExc(TypeError, ("unsupported operand type(s) for a path",))
        raise I.Unsupported("operator on a path")

    def abs_isinstance(self, it, t):
        return isinstance(t, Term) and t.op == "ext" and t.args[0] in ("pathlib.Path", "pathlib.PurePath", "os.PathLike")


def clean(p):
    """The text pathlib keeps of a path (no '.' parts, no doubled separators; '..' is kept)."""
    parts = [x for x in p.split("/") if x not in ("", ".")]
    return ("/" if p.startswith("/") else "") + "/".join(parts) or "."


def path_attr(it, p, name):
    def m(f):
        return B("Path." + name, f)

    def lib(fn):
        return m(lambda it, a, k: it.call(it.models[fn], [str(p)] + list(a), k))
    base = posixpath.basename(p) if p != "." else ""
    if name == "parent":
        return PathStr(posixpath.dirname(p) or ("/" if p.startswith("/") else "."))
    if name == "parents":
        out, q = [], p
        while posixpath.dirname(q) != q and q != ".":
            q = posixpath.dirname(q) or "."
            out.append(PathStr(q))
        return tuple(out)
    if name == "name":
        return base
    if name == "parts":
        return tuple((["/"] if p.startswith("/") else []) + [x for x in p.split("/") if x and p != "."])
    if name in ("stem", "suffix"):
        return posixpath.splitext(base)[0 if name == "stem" else 1]
    if name in ("resolve", "absolute", "expanduser"):
        if not p.startswith("/"):
            raise I.Unsupported("working directory")
        return m(lambda it, a, k: PathStr(os.path.normpath(p)))
    if name in ("as_posix", "__str__", "__fspath__"):
        return m(lambda it, a, k: str(p))
    if name == "joinpath":
        return m(lambda it, a, k: PathStr(clean(os.path.join(str(p), *[one(x) for x in a]))))
    if name == "with_name":
        return m(lambda it, a, k: PathStr(clean(posixpath.join(posixpath.dirname(p), one(a[0])))))
    if name == "with_suffix":
        return m(lambda it, a, k: PathStr(posixpath.splitext(p)[0] + one(a[0])))
    if name == "exists":
        return lib("os.path.exists")
    if name == "is_file":
        return lib("os.path.isfile")
    if name == "is_dir":
        return lib("os.path.isdir")
    if name == "mkdir":
        def mkdir(it, a, k):
            kw = dict(zip(("mode", "parents", "exist_ok"), a), **k)
            f = it.models.get("os.makedirs" if kw.get("parents") is True else "os.mkdir")
            if f is None:
                raise I.Unsupported("mkdir")
            try:
                return it.call(f, [str(p)], {})
            except I.PyExc as e:
                if e.cls is FileExistsError and kw.get("exist_ok") is True:
                    return None
                raise
        return m(mkdir)
    if name == "open":
        return m(lambda it, a, k: it.call(it.builtins["open"], [str(p)] + list(a), k))
    if name == "read_text":
        return m(lambda it, a, k: it.call(it.getattr(it.call(it.builtins["open"], [str(p)], {}), "read"), [], {}))
    if name == "write_text":
        def write(it, a, k):
            f = it.call(it.builtins["open"], [str(p), "w"], {})
            it.call(it.getattr(f, "write"), [a[0]], {})
            return it.call(it.getattr(f, "close"), [], {})
        return m(write)
    if name in ("glob", "rglob", "iterdir", "stat", "unlink", "rename", "replace", "touch", "relative_to", "is_absolute", "match", "write_bytes", "read_bytes", "samefile"):
        raise I.Unsupported(f"Path.{name}")
    import pathlib
    it.no_attr(pathlib.PosixPath, name, f"'PosixPath' object has no attribute {name!r}")


def one(x):
    if not isinstance(x, str):
        raise I.Unsupported("path of an unknown part")
    return str(x)


class PathClass:
    """pathlib.Path itself."""
    name = "Path"

    def abs_call(self, it, a, k):
        if all(isinstance(x, str) for x in a):
            return PathStr(clean(os.path.join(*map(str, a)) if a else "."))
        return it.call_lib(T("ext", "pathlib.Path"), a, k)

    def abs_getattr(self, it, name):
        raise I.Unsupported(f"Path.{name}")


def install(it):
    M = it.models

    def contextmanager(it, a, k):
        if not isinstance(a[0], I.FuncV):
            raise I.Unsupported("contextmanager of a non-function")
        a[0].attrs["__context__"] = True
        return a[0]
    M["contextlib.contextmanager"] = B("contextmanager", contextmanager)
    M["contextlib.suppress"] = B("suppress", lambda it, a, k: SuppressV(list(a)))
    M["contextlib.nullcontext"] = B("nullcontext", lambda it, a, k: NullV(a[0] if a else k.get("enter_result")))
    M["contextlib.closing"] = B("closing", lambda it, a, k: NullV(a[0]))
    for n in ("redirect_stdout", "redirect_stderr"):
        M["contextlib." + n] = B(n, lambda it, a, k: NullV(a[0]))
    M["warnings.catch_warnings"] = B("catch_warnings", lambda it, a, k: NullV([] if k.get("record") else None))
    for n in ("simplefilter", "filterwarnings"):
        M["warnings." + n] = B(n, lambda it, a, k: None)

    # itertools: sequences are finite lists here
    import itertools

    def lists(name, f):
        def g(it, a, k):
            return f(it, [x for x in a], k)
        M["itertools." + name] = B(name, g)

    def comb(fn):
        def f(it, a, k):
            xs = it.iterate(a[0])
            r = a[1] if len(a) > 1 else k.get("r")
            idx = fn(range(len(xs)), r) if r is not None else fn(range(len(xs)))
            return [tuple(xs[i] for i in t) for t in idx]
        return f
    lists("permutations", comb(itertools.permutations))
    lists("combinations", comb(itertools.combinations))
    lists("combinations_with_replacement", comb(itertools.combinations_with_replacement))

    def islice(it, a, k):
        xs = a[0] if isinstance(a[0], (list, tuple)) else it.iterate(a[0])
        if any(isinstance(x, Term) for x in a[1:]):
            raise I.Unsupported("islice with a symbolic bound")
        return list(itertools.islice(xs, *a[1:]))
    lists("islice", islice)

    def zip_longest(it, a, k):
        cols = [it.iterate(x) for x in a]
        n = max([len(c) for c in cols], default=0)
        return [tuple(c[i] if i < len(c) else k.get("fillvalue") for c in cols) for i in range(n)]
    lists("zip_longest", zip_longest)
    lists("starmap", lambda it, a, k: [it.call(a[0], list(it.iterate(x)), {}) for x in it.iterate(a[1])])
    lists("pairwise", lambda it, a, k: (lambda xs: list(zip(xs, xs[1:])))(it.iterate(a[0])))
    lists("filterfalse", lambda it, a, k: [x for x in it.iterate(a[1]) if not (it.truth(it.call(a[0], [x], {})) if a[0] is not None else it.truth(x))])
    lists("compress", lambda it, a, k: [x for x, s in zip(it.iterate(a[0]), it.iterate(a[1])) if it.truth(s)])

    def takewhile(it, a, k):
        out = []
        for x in it.iterate(a[1]):
            if not it.truth(it.call(a[0], [x], {})):
                break
            out.append(x)
        return out
    lists("takewhile", takewhile)

    def dropwhile(it, a, k):
        xs = it.iterate(a[1])
        for i, x in enumerate(xs):
            if not it.truth(it.call(a[0], [x], {})):
                return xs[i:]
        return []
    lists("dropwhile", dropwhile)

    def groupby(it, a, k):
        key = a[1] if len(a) > 1 else k.get("key")
        out = []
        for x in it.iterate(a[0]):
            v = x if key is None else it.call(key, [x], {})
            if out and it.decide_eq(out[-1][0], v):
                out[-1][1].append(x)
            else:
                out.append((v, [x]))
        return out
    lists("groupby", groupby)

    # operator
    def itemgetter(it, a, k):
        keys = list(a)
        return B("itemgetter", lambda it, a2, k2: it.getitem(a2[0], keys[0]) if len(keys) == 1 else tuple(it.getitem(a2[0], x) for x in keys))
    M["operator.itemgetter"] = B("itemgetter", itemgetter)

    def attrgetter(it, a, k):
        def one_(it, x, path):
            for n in path.split("."):
                x = it.getattr(x, n)
            return x
        names = list(a)
        return B("attrgetter", lambda it, a2, k2: one_(it, a2[0], names[0]) if len(names) == 1 else tuple(one_(it, a2[0], n) for n in names))
    M["operator.attrgetter"] = B("attrgetter", attrgetter)
    M["operator.methodcaller"] = B("methodcaller", lambda it, a, k: B("mc", lambda it, a2, k2: it.call(it.getattr(a2[0], a[0]), list(a[1:]), k)))
    M["operator.getitem"] = B("getitem", lambda it, a, k: it.getitem(a[0], a[1]))
    M["operator.setitem"] = B("setitem", lambda it, a, k: it.setitem(a[0], a[1], a[2]))
    M["operator.contains"] = B("contains", lambda it, a, k: it.contains(a[1], a[0]))
    M["operator.not_"] = B("not_", lambda it, a, k: not it.truth(a[0]))
    M["operator.truth"] = B("truth", lambda it, a, k: it.truth(a[0]))
    M["operator.is_"] = B("is_", lambda it, a, k: it.same(a[0], a[1]) if hasattr(it, "same") else a[0] is a[1])
    for nm, op in (("mod", ast.Mod), ("floordiv", ast.FloorDiv), ("and_", ast.BitAnd), ("or_", ast.BitOr), ("matmul", ast.MatMult)):
        M["operator." + nm] = B(nm, lambda it, a, k, op=op: it.binop(op, a[0], a[1]))
    M["operator.neg"] = B("neg", lambda it, a, k: it.binop(ast.Sub, 0, a[0]))

    M["os.fspath"] = B("fspath", lambda it, a, k: str(a[0]) if isinstance(a[0], str) else a[0])
    # pathlib
    path = PathClass()
    for n in ("Path", "PurePath", "PosixPath", "PurePosixPath"):
        M["pathlib." + n] = path
