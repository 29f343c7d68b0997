"""Hash-consed symbolic terms and their algebraic normal form.

Terms are what the abstract interpreter computes for values that are not
compile-time constants.  The normal form is a generalised polynomial: a map
from monomials to rational coefficients, where a monomial maps generators to
exponents and an exponent is itself a normal form (so a**(beta+1) and
a**beta*a meet).  Sums of several terms raised to a non-expandable power are
generators of their own and are cleared again by the zero test.
"""
from fractions import Fraction
import hashlib
import math
import random

_INTERN = {}


class Term:
    __slots__ = ("op", "args", "_h", "uid", "__weakref__")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return self is other

    def __lt__(self, other):
        return self.uid < other.uid

    # A Term must never be used as a Python truth value by the analyser.
    def __bool__(self):
        raise RuntimeError("truth value of a symbolic term taken inside the analyser")


def _k(a):
    if isinstance(a, tuple):
        return ("tup",) + tuple(_k(x) for x in a)
    return (type(a).__name__, a)


def T(op, *args):
    key = (op,) + tuple(_k(a) for a in args)
    t = _INTERN.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t._h = hash(key)
        t.uid = len(_INTERN)
        _INTERN[key] = t
    return t


def sym(name, kind="sym"):
    return T("sym", kind, name)


def is_num(x):
    return isinstance(x, (int, float, Fraction)) and not isinstance(x, bool)


INFIX = {"add": "+", "sub": "-", "mul": "*", "div": "/", "pow": "**", "mod": "%", "floordiv": "//"}


def show(x, depth=0):
    if not isinstance(x, Term):
        if isinstance(x, tuple):
            return "(" + ", ".join(show(a, depth + 1) for a in x) + ")"
        return repr(x)
    if depth > 12:
        return "..."
    s = lambda a: show(a, depth + 1)
    if x.op == "sym":
        k, n = x.args
        return n if k in ("time", "reg", "sym", "in") else f"{k}<{n}>"
    if x.op in ("var", "par"):
        return f"{x.args[0]}[{', '.join(s(a) for a in x.args[1:])}]" if len(x.args) > 1 else x.args[0]
    if x.op in INFIX:
        return "(" + f" {INFIX[x.op]} ".join(s(a) for a in x.args) + ")"
    if x.op == "neg":
        return f"-{s(x.args[0])}"
    if x.op == "cmp":
        return f"{s(x.args[1])} {x.args[0]} {s(x.args[2])}"
    if x.op == "is":
        return f"{s(x.args[0])} is {s(x.args[1])}"
    if x.op == "not":
        return f"not ({s(x.args[0])})"
    if x.op == "attr":
        return f"{s(x.args[0])}.{x.args[1]}"
    if x.op == "item":
        return f"{s(x.args[0])}[{s(x.args[1])}]"
    if x.op == "ext":
        return x.args[0]
    if x.op == "fn":
        return f"{x.args[0]}({', '.join(s(a) for a in x.args[1:])})"
    if x.op == "call":
        f, a, kw = x.args
        parts = [s(v) for v in a] + [f"{k}={s(v)}" for k, v in kw]
        return f"{s(f)}({', '.join(parts)})"
    return f"{x.op}({', '.join(s(a) for a in x.args)})"


def subterms(x, seen=None):
    """All Terms inside x (x may be a term, tuple, list or dict)."""
    if seen is None:
        seen = set()
    stack = [x]
    while stack:
        y = stack.pop()
        if isinstance(y, Term):
            if y in seen:
                continue
            seen.add(y)
            stack.extend(y.args)
        elif isinstance(y, (tuple, list)):
            stack.extend(y)
        elif isinstance(y, dict):
            stack.extend(y.keys())
            stack.extend(y.values())
    return seen


# --------------------------------------------------------------------------
# numbers
# --------------------------------------------------------------------------


def to_frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if x != x or x in (math.inf, -math.inf):
        raise Unnormalisable(f"non-finite constant {x}")
    f = Fraction(repr(x))
    if f.denominator > 10**9:
        g = f.limit_denominator(10**6)
        if g != 0 and abs(g - f) <= abs(f) * Fraction(1, 10**14):
            return g
    return f


class Unnormalisable(Exception):
    pass


class NotNumber(Unnormalisable):
    """A Python value Pyomo cannot use as a number."""


# --------------------------------------------------------------------------
# polynomials with generalised monomials
#   Poly = dict monomial -> Fraction ; monomial = tuple of (gen, exp) sorted
#   gen  = tuple ; exp = Fraction | ("S", polykey)
# --------------------------------------------------------------------------

ONE_M = ()


def p_const(c):
    c = to_frac(c)
    return {ONE_M: c} if c else {}


def p_gen(g, e=Fraction(1)):
    return {((g, e),): Fraction(1)}


def p_add(a, b, k=Fraction(1)):
    out = dict(a)
    for m, c in b.items():
        v = out.get(m, 0) + k * c
        if v:
            out[m] = v
        else:
            out.pop(m, None)
    return out


def p_scale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


_GID = {}


def gid(g):
    i = _GID.get(g)
    if i is None:
        i = _GID[g] = len(_GID)
    return i


def gkey(g):
    # stable ordering key for generators, independent of creation order
    return _gkey(g)


_GK = {}


def _gkey(g):
    k = _GK.get(g)
    if k is None:
        k = _GK[g] = hashlib.md5(show_gen(g).encode()).hexdigest()
    return k


def pkey(p):
    return tuple(sorted(p.items(), key=lambda mc: (mkey(mc[0]), mc[1])))


_MK = {}


def mkey(m):
    k = _MK.get(m)
    if k is None:
        k = _MK[m] = tuple((gkey(g), ekey(e)) for g, e in m)
    return k


def ekey(e):
    if isinstance(e, Fraction):
        return ("0", str(e))
    return ("1", hashlib.md5(show_poly(dict(e[1])).encode()).hexdigest())


def e_poly(e):
    return p_const(e) if isinstance(e, Fraction) else dict(e[1])


def e_make(p):
    if not p:
        return Fraction(0)
    if len(p) == 1 and ONE_M in p:
        return p[ONE_M]
    return ("S", pkey(p))


def e_add(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a + b
    return e_make(p_add(e_poly(a), e_poly(b)))


def e_mul(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a * b
    return e_make(p_mul(e_poly(a), e_poly(b)))


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for g, e in b:
        if g in d:
            s = e_add(d[g], e)
            if s == 0 and isinstance(s, Fraction):
                del d[g]
            else:
                d[g] = s
        else:
            d[g] = e
    return tuple(sorted(d.items(), key=lambda ge: gkey(ge[0])))


def m_pow(m, e):
    out = []
    for g, x in m:
        y = e_mul(x, e)
        if not (isinstance(y, Fraction) and y == 0):
            out.append((g, y))
    return tuple(out)


def p_mul(a, b):
    if len(a) * len(b) > 60000:
        raise Unnormalisable("polynomial too large")
    out = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            v = out.get(m, 0) + c1 * c2
            if v:
                out[m] = v
            else:
                out.pop(m, None)
    return out


def content(p):
    """p = c * mono * prim  with prim primitive (leading coefficient 1)."""
    ms = list(p)
    common = None
    for m in ms:
        d = dict(m)
        if common is None:
            common = d
        else:
            new = {}
            for g, e in common.items():
                if g in d:
                    f = d[g]
                    if e == f:
                        new[g] = e
                    elif isinstance(e, Fraction) and isinstance(f, Fraction):
                        new[g] = min(e, f)
                    # symbolic, different: no common part
                elif isinstance(e, Fraction) and e < 0:
                    new[g] = e
            for g, f in d.items():
                if g not in common and isinstance(f, Fraction) and f < 0:
                    new[g] = f
            common = new
    # generators with negative exponent in some monomial, absent elsewhere
    mono = tuple(
        sorted(((g, e) for g, e in (common or {}).items()), key=lambda ge: gkey(ge[0]))
    )
    inv = m_pow(mono, Fraction(-1))
    q = {m_mul(m, inv): c for m, c in p.items()}
    lead = min(q, key=mkey)
    c = q[lead]
    q = {m: v / c for m, v in q.items()}
    return c, mono, q


def p_pow(p, e):
    """p ** e, e an exponent."""
    if isinstance(e, Fraction):
        if e == 0:
            return p_const(1)
        if e == 1:
            return p
        if not p:
            if e < 0:
                raise Unnormalisable("division by zero")
            return {}
        if e.denominator == 1 and 1 < e <= 6 and len(p) > 1:
            out = p
            for _ in range(int(e) - 1):
                out = p_mul(out, p)
            return out
    if not p:
        raise Unnormalisable("0 ** symbolic")
    c, mono, prim = content(p)
    if len(prim) == 1 and ONE_M in prim:
        base = {}
    else:
        base = None
    res = p_const(1)
    if c != 1:
        if isinstance(e, Fraction) and e.denominator == 1:
            res = p_const(c ** int(e))
        else:
            sign_neg = c < 0
            if isinstance(e, Fraction):
                v = float(abs(c)) ** float(e)
                f = to_frac(v)
                r = abs(c)
                # exact roots only
                n = round(float(r.numerator) ** float(e)) if e > 0 else None
                if not sign_neg and e > 0 and Fraction(n) ** (1 / e) == r.numerator if False else False:
                    res = p_const(f)
                else:
                    res = p_gen(("N", c), e)
            else:
                res = p_gen(("N", c), e)
    res = p_mul(res, {m_pow(mono, e): Fraction(1)})
    if base is None:
        if len(prim) == 1:
            (m, cc), = prim.items()
            res = p_mul(res, {m_pow(m, e): Fraction(1)})
        else:
            res = p_mul(res, p_gen(("P", pkey(prim)), e))
    return res


# --------------------------------------------------------------------------
# Term -> Poly
# --------------------------------------------------------------------------

_NORM = {}
COMMUTATIVE_FNS = {"min", "max"}


def norm(x):
    """Normal form (Poly) of a number or Term."""
    if isinstance(x, (bool, int, float, Fraction)):
        return p_const(x)
    if not isinstance(x, Term):
        if x is None or isinstance(x, (list, dict, str)) or (isinstance(x, tuple) and x[:1] == ("list",)):
            raise NotNumber(f"not a number: {type(x).__name__}")
        raise Unnormalisable(f"not a scalar: {x!r}")
    r = _NORM.get(x)
    if r is None:
        r = _NORM[x] = _norm(x)
    return r


def _norm(x):
    op = x.op
    if op == "add":
        out = {}
        for a in x.args:
            out = p_add(out, norm(a))
        return out
    if op == "sub":
        return p_add(norm(x.args[0]), norm(x.args[1]), Fraction(-1))
    if op == "neg":
        return p_scale(norm(x.args[0]), Fraction(-1))
    if op == "mul":
        return p_mul(norm(x.args[0]), norm(x.args[1]))
    if op == "div":
        return p_mul(norm(x.args[0]), p_pow(norm(x.args[1]), Fraction(-1)))
    if op == "pow":
        return p_pow(norm(x.args[0]), e_make(norm(x.args[1])))
    if op == "fn":
        f = x.args[0]
        if f == "exp":
            e = e_make(norm(x.args[1]))
            if isinstance(e, Fraction) and e == 0:
                return p_const(1)
            return p_gen(("E",), e)
        if f == "sqrt":
            return p_pow(norm(x.args[1]), Fraction(1, 2))
        if f == "log2":
            return p_mul(norm(T("fn", "log", x.args[1])), p_pow(norm(T("fn", "log", 2)), Fraction(-1)))
        if f == "log10":
            return p_mul(norm(T("fn", "log", x.args[1])), p_pow(norm(T("fn", "log", 10)), Fraction(-1)))
        if f == "log":
            a = norm(x.args[1])
            if a == p_const(1):
                return {}
        if f in ("min", "max"):
            flat = []
            for a in x.args[1:]:
                flat.append(pkey(norm(a)))
            flat = sorted(set(flat), key=lambda k: show_poly(dict(k)))
            if len(flat) == 1:
                return dict(flat[0])
            return p_gen(("F", f) + tuple(flat))
        args = []
        for a in x.args[1:]:
            try:
                args.append(pkey(norm(a)))
            except Unnormalisable:
                args.append(("raw", a))
        return p_gen(("F", f) + tuple(args))
    if op == "poly":
        return dict(x.args[0])
    if op in ("var", "par"):
        # canonical indices
        idx = tuple(canon_index(a) for a in x.args[1:])
        return p_gen(("A", T(op, x.args[0], *idx)))
    return p_gen(("A", x))


def canon_index(a):
    if isinstance(a, Term) and a.op in ("add", "sub", "neg", "mul"):
        try:
            return unnorm(norm(a))
        except Unnormalisable:
            return a
    if isinstance(a, float) and a == int(a):
        return int(a)
    return a


def unnorm(p):
    """A canonical Term for a polynomial (used for indices)."""
    items = sorted(p.items(), key=lambda mc: mkey(mc[0]))
    out = None
    const = 0
    for m, c in items:
        if m == ONE_M:
            const = c
            continue
        t = None
        for g, e in m:
            if g[0] != "A" or not isinstance(e, Fraction):
                raise Unnormalisable("index")
            b = g[1] if e == 1 else T("pow", g[1], int(e) if e.denominator == 1 else e)
            t = b if t is None else T("mul", t, b)
        if c != 1:
            t = T("mul", _num(c), t)
        out = t if out is None else T("add", out, t)
    if out is None:
        return _num(const)
    if const:
        out = T("add", out, _num(const))
    return out


def _num(c):
    c = Fraction(c)
    return int(c) if c.denominator == 1 else c


# --------------------------------------------------------------------------
# zero test
# --------------------------------------------------------------------------


def clear_pgens(p, limit=12):
    """Expand every composite generator whose exponents differ by integers.

    Returns (cleared polynomial, list of removed positive/negative factors)
    where p = cleared * prod(P_i ** e_i)."""
    factors = []
    for _ in range(limit):
        target = None
        # choose a composite generator occurring with >=1 monomials
        gens = {}
        for m in p:
            for g, e in m:
                if g[0] == "P":
                    gens.setdefault(g, set()).add(e)
        for g in sorted(gens, key=gkey):
            es = set(gens[g])
            if any(not any(h == g for h, _ in m) for m in p):
                es.add(Fraction(0))
            cls = _classes(es)
            # a generator is worth clearing when some class has several members,
            # or a positive integer power remains to be expanded
            if any(len(c) > 1 for c in cls) or any(
                isinstance(e, Fraction) and e.denominator == 1 and e > 0 for e in es
            ):
                target = (g, cls)
                break
        if target is None:
            return p, factors
        g, cls = target
        prim = dict(g[1])
        if len(cls) == 1:
            mn = cls[0][0][0]
            # factor out the minimum, expand the rest
            out = {}
            for m, c in p.items():
                d = dict(m)
                e = d.pop(g, Fraction(0))
                k = [kk for ee, kk in cls[0] if ee == e][0]
                mm = tuple(sorted(d.items(), key=lambda ge: gkey(ge[0])))
                term = {mm: c}
                for _i in range(k):
                    term = p_mul(term, prim)
                out = p_add(out, term)
            if isinstance(mn, Fraction) and mn.denominator == 1 and mn > 0:
                for _i in range(int(mn)):
                    out = p_mul(out, prim)
            else:
                factors.append((g, mn))
            p = out
        else:
            # several classes: rewrite each to (min class power) * expansion
            out = {}
            for m, c in p.items():
                d = dict(m)
                e = d.pop(g, Fraction(0))
                for cl in cls:
                    hit = [kk for ee, kk in cl if ee == e]
                    if hit:
                        k, mn = hit[0], cl[0][0]
                        break
                if isinstance(mn, Fraction) and mn.denominator == 1 and mn >= 0:
                    k += int(mn)
                    mn = Fraction(0)
                if not (isinstance(mn, Fraction) and mn == 0):
                    d[g] = mn
                mm = tuple(sorted(d.items(), key=lambda ge: gkey(ge[0])))
                term = {mm: c}
                for _i in range(k):
                    term = p_mul(term, prim)
                out = p_add(out, term)
            if out == p:
                return p, factors
            p = out
        if not p:
            return p, factors
    return p, factors


def _classes(es):
    """Group exponents by integer differences -> [[(e, offset), ...], ...]"""
    cls = []
    for e in sorted(es, key=ekey):
        placed = False
        for c in cls:
            diff = e_add(e, e_mul(c[0][0], Fraction(-1)))
            if isinstance(diff, Fraction) and diff.denominator == 1:
                c.append((e, int(diff)))
                placed = True
                break
        if not placed:
            cls.append([(e, 0)])
    out = []
    for c in cls:
        mn = min(k for _, k in c)
        base = [e for e, k in c if k == mn][0]
        out.append(sorted([(e, k - mn) for e, k in c], key=lambda x: x[1]))
    return out


def is_zero(p):
    if not p:
        return True
    q, _ = clear_pgens(p)
    return not q


def equal(a, b):
    return is_zero(p_add(norm(a), norm(b), Fraction(-1)))


# --------------------------------------------------------------------------
# display
# --------------------------------------------------------------------------


def show_gen(g):
    k = g[0]
    if k == "A":
        return show(g[1])
    if k == "E":
        return "e"
    if k == "N":
        return str(g[1])
    if k == "P":
        return "(" + show_poly(dict(g[1])) + ")"
    if k == "F":
        return f"{g[1]}(" + ", ".join(
            show(a[1]) if (a and a[0] == "raw") else show_poly(dict(a)) for a in g[2:]
        ) + ")"
    return str(g)


def show_poly(p):
    if not p:
        return "0"
    parts = []
    for m, c in p.items():
        fs = []
        for g, e in sorted(m, key=lambda ge: show_gen(ge[0])):
            s = show_gen(g)
            if not (isinstance(e, Fraction) and e == 1):
                s += "^" + (str(e) if isinstance(e, Fraction) else "{" + show_poly(dict(e[1])) + "}")
            fs.append(s)
        cs = str(c) if abs(c.denominator) < 10**7 else repr(float(c))
        if not fs:
            parts.append(cs)
        elif c == 1:
            parts.append("*".join(fs))
        else:
            parts.append(cs + "*" + "*".join(fs))
    return " + ".join(sorted(parts))


# --------------------------------------------------------------------------
# numeric valuation of a polynomial (used as a difference witness)
# --------------------------------------------------------------------------


class Valuation:
    def __init__(self, seed, domain=None):
        self.seed = seed
        self.domain = domain or (lambda t: None)
        self.cache = {}

    def atom(self, key, lo=0.35, hi=1.65):
        v = self.cache.get(key)
        if v is None:
            h = hashlib.sha256(f"{self.seed}|{key}".encode()).digest()
            u = int.from_bytes(h[:7], "big") / float(1 << 56)
            v = self.cache[key] = lo + (hi - lo) * u
        return v

    def gen(self, g):
        k = g[0]
        if k == "A":
            d = self.domain(g[1])
            if d is not None:
                return self.atom(show_gen(g), *d)
            return self.atom(show_gen(g))
        if k == "E":
            return math.e
        if k == "N":
            return float(g[1])
        if k == "P":
            return self.poly(dict(g[1]))
        if k == "F":
            vals = [
                self.atom("raw" + show(a[1])) if (a and a[0] == "raw") else self.poly(dict(a))
                for a in g[2:]
            ]
            f = g[1]
            try:
                if f == "log":
                    return math.log(abs(vals[0]) + 1e-300)
                if f == "atan":
                    return math.atan(vals[0])
                if f == "tanh":
                    return math.tanh(vals[0])
                if f == "abs":
                    return abs(vals[0])
                if f == "max":
                    return max(vals)
                if f == "min":
                    return min(vals)
            except (ValueError, OverflowError):
                pass
            s = 0.0
            base = self.atom("fn:" + str(f))
            for i, v in enumerate(vals):
                s += math.atan(v * (1.3 + i) + base * (i + 1)) + 0.21 * v
            return 1.1 + base + 0.5 * s
        raise Unnormalisable(str(g))

    def poly(self, p):
        tot = 0.0
        for m, c in p.items():
            v = float(c)
            for g, e in m:
                b = self.gen(g)
                x = float(e) if isinstance(e, Fraction) else self.poly(dict(e[1]))
                if b < 0 and x != int(x):
                    b = -b
                if b == 0 and x < 0:
                    b = 1e-9
                try:
                    v *= b**x
                except OverflowError:
                    v = math.inf
            tot += v
        return tot

    def magnitude(self, p):
        tot = 0.0
        for m, c in p.items():
            v = abs(float(c))
            for g, e in m:
                b = abs(self.gen(g)) or 1e-9
                x = float(e) if isinstance(e, Fraction) else self.poly(dict(e[1]))
                try:
                    v *= b**x
                except OverflowError:
                    v = math.inf
            tot += v
        return tot


def witness_nonzero(p, seeds=range(1, 6), domain=None):
    """A seed at which p is clearly non-zero, or None."""
    for s in seeds:
        v = Valuation(s, domain)
        try:
            a, b = v.poly(p), v.magnitude(p)
        except (ArithmeticError, ValueError, RecursionError):
            continue
        if isinstance(a, complex) or a != a or b != b or b == math.inf:
            continue
        if abs(a) > 1e-8 * max(b, 1e-12):
            return s, a
    return None
