"""Path facts: what is known about symbolic values on the current trace partition.

Atoms
  ("cmp", famkey, op, bound)   family-polynomial (no constant term) op bound,
                               op in "<" "<=" "=="
  ("isfalse", term)            an optional setting is switched off
  ("eq", term, const)          equality with a non-numeric constant
  ("type", term, tag)          run-time type of an unconstrained input
  ("bool", term)               any other boolean
"""
import math
from fractions import Fraction
from . import terms as tm
from .terms import Term, norm, p_add, ONE_M

INF = math.inf


class Domain:
    """What the configuration schema says about a leaf."""

    __slots__ = ("kind", "lo", "hi", "optional", "enum", "integer", "lo_open", "hi_open")

    def __init__(self, kind, lo=-INF, hi=INF, optional=False, enum=None, integer=False,
                 lo_open=False, hi_open=False):
        self.kind, self.lo, self.hi = kind, lo, hi
        self.optional, self.enum, self.integer = optional, enum, integer
        self.lo_open, self.hi_open = lo_open, hi_open


class Iv:
    __slots__ = ("lo", "lo_open", "hi", "hi_open", "ne")

    def __init__(self, lo=-INF, lo_open=False, hi=INF, hi_open=False, ne=()):
        self.lo, self.lo_open, self.hi, self.hi_open = lo, lo_open, hi, hi_open
        self.ne = frozenset(ne)

    def meet(self, o):
        lo, lop = (self.lo, self.lo_open) if self.lo > o.lo else (o.lo, o.lo_open)
        if self.lo == o.lo:
            lop = self.lo_open or o.lo_open
        hi, hop = (self.hi, self.hi_open) if self.hi < o.hi else (o.hi, o.hi_open)
        if self.hi == o.hi:
            hop = self.hi_open or o.hi_open
        return Iv(lo, lop, hi, hop, self.ne | o.ne)

    def empty(self):
        if self.lo > self.hi:
            return True
        if self.lo == self.hi and (self.lo_open or self.hi_open or self.lo in self.ne):
            return True
        return False

    def shift(self, c):
        return Iv(self.lo + c, self.lo_open, self.hi + c, self.hi_open, {n + c for n in self.ne})

    def scale(self, k):
        if k > 0:
            return Iv(_mul(self.lo, k), self.lo_open, _mul(self.hi, k), self.hi_open, {n * k for n in self.ne})
        return Iv(_mul(self.hi, k), self.hi_open, _mul(self.lo, k), self.lo_open, {n * k for n in self.ne})

    def __repr__(self):
        return f"{'(' if self.lo_open else '['}{self.lo}, {self.hi}{')' if self.hi_open else ']'}" + (
            f" \\ {set(self.ne)}" if self.ne else "")


def _mul(a, k):
    if a in (INF, -INF):
        return a if k > 0 else -a
    if k in (INF, -INF):
        if a == 0:
            return 0
        return k if a > 0 else -k
    return a * k


def iv_add(a, b):
    return Iv(a.lo + b.lo if -INF not in (a.lo, b.lo) else -INF, a.lo_open or b.lo_open,
              a.hi + b.hi if INF not in (a.hi, b.hi) else INF, a.hi_open or b.hi_open)


def iv_mul(a, b):
    c = []
    for x, xo in ((a.lo, a.lo_open), (a.hi, a.hi_open)):
        for y, yo in ((b.lo, b.lo_open), (b.hi, b.hi_open)):
            if (x == 0 and abs(y) == INF) or (y == 0 and abs(x) == INF):
                v = 0
            elif abs(x) == INF or abs(y) == INF:
                v = INF if (x > 0) == (y > 0) else -INF
            else:
                v = x * y
            # zero factor closed at one side keeps the product closed there
            o = (xo or yo)
            if v == 0 and ((x == 0 and not xo) or (y == 0 and not yo)):
                o = False
            c.append((v, o))
    lo = min(v for v, _ in c)
    hi = max(v for v, _ in c)
    lo_open = all(o for v, o in c if v == lo)
    hi_open = all(o for v, o in c if v == hi)
    return Iv(lo, lo_open, hi, hi_open)


class Contradiction(Exception):
    pass


class Store:
    def __init__(self, domain_of):
        self.domain_of = domain_of
        self.iv = {}
        self.bools = {}
        self.eqs = {}  # term -> ("is", const) | ("not", set)
        self.types = {}

    # ---- numeric families -------------------------------------------------

    def gen_iv(self, g):
        if g[0] == "E":
            return Iv(math.e, False, math.e)
        if g[0] == "N":
            return Iv(g[1], False, g[1])
        if g[0] == "F" and g[1] in ("len", "abs"):
            return Iv(0)
        if g[0] == "F" and g[1] in ("soft_min",):
            return Iv(0, True)
        if g[0] == "P":
            return self.poly_iv(dict(g[1]))
        if g[0] != "A":
            return Iv()
        t = g[1]
        out = Iv()
        d = self.domain_of(t)
        if d is not None:
            out = Iv(d.lo, d.lo_open, d.hi, d.hi_open)
        key = ((((g, Fraction(1)),), Fraction(1)),)
        f = self.iv.get(key)
        if f is not None:
            out = out.meet(f)
        return out

    def mono_iv(self, m):
        out = Iv(1, False, 1)
        for g, e in m:
            b = self.gen_iv(g)
            if isinstance(e, Fraction) and e.denominator == 1:
                n = int(e)
                neg = n < 0
                n = abs(n)
                r = Iv(1, False, 1)
                if n % 2 == 0 and b.lo < 0 < b.hi:
                    mx = max(abs(b.lo), abs(b.hi))
                    r = Iv(0, False, mx**n if mx < INF else INF)
                else:
                    for _ in range(n):
                        r = iv_mul(r, b)
                if neg:
                    if r.lo > 0 or (r.lo == 0 and r.lo_open):
                        r = Iv(1 / r.hi if r.hi not in (INF,) else 0, r.hi == INF or r.hi_open,
                               (1 / r.lo) if r.lo > 0 else INF, r.lo_open)
                    elif r.hi < 0 or (r.hi == 0 and r.hi_open):
                        r = Iv(1 / r.hi if r.hi < 0 else -INF, r.hi_open,
                               0 if r.lo == -INF else 1 / r.lo, r.lo == -INF or r.lo_open)
                    else:
                        r = Iv()
            else:
                # real power of a positive base is positive
                if b.lo > 0 or (b.lo == 0):
                    r = Iv(0, b.lo > 0 or b.lo_open)
                else:
                    r = Iv()
            out = iv_mul(out, r)
        return out

    def poly_iv(self, p):
        out = Iv(0, False, 0)
        for m, c in p.items():
            if m == ONE_M:
                out = out.shift(c)
            else:
                out = iv_add(out, self.mono_iv(m).scale(c))
        return out

    def fam_iv(self, key):
        fam = dict(key)
        out = self.poly_iv(fam)
        f = self.iv.get(key)
        if f is not None:
            out = out.meet(f)
        for k2, iv2 in self.iv.items():
            if k2 == key:
                continue
            g = dict(k2)
            if not set(fam) & set(g):
                continue
            # fam = k*g + rest, take k from a shared monomial
            shared = sorted(set(fam) & set(g), key=tm.mkey)[0]
            k = fam[shared] / g[shared]
            rest = p_add(fam, g, -k)
            out = out.meet(iv_add(iv2.scale(k), self.poly_iv(rest)))
        return out

    # ---- querying / assuming ----------------------------------------------

    def query(self, atom):
        """True / False / None (unknown)."""
        kind = atom[0]
        if kind == "cmp":
            _, key, op, b = atom
            iv = self.fam_iv(key)
            if op == "<":
                if iv.hi < b or (iv.hi == b and iv.hi_open):
                    return True
                if iv.lo >= b:
                    return False
            elif op == "<=":
                if iv.hi <= b:
                    return True
                if iv.lo > b or (iv.lo == b and iv.lo_open):
                    return False
            else:
                if iv.lo == iv.hi == b and not iv.empty():
                    return True
                if b < iv.lo or b > iv.hi or (b == iv.lo and iv.lo_open) or (b == iv.hi and iv.hi_open) or b in iv.ne:
                    return False
            return None
        if kind == "isfalse":
            t = atom[1]
            if t in self.bools:
                return self.bools[t] is False if not isinstance(self.bools[t], tuple) else self.bools[t][1]
            d = self.domain_of(t)
            if d is not None and not d.optional and d.kind not in ("bool", "any"):
                return False
            return None
        if kind == "eq":
            _, t, c = atom
            e = self.eqs.get(t)
            if e is not None:
                if e[0] == "is":
                    return e[1] == c and type(e[1]) is type(c) or (e[1] == c and not isinstance(c, str))
                if const_key(c) in e[1]:
                    return False
                if self.types.get(t) == {"bool"} and isinstance(c, (bool, int, float)) and c in (0, 1):
                    if const_key(1 - c) in e[1]:
                        return True
            tg = self.types.get(t)
            if tg is not None:
                ct = type_tag(c)
                if ct not in tg and not (ct in ("bool", "num") and ({"bool", "num"} & tg)):
                    return False
            d = self.domain_of(t)
            if d is not None and d.enum is not None:
                if c not in d.enum and not (c is False and d.optional):
                    return False
                left = [v for v in d.enum if e is None or const_key(v) not in e[1]]
                if len(left) == 1 and not d.optional:
                    return left[0] == c
            return None
        if kind == "type":
            _, t, tag = atom
            tg = self.types.get(t)
            if tg is not None:
                if tag not in tg:
                    return False
                if tg == {tag}:
                    return True
            e = self.eqs.get(t)
            if e is not None and e[0] == "is":
                return type_tag(e[1]) == tag
            return None
        v = self.bools.get(atom[1])
        if isinstance(v, tuple):
            return None
        return v

    def assume(self, atom, val):
        q = self.query(atom)
        if q is not None:
            if q != val:
                raise Contradiction(str(atom))
            return
        kind = atom[0]
        if kind == "cmp":
            _, key, op, b = atom
            cur = self.iv.get(key, Iv())
            if op == "<":
                new = Iv(-INF, False, b, True) if val else Iv(b, False)
            elif op == "<=":
                new = Iv(-INF, False, b, False) if val else Iv(b, True)
            else:
                new = Iv(b, False, b, False) if val else Iv(ne=[b])
            m = cur.meet(new)
            if m.empty():
                raise Contradiction(str(atom))
            self.iv[key] = m
            if self.fam_iv(key).empty():
                raise Contradiction(str(atom))
            # integer tightening for single integer atoms
            items = dict(key)
            if len(items) == 1:
                (mono, c), = items.items()
                if len(mono) == 1 and mono[0][0][0] == "A" and mono[0][1] == 1 and c == 1:
                    d = self.domain_of(mono[0][0][1])
                    if d is not None and d.integer:
                        full = self.fam_iv(key)
                        lo, hi = full.lo, full.hi
                        if lo != -INF:
                            lo = math.floor(lo) + 1 if (full.lo_open or lo != int(lo)) and (full.lo_open and lo == int(lo)) else math.ceil(lo)
                        if hi != INF:
                            hi = math.ceil(hi) - 1 if (full.hi_open and hi == int(hi)) else math.floor(hi)
                        while lo != -INF and lo in full.ne:
                            lo += 1
                        while hi != INF and hi in full.ne:
                            hi -= 1
                        n = Iv(lo, False, hi, False, full.ne)
                        if n.empty():
                            raise Contradiction(str(atom))
                        self.iv[key] = n
        elif kind == "isfalse":
            t = atom[1]
            if val:
                self.bools[t] = False
            else:
                d = self.domain_of(t)
                if d is not None and d.kind == "bool":
                    self.bools[t] = True
                else:
                    self.bools[t] = ("nf", False)
        elif kind == "eq":
            _, t, c = atom
            if val:
                self.eqs[t] = ("is", c)
                if c is False:
                    self.bools[t] = False
                elif c is True:
                    self.bools[t] = True
            else:
                e = self.eqs.get(t, ("not", frozenset()))
                self.eqs[t] = ("not", e[1] | {const_key(c)})
                if self.types.get(t) == {"bool"} and {("num", 0), ("num", 1)} <= self.eqs[t][1]:
                    raise Contradiction(str(atom))
                d = self.domain_of(t)
                if d is not None and d.enum is not None and not d.optional:
                    left = [v for v in d.enum if const_key(v) not in self.eqs[t][1]]
                    if not left:
                        raise Contradiction(str(atom))
        elif kind == "type":
            _, t, tag = atom
            cur = self.types.get(t, ALL_TAGS)
            new = (cur & {tag}) if val else (cur - {tag})
            if not new:
                raise Contradiction(str(atom))
            e = self.eqs.get(t)
            if e is not None and e[0] == "not":
                if new == {"bool"} and {("num", 0), ("num", 1)} <= e[1] or new == {"none"} and const_key(None) in e[1]:
                    raise Contradiction(str(atom))
            self.types[t] = new
        else:
            self.bools[atom[1]] = val

    def known_false(self, t):
        return self.query(("isfalse", t)) is True


ALL_TAGS = frozenset({"dict", "list", "str", "num", "bool", "none", "other"})


def const_key(c):
    """Key under which Python considers constants equal (0 == False == 0.0)."""
    if isinstance(c, (bool, int, float, Fraction)):
        return ("num", c)
    return (type(c).__name__, c)


def type_tag(c):
    if c is None:
        return "none"
    if isinstance(c, bool):
        return "bool"
    if isinstance(c, (int, float, Fraction)):
        return "num"
    if isinstance(c, str):
        return "str"
    if isinstance(c, (list, tuple)):
        return "list"
    if isinstance(c, dict):
        return "dict"
    return "other"


def cmp_atom(op, a, b):
    """Canonical atom and polarity for numeric a op b; or a bool if constant."""
    d = p_add(norm(a), norm(b), Fraction(-1))
    d, _fac = tm.clear_pgens(d) if any(g[0] == "P" for m in d for g, _ in m) else (d, [])
    if _fac:
        # sign of the cleared factor is not tracked: keep the uncleared form
        d = p_add(norm(a), norm(b), Fraction(-1))
    c = d.pop(ONE_M, Fraction(0))
    if not d:
        import operator as o
        return {"<": o.lt, "<=": o.le, ">": o.gt, ">=": o.ge, "==": o.eq, "!=": o.ne}[op](c, 0)
    lead = min(d, key=tm.mkey)
    k = d[lead]
    # primitive scaling: leading coefficient 1
    d = {m: v / k for m, v in d.items()}
    b = -c / k
    if k < 0:
        op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
    key = tm.pkey(d)
    if op == "<":
        return ("cmp", key, "<", b), True
    if op == "<=":
        return ("cmp", key, "<=", b), True
    if op == ">":
        return ("cmp", key, "<=", b), False
    if op == ">=":
        return ("cmp", key, "<", b), False
    if op == "==":
        return ("cmp", key, "==", b), True
    return ("cmp", key, "==", b), False


def show_atom(atom, val=True):
    k = atom[0]
    if k == "cmp":
        s = f"{tm.show_poly(dict(atom[1]))} {atom[2]} {atom[3]}"
    elif k == "isfalse":
        s = f"{tm.show(atom[1])} is False"
    elif k == "eq":
        s = f"{tm.show(atom[1])} == {atom[2]!r}"
    elif k == "type":
        s = f"type({tm.show(atom[1])}) is {atom[2]}"
    else:
        s = tm.show(atom[1])
    return s if val else f"not({s})"
