"""Equation extraction from the bound model and comparison with spec laws.

Every constraint rule (and every variable bound) of a scenario is interpreted
at every time index and at two of the three regions; each trace partition
yields a relation ``p == 0`` or ``p <= 0`` in normal form, or nothing (the
constraint is skipped there).  Spec laws go through the same interpreter.  A
law is discharged when the partitions on which it demands a relation are
covered by partitions on which some constraint imposes an equivalent one, and
a constraint is discharged when its partitions are covered by laws.
"""
import math
import time
from fractions import Fraction

from . import terms as tm
from .terms import T, Term, norm, p_add
from .store import Store, show_atom, Contradiction
from .interp import (FuncV, BoundV, Builtin, PyExc, Unsupported, freeze, substitute, exc_name, InstV)
from . import pyomo_model as pm
from .pyomo_model import call_rule
from .scenario import reg_par, tr_par, path_str

INF = math.inf


class Rel:
    """kind 'eq': p == 0; kind 'le': p <= 0."""

    __slots__ = ("kind", "p", "vars", "key", "head", "text", "_lin")

    def __init__(self, kind, p, head=None, text=""):
        self.kind, self.p, self.head, self.text = kind, p, head, text
        self.vars = frozenset(var_gens(p))
        self.key = None
        self._lin = None

    def __repr__(self):
        return f"{tm.show_poly(self.p)} {'==' if self.kind == 'eq' else '<='} 0"


_VG = {}


def gen_atoms(g):
    """All atom terms (variables and parameters) inside a generator."""
    r = _VG.get(g)
    if r is None:
        r = set()
        k = g[0]
        if k == "A":
            r.add(g[1])
            for x in tm.subterms(g[1]):
                if x.op in ("var", "par"):
                    r.add(x)
        elif k == "P":
            r |= poly_atoms(dict(g[1]))
        elif k == "F":
            for a in g[2:]:
                if a and a[0] == "raw":
                    r |= {x for x in tm.subterms(a[1]) if x.op in ("var", "par", "sym")}
                else:
                    r |= poly_atoms(dict(a))
        _VG[g] = r
    return r


def poly_atoms(p):
    out = set()
    for m in p:
        for g, e in m:
            out |= gen_atoms(g)
            if not isinstance(e, Fraction):
                out |= poly_atoms(dict(e[1]))
    return out


def var_gens(p):
    return {t for t in poly_atoms(p) if t.op == "var"}


def linear_vars(p):
    """Variables v with p = a*v + b, v absent from a and b."""
    cnt = {}
    for m in p:
        for g, e in m:
            if g[0] == "A" and g[1].op == "var" and e == 1 and isinstance(e, Fraction):
                cnt.setdefault(g[1], 0)
            else:
                for t in gen_atoms(g):
                    if t.op == "var":
                        cnt[t] = -1
            if not isinstance(e, Fraction):
                for t in poly_atoms(dict(e[1])):
                    if t.op == "var":
                        cnt[t] = -1
    return [t for t, c in cnt.items() if c == 0]


def split_linear(p, v):
    g = ("A", v)
    a, b = {}, {}
    for m, c in p.items():
        d = dict(m)
        if g in d:
            del d[g]
            mm = tuple((x, e) for x, e in m if x != g)
            a[mm] = c
        else:
            b[m] = c
    return a, b


def positive_gen(g, dom):
    if g[0] in ("E",):
        return True
    if g[0] == "N":
        return g[1] > 0
    if g[0] == "A":
        d = dom(g[1])
        if d is not None and d.kind == "num" and not d.optional and d.lo > 0:
            return True
        return False
    return False


def canon(rel, dom):
    if rel.key is not None:
        return rel.key
    p = rel.p
    try:
        q, fac = tm.clear_pgens(p)
    except tm.Unnormalisable:
        q, fac = p, []
    if rel.kind == "eq":
        if not q:
            rel.key = ("eq", ())
            return rel.key
        c, mono, prim = tm.content(q)
        keep = [(g, Fraction(1) if isinstance(e, Fraction) and e > 0 else e) for g, e in mono if not positive_gen(g, dom)]
        rel.key = ("eq", tm.pkey(tm.p_mul(prim, {tuple(keep): Fraction(1)}) if keep else prim))
        return rel.key
    if fac:
        good = all(positive_gen(g, dom) or (isinstance(e, Fraction) and e % 2 == 0) for g, e in fac)
        if not good:
            q = p
    if not q:
        rel.key = ("le", ())
        return rel.key
    c, mono, prim = tm.content(q)
    keep = []
    for g, e in mono:
        if positive_gen(g, dom) or (isinstance(e, Fraction) and e.denominator == 1 and e % 2 == 0):
            continue
        keep.append((g, e))
    r = tm.p_mul(prim, {tuple(keep): Fraction(1)}) if keep else prim
    rel.key = ("le", 1 if c > 0 else -1, tm.pkey(r))
    return rel.key


# --------------------------------------------------------------------------
# numeric comparison of two normal forms (tie-break only)
# --------------------------------------------------------------------------

TOL = 1e-9


class Val(tm.Valuation):
    def __init__(self, seed, domain=None, defs=None, ints=None):
        super().__init__(seed, domain)
        self.over = {}
        self.defs = defs or {}
        self.busy = set()
        self.ints = ints

    def fork(self):
        v = Val(self.seed, self.domain, self.defs, self.ints)
        v.over = dict(self.over)
        return v

    def gen(self, g):
        if g[0] == "A":
            t = g[1]
            if t in self.over:
                return self.over[t]
            if t.op == "var" and t in self.defs and t not in self.busy:
                self.busy.add(t)
                try:
                    a, b = split_linear(self.defs[t].p, t)
                    av = self.poly(a)
                    if av != 0:
                        v = -self.poly(b) / av
                        self.over[t] = v
                        return v
                finally:
                    self.busy.discard(t)
            x = super().gen(g)
            if self.ints is not None and self.ints(t):
                x = float(round(x))
            return x
        return super().gen(g)


def relmag(val, p):
    a, m = val.poly(p), val.magnitude(p)
    if isinstance(a, complex) or a != a or m != m or m == INF:
        return None
    if m == 0:
        return 0.0
    return a / m


def valdom(dom, seed=0):
    """Sampling interval per atom; several regimes, chosen by the seed."""
    regime = seed % 3
    wild = seed % 4 == 3    # quantities of either sign

    def f(t):
        d = dom(t)
        if d is None or d.kind != "num":
            return None
        lo, hi = d.lo, d.hi
        if t.op == "sym" and t.args[0] == "cfg" and t.args[1] == "time.start":
            return (2005.0, 2035.0) if regime < 2 else (max(lo, 1990.0), min(hi, 2140.0))
        if t.op == "sym" and t.args[0] == "cfg" and t.args[1] == "time.dt":
            return (1.0, 12.0)
        if lo >= 1900 or hi >= 1900 and lo > 1000:
            return (max(lo, 2005.0), min(hi, 2060.0)) if regime < 2 else (max(lo, 1990.0), min(hi, 2200.0))
        if lo > -INF and hi < INF and hi > lo:
            w = hi - lo
            return (lo + 0.21 * w, lo + 0.93 * w) if regime != 1 else (lo + 0.02 * w, lo + 0.35 * w)
        if lo > 1.6:
            return (lo + 0.1, lo + 2)
        if hi < 0.4:
            return (hi - 2, hi - 0.1)
        if wild and lo < 0 and t.op in ("var", "par"):
            return (-2.0, 2.0)
        if regime == 1 and t.op in ("var", "par"):
            return (0.02, 0.6)
        if regime == 2 and t.op in ("var", "par"):
            return (0.8, 4.0)
        return None
    return f


def atom_holds(val, atom, want):
    """Does a path condition hold under a valuation (None: not numeric)?"""
    if atom[0] != "cmp":
        return None
    _, key, op, b = atom
    x = val.poly(dict(key)) - float(b)
    m = max(1.0, abs(float(b)))
    if op == "==":
        h = abs(x) <= 1e-9 * m
    elif op == "<":
        h = x < 0
    else:
        h = x <= 0
    return h == want


def impose(val, atom):
    """Make an equality condition true by solving for one of its atoms."""
    _, key, op, b = atom
    p = dict(key)
    for m in sorted(p, key=tm.mkey):
        for g, e in m:
            if g[0] == "A" and e == 1 and g[1] not in val.over and isinstance(e, Fraction):
                t = g[1]
                if any(x is not m and any(g2 == g for g2, _ in x) for x in p):
                    continue
                a, r = split_linear(p, t)
                av = val.poly(a)
                if av:
                    val.over[t] = (float(b) - val.poly(r)) / av
                    return True
    return False


def linear_in(p, t):
    """Is the polynomial linear in the atom t (and contains it)?"""
    n = 0
    for m in p:
        hits = [(g, e) for g, e in m if g[0] == "A" and g[1] is t or g[0] != "A" and t in tm.subterms((g,))]
        if hits:
            if len(hits) > 1 or hits[0][0][0] != "A" or hits[0][1] != 1:
                return False
            n += 1
    return n > 0


def push(val, cmps, seed, dom):
    """Make the inequality conditions true by moving one of their atoms."""
    bad = [(a, v) for a, v in cmps if a[2] != "==" and atom_holds(val, a, v) is False]
    if not bad:
        return
    cand = []
    for m in sorted(dict(bad[0][0][1]), key=tm.mkey):
        for g, e in m:
            if g[0] == "A" and g[1].op in ("par", "var", "sym") and g[1] not in val.over and g[1] not in cand:
                cand.append(g[1])
    cand.sort(key=lambda t: t.op != "par")
    k = seed % len(cand) if cand else 0
    for t in cand[k:] + cand[:k]:
        d = dom(t)
        num = d is not None and d.kind == "num"
        lo, hi = (float(d.lo), float(d.hi)) if num else (-INF, INF)
        ok = True
        for a, v in cmps:
            p = dict(a[1])
            if a[2] == "==" or not linear_in(p, t):
                continue
            c, r = split_linear(p, t)
            try:
                cv = val.poly(c)
                if not cv:
                    ok = False
                    break
                edge = (float(a[3]) - val.poly(r)) / cv
            except (ArithmeticError, ValueError, TypeError):
                ok = False
                break
            if isinstance(edge, complex) or edge != edge:
                ok = False
                break
            if (cv > 0) == v:
                hi = min(hi, edge)
            else:
                lo = max(lo, edge)
        if not ok or lo > hi:
            continue
        w = (0.05, 0.4, 1.5)[seed % 3]
        if lo == -INF and hi == INF:
            continue
        if lo == -INF:
            lo = hi - 2 * w * max(1.0, abs(hi)) if abs(hi) > 1e-9 else -2 * w
        if hi == INF:
            hi = lo + 2 * w * max(1.0, abs(lo)) if abs(lo) > 1e-9 else 2 * w
        u = 0.15 + 0.7 * ((seed * 7919) % 101) / 101
        x = lo + u * (hi - lo)
        if num and d.integer:
            x = float(round(x))
            if not lo <= x <= hi:
                continue
        val.over[t] = x
        if all(atom_holds(val, a, v) is not False for a, v in bad):
            return
        del val.over[t]


def piecewise(p, out, seen=None):
    """min/max/abs generators inside a normal form."""
    for m in p:
        for g, e in m:
            _pw(g, out)
            if not isinstance(e, Fraction):
                piecewise(dict(e[1]), out)
    return out


def _pw(g, out):
    if g in out:
        return
    if g[0] == "F":
        if g[1] in ("min", "max", "abs"):
            out[g] = None
        for a in g[2:]:
            if not (a and a[0] == "raw"):
                piecewise(dict(a), out)
    elif g[0] == "P":
        piecewise(dict(g[1]), out)


def _sig(val, pw):
    s = []
    for g in pw:
        vals = [val.poly(dict(a)) for a in g[2:] if not (a and a[0] == "raw")]
        if g[1] == "abs":
            s.append(vals[0] > 0)
        else:
            s.append(vals.index(min(vals)))
    return tuple(s)


def samples(polys, atoms, dom, defs=None, want=8, tries=360):
    """Valuations satisfying the path conditions, covering every case of the
    piecewise functions that some try reaches."""
    pw = {}
    for p in polys:
        piecewise(p, pw)
    pw = sorted(pw, key=tm.gkey)
    cmps = [(a, v) for a, v in atoms if a[0] == "cmp"]
    eqs = [a for a, v in cmps if a[2] == "==" and v]

    def ints(t):
        d = dom(t)
        return d is not None and d.kind == "num" and d.integer
    per = {}
    out = []
    limit = tries if (pw or cmps) else want
    for s in range(11, 11 + limit):
        val = Val(s, valdom(dom, s), defs, ints)
        try:
            if not all(impose(val, a) for a in eqs):
                continue
            if not all(atom_holds(val, a, v) is not False for a, v in cmps):
                for _ in range(6):
                    push(val, cmps, s, dom)
                if not all(atom_holds(val, a, v) is not False for a, v in cmps):
                    continue
            sg = _sig(val, pw)
        except (ArithmeticError, ValueError, TypeError, RecursionError):
            continue
        n = per.get(sg, 0)
        if n >= (want if not pw else 4):
            continue
        per[sg] = n + 1
        out.append(val)
        if not pw and len(out) >= want:
            break
        if len(out) >= 40:
            break
    return out


def same_zeros(r1, r2, dom, defs=None, atoms=()):
    """True / False / None(undecided): do both relations say the same thing
    where the path conditions ``atoms`` hold?"""
    if r1.kind != r2.kind:
        return False
    vals = samples([r1.p, r2.p], atoms, dom, defs)
    if len(vals) < 2:
        return None

    def at(val, p):
        try:
            return relmag(val, p)
        except (ArithmeticError, ValueError, TypeError, RecursionError):
            return None

    def zero_to_zero(ra, rb, need=None):
        """Solutions of ra are solutions of rb: (verdict, number of points)."""
        lin = linear_vars(ra.p)
        if need is not None:
            lin = [v for v in lin if v in need]
        if not lin:
            return None, 0
        v = sorted(lin, key=lambda t: (t is not ra.head, t not in rb.vars, tm.show(t)))[0]
        a, b = split_linear(ra.p, v)
        n = 0
        for val in vals:
            try:
                av = val.poly(a)
                if av == 0:
                    continue
                v2 = val.fork()
                v2.over[v] = -val.poly(b) / av
                x = relmag(v2, rb.p)
            except (ArithmeticError, ValueError, TypeError, RecursionError):
                continue
            if x is None:
                continue
            n += 1
            if abs(x) > TOL:
                return False, n
        return (True if n else None), n

    fwd, n1 = zero_to_zero(r1, r2)
    if fwd is False:
        return False
    if r1.kind == "eq":
        back, n2 = zero_to_zero(r2, r1)
        if back is False:
            return False
        if fwd and back:
            return True
        return ratio_same(r1, r2, vals)
    for val in vals:
        x, y = at(val, r1.p), at(val, r2.p)
        if x is None or y is None:
            continue
        if abs(x) > TOL and abs(y) > TOL and (x > 0) != (y > 0):
            return False
        if (abs(x) > 1e-6) != (abs(y) > TOL) and (abs(y) > 1e-6) != (abs(x) > TOL):
            return False
    back, n2 = zero_to_zero(r2, r1)
    if back is False:
        return False
    if fwd and back:
        return True
    return ratio_same(r1, r2, vals)


def ratio_same(r1, r2, vals):
    ratio = None
    n = 0
    for val in vals:
        try:
            x, y = val.poly(r1.p), val.poly(r2.p)
        except (ArithmeticError, ValueError, TypeError, RecursionError):
            continue
        if isinstance(x, complex) or isinstance(y, complex) or x != x or y != y or abs(x) == INF or abs(y) == INF:
            continue
        if x == 0 or y == 0:
            continue
        k = y / x
        n += 1
        if ratio is None:
            ratio = k
        elif abs(k - ratio) > 1e-7 * abs(ratio):
            return None if not linear_vars(r1.p) and not linear_vars(r2.p) else False
    if n < 2:
        return None
    if r1.kind == "le" and ratio < 0:
        return False
    return True


# --------------------------------------------------------------------------
# items
# --------------------------------------------------------------------------


class Item:
    """One partition of one rule instance."""

    __slots__ = ("path", "rel", "src", "idx", "where", "law", "status", "note")

    def __init__(self, path, rel, src, idx, where="", law=None):
        self.path, self.rel, self.src, self.idx, self.where, self.law = path, rel, src, idx, where, law
        self.status = None
        self.note = ""

    def label(self):
        i = "" if not self.idx else "[" + ", ".join(tm.show(x) for x in self.idx) + "]"
        return f"{self.src}{i}"


def show_path(path):
    return " and ".join(show_atom(a, v) for a, v in path) or "always"


def show_idx(idx):
    return "[" + ", ".join(tm.show(x) for x in idx) + "]" if idx else ""


def rels_of(it, v, dom):
    """Normalise the result of a constraint rule into relations."""
    if v is pm.SKIP or v is pm.FEASIBLE:
        return []
    if isinstance(v, Rel):
        return [v]
    if isinstance(v, bool):
        if v:
            raise PyExc(ValueError, ("constraint rule returned True",))
        raise PyExc(ValueError, ("constraint is trivially infeasible",))
    if isinstance(v, tuple) and len(v) == 2:
        return [make_rel("eq", v[0], v[1])]
    if isinstance(v, tuple) and len(v) == 3:
        out = []
        if v[0] is not None:
            out.append(make_rel("le", v[0], v[1]))
        if v[2] is not None:
            out.append(make_rel("le", v[1], v[2]))
        return out
    if isinstance(v, Term) and v.op == "cmp":
        op, a, b = v.args
        if op == "==":
            return [make_rel("eq", a, b)]
        if op == "<=":
            return chain(a, b)
        if op == ">=":
            return chain(b, a)
        if op in ("<", ">"):
            raise PyExc(ValueError, ("strict inequality in a constraint",))
        if op == "!=":
            raise PyExc(ValueError, ("a constraint cannot be a disequality",))
    if v is None:
        raise PyExc(ValueError, ("constraint rule returned None",))
    raise Unsupported(f"constraint expression of unknown form: {tm.show(freeze(v))[:120]}")


def chain(a, b):
    return [make_rel("le", a, b)]


def make_rel(kind, a, b):
    p = p_add(norm(a), norm(b), Fraction(-1))
    head = None
    for x in (a, b):
        if isinstance(x, Term) and x.op == "var":
            head = x
            break
    return Rel(kind, p, head, f"{tm.show(a)} {'==' if kind == 'eq' else '<='} {tm.show(b)}")


class CodeSide:
    """All relations of one scenario's model."""

    def __init__(self, b, sc):
        self.b, self.sc = b, sc
        self.it = b.it
        self.items = []
        self.unknown = []   # (component, idx, reason)
        self.raises = []    # (component, idx, path, exc)
        self.nrules = 0
        self.objective = []

    def indices(self, comp):
        w = self.b.world
        out = [()]
        for s in comp.sets:
            els = s.elements(self.it)
            if s.name == "regions":
                els = list(els)
            out = [o + (e,) for o in out for e in els]
        return out

    def extract(self):
        b, sc, it = self.b, self.sc, self.it
        b.activate(sc)
        m = sc.model
        dom = it.domain_of
        for name, c in list(m.comps.items()):
            if not isinstance(c, pm.Comp):
                continue
            if c.ctype == "Constraint":
                rule = c.kwargs.get("rule", c.kwargs.get("expr"))
                for idx in self.indices(c):
                    self.rule_items(c, rule, idx, lambda v: rels_of(it, v, dom))
            elif c.ctype == "Objective":
                rule = c.kwargs.get("rule", c.kwargs.get("expr"))
                self.nrules += 1
                try:
                    for res, path, st, ev in it.explore(lambda: self.run(rule, m, ()), assume=sc.assume):
                        if res[0] == "ok":
                            self.objective.append((path, c, it_scalar(it, res[1]), c.kwargs.get("sense")))
                        else:
                            self.raises.append((c, (), path, res[1]))
                except Unsupported as e:
                    self.unknown.append((c, (), str(e)))
            elif c.ctype == "Var":
                self.var_bounds(c)
            elif c.ctype == "Param":
                self.param_items(c)
            elif c.ctype in ("Set", "RangeSet", "Expression"):
                pass
            else:
                self.unknown.append((c, (), f"component type {c.ctype}"))
        return self

    def run(self, rule, m, idx):
        return call_rule(self.it, rule, m, idx)

    def rule_items(self, c, rule, idx, conv):
        it, sc = self.it, self.sc
        self.nrules += 1
        try:
            def go():
                v = self.run(rule, sc.model, idx)
                try:
                    return conv(v)
                except tm.NotNumber as e:
                    raise PyExc(TypeError, (str(e),))
            for res, path, st, ev in it.explore(go, assume=sc.assume):
                if res[0] == "ok":
                    for r in res[1]:
                        self.items.append(Item(path, r, c.name, idx, where_of(rule, c)))
                else:
                    self.raises.append((c, idx, path, res[1]))
        except (Unsupported, tm.Unnormalisable, RecursionError) as e:
            self.unknown.append((c, idx, str(e)))

    def param_items(self, c):
        """A parameter whose value cannot be computed breaks the instance."""
        it, sc = self.it, self.sc
        if c.name in sc.bound:
            return
        init = c.kwargs.get("initialize", c.kwargs.get("default", c.kwargs.get("rule")))
        if not isinstance(init, (FuncV, BoundV)):
            return
        for idx in self.indices(c):
            self.nrules += 1
            c._cache = {}
            try:
                for res, path, st, ev in it.explore(lambda: c.param_value(it, idx), assume=sc.assume):
                    if res[0] != "ok":
                        self.raises.append((c, idx, path, res[1]))
            except (Unsupported, tm.Unnormalisable, RecursionError) as e:
                self.unknown.append((c, idx, str(e)))
        c._cache = {}

    def var_bounds(self, c):
        it, sc = self.it, self.sc
        bounds = c.kwargs.get("bounds")
        dom = c.kwargs.get("within", c.kwargs.get("domain"))
        lo, hi = domain_bounds(dom)
        if lo is None and hi is None and bounds is None:
            return

        for idx in self.indices(c):
            v = T("var", c.name, *idx)

            def run():
                out = []
                if lo is not None:
                    out.append(make_rel("le", lo, v))
                if hi is not None:
                    out.append(make_rel("le", v, hi))
                bb = bounds
                bb = call_rule(it, bb, sc.model, idx)
                if isinstance(bb, (tuple, list)) and len(bb) == 2:
                    l, h = [it_scalar(it, x) for x in bb]
                    if l is not None:
                        out.append(make_rel("le", l, v))
                    if h is not None:
                        out.append(make_rel("le", v, h))
                elif bb is not None:
                    raise Unsupported("variable bounds of unknown form")
                return out
            self.rule_items(c, None, idx, lambda _v: run())

    # -- elimination map ------------------------------------------------------

    def defs(self, store):
        """Defining equality per variable, valid on the partition ``store``."""
        return build_defs(self.items, store)


def build_defs(items, store):
    out = {}
    rest = []
    for i in items:
        if i.rel.kind != "eq":
            continue
        if store is not None and not all(store_query(store, a, v) is True for a, v in i.path):
            continue
        if i.rel._lin is None:
            i.rel._lin = linear_vars(i.rel.p)
        h = i.rel.head
        if h is not None and h in i.rel._lin and h not in out:
            out[h] = i.rel
        else:
            rest.append(i.rel)
    for r in rest:
        for v in r._lin:
            if v not in out:
                out[v] = r
                break
    return out


def ground(vs, defs):
    """Do the definitions determine the quantities completely (no cycle)?"""
    state = {}

    def go(v):
        if v in state:
            return state[v]
        state[v] = False
        r = defs.get(v)
        if r is not None:
            state[v] = all(go(w) for w in r.vars if w is not v and w != v)
        return state[v]
    return all(go(v) for v in vs)


def store_query(store, atom, val):
    q = store.query(atom)
    if q is None:
        return None
    return q == val


def it_scalar(it, x):
    x = it.scalar(x)
    return x


def where_of(rule, c):
    w = getattr(rule, "where", None)
    if w is None and isinstance(rule, BoundV):
        w = rule.func.where
    return w or c.where


DOMAINS = {
    "Reals": (None, None), "NonNegativeReals": (0, None), "NonPositiveReals": (None, 0), "PositiveReals": (0, None),
    "NegativeReals": (None, 0), "UnitInterval": (0, 1), "PercentFraction": (0, 1), "Any": (None, None),
}


def domain_bounds(d):
    if d is None:
        return None, None
    if isinstance(d, Term) and d.op == "ext":
        n = d.args[0].split(".")[-1]
        if n in DOMAINS:
            return DOMAINS[n]
    raise Unsupported(f"variable domain {tm.show(freeze(d))}")


# --------------------------------------------------------------------------
# spec side
# --------------------------------------------------------------------------


class SpecModel:
    """The ``s`` object spec laws are written against."""

    def __init__(self, b, sc):
        self.b, self.sc = b, sc

    def truth(self, it):
        return True

    def abs_getattr(self, it, name):
        b, sc, w = self.b, self.sc, self.b.world
        B = lambda fn: Builtin(name, fn)
        if name == "V":
            def V(it, a, k):
                c = sc.model.comps.get(a[0])
                if c is None:
                    raise PyExc(LookupError, (f"the model has no quantity named {a[0]!r}",))
                return c.entry(it, None if len(a) == 1 else (a[1] if len(a) == 2 else tuple(a[1:])))
            return B(V)
        if name == "has":
            return B(lambda it, a, k: a[0] in sc.model.comps)
        if name == "cfg":
            def cfg(it, a, k):
                p = a[0]
                if p not in b.an.leaves:
                    raise PyExc(LookupError, (f"no configuration entry {p!r}",))
                for mk, mp in (("damage", "model.damage module"), ("trade", "model.emissiontrade module"),
                               ("transfer", "model.financialtransfer module"), ("welfare", "model.welfare module"),
                               ("objective", "model.objective module")):
                    if p == mp:
                        return sc.modules[mk]
                return T("sym", "cfg", p)
            return B(cfg)
        if name == "reg":
            return B(lambda it, a, k: reg_par(a[0], a[1], a[2]))
        if name == "data":
            return B(lambda it, a, k: tr_par(a[0], a[1], a[2]))
        if name == "year":
            return B(lambda it, a, k: w.year(it, a[0]))
        if name == "times":
            return list(w.times)
        if name == "regions":
            return list(w.regions)
        if name == "start":
            return w.start
        if name == "dt":
            return w.dt
        if name == "last":
            return w.N
        if name in ("eq", "le", "ge"):
            def rel(it, a, k, name=name):
                l, r = it.scalar(a[0]), it.scalar(a[1])
                if name == "ge":
                    return make_rel("le", r, l)
                return make_rel("eq" if name == "eq" else "le", l, r)
            return B(rel)
        if name in ("exp", "log", "atan", "sqrt"):
            return B(lambda it, a, k: T("fn", name, it.scalar(a[0])))
        if name == "module":
            return B(lambda it, a, k: sc.modules[a[0]])
        if name == "sum":
            def sm(it, a, k):
                import ast
                out = 0
                for x in it.iterate(a[0]):
                    out = it.binop(ast.Add, out, x)
                return out
            return B(sm)
        if name in ("imin", "imax"):
            return B(lambda it, a, k: T("fn", name[1:], *[it.scalar(x) for x in a]))
        raise PyExc(AttributeError, (name,))


class SpecSide:
    def __init__(self, b, sc, laws):
        self.b, self.sc, self.it = b, sc, b.it
        self.items = []
        self.missing = []  # (law, idx, message)
        self.n = 0
        self.errors = []
        s = SpecModel(b, sc)
        w = b.world
        b.activate(sc)
        for law in laws:
            for idx in over(w, law.over):
                self.n += 1
                try:
                    for res, path, st, ev in self.it.explore(lambda: self.it.call(law.fn, [s] + list(idx), {}), assume=sc.assume):
                        if res[0] == "ok":
                            v = res[1]
                            if v is None:
                                continue
                            rels = list(v) if isinstance(v, (list, tuple)) else [v]
                            for r in rels:
                                if not isinstance(r, Rel):
                                    raise Unsupported(f"law {law.name} returned {r!r}")
                                self.items.append(Item(path, r, law.name, idx, "", law))
                        else:
                            e = res[1]
                            self.missing.append((law, idx, path, f"{exc_name(e.cls)}: {' '.join(str(x) for x in e.args_)}" if hasattr(e, "args_") else str(e)))
                except (Unsupported, tm.Unnormalisable, RecursionError) as e:
                    self.errors.append((law, idx, str(e)))


def over(w, spec):
    out = [()]
    for ch in spec:
        els = w.times if ch == "t" else w.regions
        out = [o + (e,) for o in out for e in els]
    return out


class Law:
    def __init__(self, prop, name, over, fn, text=""):
        self.prop, self.name, self.over, self.fn, self.text = prop, name, over, fn, text


# --------------------------------------------------------------------------
# covering
# --------------------------------------------------------------------------


def uncovered(it, assume, path, cands, limit=400):
    """Residual partitions of ``path`` on which none of ``cands`` applies."""
    out = []
    stack = [list(path)]
    n = 0
    while stack:
        p = stack.pop()
        n += 1
        if n > limit:
            out.append((p, None))
            break
        st = Store(it.domain_of)
        try:
            for a, v in list(assume) + p:
                st.assume(a, v)
        except Contradiction:
            continue
        split = None
        hit = False
        for c in cands:
            und = None
            ok = True
            for a, v in c:
                q = st.query(a)
                if q is None:
                    und = und or a
                elif q != v:
                    ok = False
                    break
            if not ok:
                continue
            if und is None:
                hit = True
                break
            if split is None:
                split = und
        if hit:
            continue
        if split is None:
            out.append((p, st))
            continue
        stack.append(p + [(split, True)])
        stack.append(p + [(split, False)])
    return out


class Matcher:
    def __init__(self, b, sc, code, spec):
        self.b, self.sc, self.code, self.spec = b, sc, code, spec
        self.it = b.it
        self.cache = {}
        self.stats = {"canonical": 0, "numeric": 0, "elimination": 0}
        self.maxcand = 24
        self.deadline = None

    def same(self, r1, r2, atoms=()):
        dom = self.it.domain_of
        k1, k2 = canon(r1, dom), canon(r2, dom)
        if k1 == k2:
            return True
        if r1.kind != r2.kind:
            return False
        if not (r1.vars & r2.vars):
            return False if r1.vars or r2.vars else None
        k = (k1, k2, frozenset(a for a in atoms if a[0][0] == "cmp"))
        if k not in self.cache:
            self.cache[k] = same_zeros(r1, r2, dom, None, atoms)
        return self.cache[k]

    def trivially_true(self, r):
        if canon(r, self.it.domain_of)[0:2] in (("eq", ()), ("le", ())):
            return True
        if not r.vars and r.kind == "le":
            st = Store(self.it.domain_of)
            iv = st.poly_iv(r.p)
            return iv.hi <= 0
        return False

    def cover(self, item, others):
        """Residual partitions of ``item`` not covered by equal relations."""
        exact = [o.path for o in others if canon(o.rel, self.it.domain_of) == canon(item.rel, self.it.domain_of)]
        res = uncovered(self.it, self.sc.assume, item.path, exact)
        if not res:
            self.stats["canonical"] += 1
            return []
        cand = [o for o in others if o.rel.kind == item.rel.kind and (o.rel.vars & item.rel.vars)]
        cand.sort(key=lambda o: -len(o.rel.vars & item.rel.vars) / (1 + len(o.rel.vars | item.rel.vars)))
        cand = cand[:self.maxcand]
        left, undec, work, steps = [], [], list(res), 0
        numeric = False
        while work:
            p, st = work.pop()
            steps += 1
            if st is None or steps > 40 or (self.deadline and time.time() > self.deadline):
                left.append((p, st))
                continue
            hit = False
            for o in cand:
                if any(store_query(st, a, v) is False for a, v in o.path):
                    continue
                s = self.same(item.rel, o.rel, list(self.sc.assume) + list(p) + list(o.path))
                if s is True:
                    work.extend(uncovered(self.it, self.sc.assume, p, exact + [o.path]))
                    hit = numeric = True
                    break
                if s is None:
                    undec.append(o.path)
            if not hit:
                left.append((p, st))
        if not left:
            self.stats["numeric"] += 1
            return []
        # implied by the other relations together?
        left2 = [(p, st) for p, st in left if not (st is not None and self.implied(item.rel, others, st, p))]
        if not left2:
            self.stats["elimination"] += 1
            return []
        if undec:
            und2 = []
            for p, st in left2:
                und2 += uncovered(self.it, self.sc.assume, p, exact + undec)
            if not und2:
                item.status = "undecided"
                return []
        return left2

    def implied(self, rel, others, st, path=()):
        defs = build_defs(others, st)
        dom = self.it.domain_of
        n = 0
        if rel.kind == "eq":
            if not any(v in defs for v in rel.vars):
                return False
            for val in samples([rel.p], list(self.sc.assume) + list(path), dom, defs):
                try:
                    x = relmag(val, rel.p)
                except (ArithmeticError, ValueError, TypeError, RecursionError):
                    continue
                if x is None:
                    continue
                n += 1
                if abs(x) > TOL:
                    return False
            return n > 1
        # a consequence of definitions that leave no quantity free
        if rel.vars and ground(rel.vars, defs):
            vals = samples([rel.p], list(self.sc.assume) + list(path), dom, defs)
            try:
                xs = [v.poly(rel.p) for v in vals]
            except (ArithmeticError, ValueError, TypeError, RecursionError):
                xs = []
            if len(xs) > 1 and all(x <= TOL for x in xs):
                return True
        # inequality: look for the same inequality modulo definitions
        for o in others:
            if o.rel.kind != "le":
                continue
            if not all(store_query(st, a, v) is True for a, v in o.path):
                continue
            vals = samples([rel.p, o.rel.p], list(self.sc.assume) + list(path), dom, defs)
            if ratio_same(rel, o.rel, vals) is True:
                return True
        return False
