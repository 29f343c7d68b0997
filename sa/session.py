"""Interpreter session with unit and table models, and comparison by sampling."""
import math
import os
import statistics
import time

from .root import ROOT
from . import frames, laws, terms as tm, unitmodel
from .interp import Interp, PyExc, TooManyPaths, Unsupported, VecV
from .store import show_atom
from .terms import T, Term

VOCAB = {"par", "num", "add", "sub", "mul", "div", "neg", "pow", "fn", "interp", "sym"}


REAL = {"round": lambda x, n=0: round(x, int(n)), "floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "int": int, "rint": round, "value": lambda x: x,
        "sign": lambda x: (x > 0) - (x < 0), "median": lambda *xs: statistics.median(xs)}


class Cell(laws.Val):
    """Valuation of the symbolic cells; spline values by their definition."""

    def __init__(self, seed, lo=-3.0, hi=3.0, tiny=False):
        super().__init__(seed, lambda t: (lo, hi) if seed % 3 or tiny else (0.2, 3.0))
        self.floor = 0.0 if tiny else 1.0

    def gen(self, g):
        if g[0] == "A" and g[1].op == "interp":
            return spline(self, g[1])
        if g[0] == "F" and g[1] in REAL:
            return float(REAL[g[1]](*[self.poly(dict(a)) for a in g[2:]]))
        return super().gen(g)

    def value(self, x):
        if isinstance(x, (int, float)):
            return float(x)
        return self.poly(tm.norm(x))

    def cell(self, *key):
        return self.value(T("par", "cell", *key))


def spline(val, t):
    kind, xs, ys, x = t.args
    return spline_at(kind, xs, [val.value(y) for y in ys[1:]], x)


def spline_at(kind, xs, ys, x):
    from scipy import interpolate as si
    if kind == "CubicSpline":
        return float(si.CubicSpline(xs, ys)(x))
    if kind == "IUS":
        return float(si.InterpolatedUnivariateSpline(xs, ys)(x))
    return float(si.interp1d(xs, ys, kind=int(kind) if kind.isdigit() else kind)(x))


def in_vocabulary(x):
    if isinstance(x, (int, float, str)) or x is None:
        return True
    if isinstance(x, Term):
        if x.op == "fn" and x.args[0] not in ("max", "min", "abs", *REAL):
            return False
        return x.op in VOCAB and all(in_vocabulary(a) for a in x.args)
    if isinstance(x, (tuple, list)):
        x = [a for a in x if not isinstance(a, str)]
        return all(in_vocabulary(a) for a in x)
    return False


class Session:
    def __init__(self, tables=None, root=ROOT, real=False):
        """tables: path suffix -> Frame; with real=True other paths are read from the tree."""
        self.root = root
        self.tables = tables or {}
        self.it = it = Interp(root)
        self.units = unitmodel.install(it)
        frames.install(it, self.source)
        self.real = real
        self.reads = []
        it.hooks["has_path"] = self.has_path

    def has_path(self, path):
        return path in self.tables or os.path.relpath(path, os.path.join(self.root, "mimosa")) in self.tables

    def source(self, path):
        rel = os.path.relpath(path, os.path.join(self.root, "mimosa"))
        self.reads.append(rel)
        for suffix, f in self.tables.items():
            if rel == suffix or path == suffix:
                return f
        if self.real:
            return None
        raise PyExc(FileNotFoundError, (path,))

    def run(self, fn, assume=()):
        it = self.it

        def body():
            it.modules.clear()
            it.steps = 0
            return fn(it)
        it.deadline = time.time() + SHARE[0]
        try:
            yield from it.explore(body, assume=assume)
        finally:
            it.deadline = None


SHARE = [60]      # seconds for one obligation


def partitions(path):
    return "; ".join(show_atom(a, v) for a, v in path)[:500]


TINY = 3e-8


def holds(v, path):
    try:
        return all(a[0] != "cmp" or laws.atom_holds(v, a, w) is not False for a, w in path)
    except Exception:
        return False


def valuations(path, want=6, tiny=False):
    out = []
    bad = [a for a, v in path if a[0] != "cmp"]
    for s in range(1, 200):
        v = Cell(s)
        ok = holds(v, path)
        if ok:
            out.append(v)
            if len(out) >= want:
                break
        elif s > 60 and not out and not bad:
            break
    if not out and not bad:
        for s in range(1, 8):
            v = solved(Cell(s), path)
            if v is not None:
                out.append(v)
    if tiny and not bad:
        for s in range(1, 3):
            v = Cell(s, -TINY, TINY, tiny=True)
            out += [v] if holds(v, path) else []
    return out, bad


def solved(v, path):
    """Moves single cells until every comparison of the partition holds."""
    atoms = [(a, w) for a, w in path if a[0] == "cmp"]

    def ok(a, w):
        try:
            return laws.atom_holds(v, a, w) is not False
        except Exception:
            return False
    done = []
    for a, w in atoms:
        if not ok(a, w):
            b = float(a[3])
            got = False
            for t in sorted(cells_of(a[1]), key=tm.show)[:4]:
                old = v.over.get(t)
                for x in (b, 0.0, b / 2, -b / 2, 0.99 * b, 1.01 * b, 2 * b, -b, -2 * b, b + 1e-3, b - 1e-3, b + 1, b - 1, 1e-12, -1e-12, 1e3, -1e3, 1e9, -1e9):
                    v.over[t] = x
                    if ok(a, w) and all(ok(*d) for d in done):
                        got = True
                        break
                if got:
                    break
                if old is None:
                    v.over.pop(t, None)
                else:
                    v.over[t] = old
            if not got:
                return None
        done.append((a, w))
    return v


def cells_of(poly):
    out = set()

    def go(x):
        if isinstance(x, Term):
            if x.op == "par":
                out.add(x)
            else:
                for y in x.args:
                    go(y)
        elif isinstance(x, (tuple, list, frozenset)):
            for y in x:
                go(y)
        elif isinstance(x, dict):
            for k, y in x.items():
                go(k)
                go(y)
    go(poly)
    return out


def same_number(val, got, want, tol=1e-7):
    a = val.value(got)
    return abs(a - want) <= tol * max(getattr(val, 'floor', 1.0), abs(a), abs(want))


class Report:
    """Collects obligations of one property."""

    def __init__(self, prop):
        self.prop = prop
        self.findings, self.undecided = [], []
        self.n = self.ok = self.parts = 0
        self.functions = set()
        self.samples = []

    def finding(self, label, text, where="", path=""):
        self.findings.append({"kind": "outcome", "prop": self.prop, "props": [self.prop], "key": f"{self.prop}|{label}|{text[:120]}",
                              "text": f"{label}: {text}", "where": where, "scenario": label, "path": path})

    def check(self, label, session, fn, expect, where="", assume=()):
        """expect(result value, partition) -> list of deviations (text) ; or the text 'raises'.

        expect may be the string "raises"."""
        self.n += 1
        if len(self.samples) < 12:
            self.samples.append(label)
        nb = len(self.findings) + len(self.undecided)
        nf = len(self.findings)
        try:
            for res, path, st, ev in session.run(fn, assume):
                self.parts += 1
                txt = partitions(path)
                if res[0] == "raise":
                    if expect == "raises":
                        continue
                    if not all(a[0] == "cmp" for a, v in path):
                        self.undecided.append(f"{label}: rejected on an unmodelled condition {txt[:200]}")
                        continue
                    w = getattr(res[1], "where", "") or where
                    self.finding(label, f"is rejected ({str(res[1])[:160].strip()})", w or where, txt)
                    continue
                if expect == "raises":
                    self.finding(label, "is accepted, must be rejected", where, txt)
                    continue
                for d in expect(res[1], path) or []:
                    if isinstance(d, Undecided):
                        self.undecided.append(f"{label}: {d}")
                    else:
                        self.finding(label, d, where, txt)
                        break
                if len(self.findings) > nf:
                    break
        except (Unsupported, TooManyPaths, tm.Unnormalisable) as e:
            self.undecided.append(f"{label}: {type(e).__name__} {str(e)[:200]}")
        except Exception as e:
            self.undecided.append(f"{label}: internal {type(e).__name__} {str(e)[:200]}")
        self.functions |= session.it.visited
        if len(self.findings) + len(self.undecided) == nb:
            self.ok += 1

    def result(self, explanation, assumptions=(), **more):
        cov = {"explanation": explanation, "obligations": self.n, "discharged": self.ok, "trace partitions": self.parts,
               "functions analysed": sorted(self.functions), "samples": self.samples}
        cov.update(more)
        return {"findings": self.findings, "undecided": self.undecided, "coverage": cov, "assumptions": list(assumptions)}


class Undecided(str):
    pass


def numbers(pairs, path, label=lambda k: str(k), tiny=False):
    """pairs: [(key, got, want(val))]; deviations of numeric results (with ``tiny`` also of very small ones)."""
    vals, bad = valuations(path, tiny=tiny)
    out = []
    if bad:
        return [Undecided("unmodelled condition")]
    if not vals:
        return [Undecided("no sample satisfies the partition")] if path else []
    for k, got, want in pairs:
        if isinstance(got, (str, bool)) or got is None or not isinstance(got, (int, float, Term)):
            out.append(f"{label(k)} is {got!r}, not a number"[:300])
            continue
        for v in vals:
            w = want(v) if callable(want) else want
            try:
                same = same_number(v, got, w)
            except (ArithmeticError, ValueError) as e:
                out.append(Undecided(f"{label(k)}: {e}"))
                break
            if not same:
                t = f"{label(k)} is {v.value(got):.6g} where {w:.6g} is required ({tm.show(got)[:160]})"
                out.append(t if in_vocabulary(got) else Undecided(t))
                break
        if len(out) >= 3:
            break
    return out
