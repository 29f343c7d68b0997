"""D01..D05: input tables -> values of the model."""
import ast
import itertools
import math
import os

from .root import ROOT
from .frames import NAN, Frame
from .interp import Builtin, InstV, PyExc, RangeV, Unsupported, VecV
from .session import Cell, Report, Session, Undecided, numbers, same_number, spline_at, valuations
from .store import show_atom
from .terms import T, Term
from . import terms as tm

DECADES = list(range(2010, 2101, 10))
DS = "mimosa/common/data/datastore.py:DataStore"
RP = "mimosa/common/regional_params/"
# unit text, conversion target, factor; and no conversion requested
UNITS = [("billion US$2005/yr", "currency_unit", 1e-3), ("Mt CO2/yr", "emissionsrate_unit", 1e-3), ("million", "population_unit", 1e-3),
         ("USD2010/tCO2", "currency_unit/emissionsrate_unit", 1.11e-3), ("GtCO2/yr", "emissionsrate_unit", 1.0), ("whatever/yr", None, 1.0)]


def table(file, rows, header=("Model", "Scenario", "Region", "Variable", "Unit"), years=DECADES):
    """rows: (model, scenario, region, variable, unit, tag)"""
    cols = {h: [] for h in header}
    cols.update({str(y): [] for y in years})
    for m, s, r, v, u, tag in rows:
        for h, x in zip(header, (m, s, r, v, u)):
            cols[h].append(x)
        for y in years:
            cols[str(y)].append(symbol(file, tag, y))
    return Frame(cols)


def with_columns(f, names, at):
    cols = list(f.cols.items())
    return Frame(dict(cols[:at] + [(n, [f"{n} {i}" for i in range(f.n)]) for n in names] + cols[at:]))


def source_words(paths):
    """The short texts which the source mentions."""
    out = set()
    for p in paths:
        for d, _, fs in os.walk(p):
            for f in fs:
                if f.endswith(".py"):
                    try:
                        with open(os.path.join(d, f), encoding="utf8") as fh:
                            tree = ast.parse(fh.read())
                    except (OSError, SyntaxError):
                        continue
                    out |= {n.value for n in ast.walk(tree) if isinstance(n, ast.Constant) and isinstance(n.value, str) and 0 < len(n.value) <= 24 and "\n" not in n.value}
    return sorted(out)


FREE = "free "


def symbol(file, tag, y):
    """The cell; tables other than the free ones end in a known growth, to avoid partitions on its sign."""
    if y == 2100 and not tag.startswith(FREE):
        return T("add", T("par", "cell", file, tag, 2090), 1.0 if len(tag) % 2 else -1.0)
    return T("par", "cell", file, tag, y)


def config(regions, variables, time=(2010, 2100, 10), SSP="SSP2"):
    return {"regions": {r: None for r in regions}, "time": {"start": time[0], "end": time[1], "dt": time[2]}, "SSP": SSP,
            "input": {"variables": variables}}


def datastore(it, params):
    return it.call(it.load("mimosa.common.data").env.vars["DataStore"], [params], {})


def read(it, ds, year, region, var):
    return it.scalar(it.call(it.getattr(ds, "interp_data"), [year, region, var], {}))


def var(variable="V", unit=None, scenario="S", model="M", file="inputdata/data/A.csv"):
    d = {"variable": variable, "scenario": scenario, "model": model, "file": file}
    if unit:
        d["unit"] = unit
    return d


def extended(cells):
    """Values 2010..2250 from the ten decades: growth rate fading linearly to zero in 2150."""
    rate = (cells[-1] - cells[-2]) / 10.0
    out = list(cells)
    for t in range(2110, 2260, 10):
        left = max(0.0, 1.0 - (t - 10 - 2100) / 50.0)
        out.append(out[-1] + rate * left * 10.0)
    return out


XS = [float(y) for y in range(2010, 2260, 10)]


def expected(v, file, tag, year, f=1.0):
    ys = extended([f * v.value(symbol(file, tag, y)) for y in DECADES])
    for x, y in zip(XS, ys):
        if abs(x - year) < 1e-9:
            return y
    return spline_at("cubic", XS, ys, year)


def want(file, tag, year, f=1.0):
    return lambda v: expected(v, file, tag, year, f)


# ------------------------------------------------------------------ D01

def selection(prop, tier, root=ROOT):
    rep = Report(prop)
    models, scens, regs, vars_ = ("M", "M2", "m"), ("SSP2-Ref", "SSP2-Ref-x", "SSP1-Ref"), ("USA", "US", "BRA", "BRA2"), ("GDP|PPP", "GDP", "GDP|PPP|X", "gdp|ppp")
    files = ("inputdata/data/A.csv", "inputdata/data/B.csv", "inputdata/other/A.csv")
    combos = list(itertools.product(models, scens, regs, vars_))
    rows = [(m, s, r, v, "GtCO2", f"{m}/{s}/{r}/{v}") for m, s, r, v in combos]
    rows = rows[7:] + rows[:7]
    tabs = {f: table(f, rows) for f in files}
    s = Session(tabs, root)
    pick = [(m, sc, v, f) for m, sc, v, f in itertools.product(models[:2], scens, vars_[:3], files)]
    regions = ["USA", "BRA", "US#", "BRA2#"]
    for m, sc, v, f in pick:
        vs = {"a": var(v, "emissions_unit", sc, m, f)}

        def fn(it):
            ds = datastore(it, config(regions, vs, (2010, 2040, 10)))
            return [(y, r, read(it, ds, y, r, "a")) for y in (2010, 2020, 2040) for r in regions]
        rep.check(f"series {v!r} of {m!r}, {sc!r} in {f!r}", s, fn, lambda res, p: numbers(
            [((y, r), x, want(f, f"{m}/{sc}/{r.rstrip('#')}/{v}", y)) for y, r, x in res], p), DS)
    # several series at once
    many = {f"v{i}": var(v, "emissions_unit", sc, m, f) for i, (m, sc, v, f) in enumerate(pick[:: max(1, len(pick) // 6)])}

    def fn(it):
        ds = datastore(it, config(regions, many, (2010, 2040, 10)))
        return [(k, y, r, read(it, ds, y, r, k)) for k in many for y in (2010, 2040) for r in regions]
    rep.check(f"{len(many)} series in one store", s, fn, lambda res, p: numbers(
        [((k, y, r), x, want(many[k]["file"], "/".join((many[k]["model"], many[k]["scenario"], r.rstrip("#"), many[k]["variable"])), y)) for k, y, r, x in res], p), DS)
    # absent rows
    A = files[0]
    base = dict(variable="GDP|PPP", unit="emissions_unit", scenario="SSP2-Ref", model="M", file=A)
    for k, bad in (("model", "M3"), ("model", "IMAGE"), ("scenario", "SSP9"), ("scenario", "SSP2"), ("variable", "GDP|MER"), ("variable", "Population"),
                   ("file", "inputdata/data/none.csv"), ("model", "*"), ("variable", "GDP.PPP")):
        vs = {"a": var(**{**base, k: bad})}
        rep.check(f"no row for {k} {bad!r}", s, lambda it: datastore(it, config(["USA"], vs)), "raises", DS)
    for r in ("CAN", "usa", "USA2", "USA##"):
        rep.check(f"no row for region {r!r}", s, lambda it: datastore(it, config(["USA", r], {"a": var(**base)})), "raises", DS)
    # duplicate rows
    dup = {A: table(A, rows + [("M", "SSP2-Ref", "USA", "GDP|PPP", "GtCO2", "copy")])}
    s2 = Session(dup, root)
    rep.check("two rows for one series", s2, lambda it: datastore(it, config(["USA"], {"a": var(**base)})), "raises", DS)
    rep.check("two rows for one series, first region unaffected", s2, lambda it: datastore(it, config(["BRA", "USA"], {"a": var(**base)})), "raises", DS)
    # the same row twice, cell by cell
    for n in (2, 3):
        s2 = Session({A: table(A, rows + [("M", "SSP2-Ref", "USA", "GDP|PPP", "GtCO2", "M/SSP2-Ref/USA/GDP|PPP")] * (n - 1))}, root)
        rep.check(f"the same row {n} times", s2, lambda it: datastore(it, config(["USA"], {"a": var(**base)})), "raises", DS)
    # rows which are nearly the requested one, and rows under the words of the source: none of them may stand in
    key = dict(zip(("model", "scenario", "region", "variable"), ("M", "SSP2-Ref", "USA", "GDP|PPP")))
    words = [w for w in source_words([os.path.join(root, "mimosa/common/data")]) if w.strip()]
    for col, w in key.items():
        close = [x for x in dict.fromkeys([w.lower(), w.upper(), w.swapcase(), w.title(), " " + w, w + " ", w + w, w[:-1], w + "#", w + ".0", "", "*", NAN]
                                          + (["World", "Global", "Total", "GLO", "R1"] if col == "region" else [])) if x != w]
        other = [x for x in words if x != w and x not in close]
        tb = {A: table(A, [tuple({**key, col: x}.values()) + ("GtCO2", f"{col}/{n}") for n, x in enumerate(close + other)])}
        s2 = Session(tb, root)
        rep.check(f"no row for the {col}, only near ones", s2, lambda it: datastore(it, config([key["region"]], {"a": var(key["variable"], "emissions_unit", key["scenario"], key["model"], A)})), "raises", DS)
        tb = {A: table(A, [tuple({**key, col: x}.values()) + ("GtCO2", f"{col}/{n}") for n, x in enumerate(close + [w] + other)])}

        def fn(it):
            ds = datastore(it, config([key["region"]], {"a": var(key["variable"], "emissions_unit", key["scenario"], key["model"], A)}, (2010, 2040, 10)))
            return [(y, read(it, ds, y, key["region"], "a")) for y in (2010, 2040)]
        rep.check(f"the row of the {col} among near ones", Session(tb, root), fn, lambda res, p: numbers(
            [(y, x, want(A, f"{col}/{len(close)}", y)) for y, x in res], p), DS)
    dup = {A: table(A, [("M", "SSP2-Ref", "USA", "GDP|PPP", u, "copy" + u) for u in ("GtCO2", "MtCO2")])}
    rep.check("two rows for one series in different units", Session(dup, root), lambda it: datastore(it, config(["USA"], {"a": var(**base)})), "raises", DS)
    # lower-case and reordered headers, additional columns
    hd = ("model", "scenario", "region", "variable", "unit")
    lower = {A: table(A, rows, hd)}
    perm = {A: table(A, [(r, v, u, m, sc, tag) for m, sc, r, v, u, tag in rows], ("Region", "Variable", "Unit", "Model", "Scenario"))}
    more = {A: with_columns(table(A, rows), ["Notes", "Source"], 2)}
    last = {A: with_columns(table(A, rows), ["Notes"], 5)}
    front = {A: with_columns(table(A, rows), ["id"], 0)}
    for nm, tb in (("lower-case header", lower), ("reordered columns", perm), ("further label columns", more), ("a further column before the years", last),
                   ("a further first column", front)):
        def fn(it):
            ds = datastore(it, config(["USA", "BRA#"], {"a": var(**base)}, (2010, 2040, 10)))
            return [(y, r, read(it, ds, y, r, "a")) for y in (2010, 2040) for r in ("USA", "BRA#")]
        rep.check(f"table with {nm}", Session(tb, root), fn, lambda res, p: numbers(
            [((y, r), x, want(A, f"M/SSP2-Ref/{r.rstrip('#')}/GDP|PPP", y)) for y, r, x in res], p), DS)
    return rep.result("The data store is interpreted abstractly on generic tables whose cells are distinct symbols and whose labels include near misses "
                      "(prefixes, suffixes, case); every value read at a table year must be the symbol of exactly the requested row, and requests "
                      "matching no row or several rows must be rejected.", ASSUME, **{"rows per generic table": len(rows)})


ASSUME = ["pandas, NumPy and SciPy are modelled by their documented meaning; splines are compared by evaluation at sample points.",
          "Tables have the shipped columns (five labels and the decades 2010-2100)."]
GRIDS = [(2010, 2200, 10), (2020, 2150, 5), (2015, 2103, 7.5), (2020, 2100, 1), (2012, 2110, 2), (2020, 2100, 20), (2030, 2160, 0.5), (2099, 2199, 12.5)]


def model_years(g):
    n = math.ceil((g[1] - g[0]) / g[2]) + 1
    return [g[0] + i * g[2] for i in range(n)]


# ------------------------------------------------------------------ D02

def series(prop, tier, root=ROOT):
    rep = Report(prop)
    A = "inputdata/data/A.csv"
    s = Session({A: table(A, [("M", "S", "R1", f"V{i}", u, f"{FREE}V{i}") for i, (u, t, f) in enumerate(UNITS)] +
                          [("M", "S", "R2", f"V{i}", u, f"{FREE}W{i}") for i, (u, t, f) in enumerate(UNITS)])}, root)
    for g in GRIDS:
        ys = model_years(g)
        if tier == "quick" and len(ys) > 40:
            ys = ys[:: len(ys) // 20] + ys[-2:]
        for i, (u, t, f) in enumerate(UNITS):
            if tier == "quick" and g is not GRIDS[0] and i not in (0, 5):
                continue

            def fn(it):
                ds = datastore(it, config(["R1", "R2"], {"a": var(f"V{i}", t)}, g))
                return [(y, r, read(it, ds, y, r, "a")) for y in ys for r in ("R1", "R2")]
            rep.check(f"series in {u!r} converted to {t!r}, years {g[0]}-{g[1]} step {g[2]}", s, fn, lambda res, p: numbers(
                [((y, r), x, want(A, f"{FREE}{'V' if r == 'R1' else 'W'}{i}", y, f)) for y, r, x in res], p, tiny=True), DS)
    for u, t in (("billion US$2005/yr", "emissionsrate_unit"), ("Mt CO2/yr", "currency_unit"), ("million", "emissionsrate_unit"), ("Mt CO2/yr", "emissions_unit"),
                 ("notaunit", "emissions_unit"), ("", "emissions_unit")):
        sb = Session({A: table(A, [("M", "S", "R1", "V", u, "V")])}, root)
        rep.check(f"series in {u!r} converted to {t!r}", sb, lambda it: datastore(it, config(["R1"], {"a": var("V", t)})), "raises", DS)
    for g in ((2000, 2100, 10), (2009, 2100, 5), (2020, 2290, 5), (2020, 2300, 10)):
        rep.check(f"years {g[0]}-{g[1]} step {g[2]} outside the data", s, lambda it: datastore(it, config(["R1"], {"a": var("V0", "currency_unit")}, g)), "raises", DS)
    return rep.result("Each generic series (symbolic cells) is followed through unit conversion, extension beyond 2100 and interpolation for several time grids; "
                      "the resulting expressions must equal the reference: exact factor, decade growth rate fading linearly to zero in 2150, spline through "
                      "all decades 2010-2250, on both signs of the growth rate.", ASSUME, **{"time grids": [list(g) for g in GRIDS]})


# ------------------------------------------------------------------ D03

class ParamStub:
    def __init__(self, name, doc):
        self.name, self.doc = name, doc

    def abs_getattr(self, it, name):
        if name in ("name", "local_name"):
            return self.name
        if name == "doc":
            return self.doc
        raise Unsupported(f"parameter attribute {name}")


class AbstractStub:
    """An abstract model which has the given parameters and records its instantiation."""

    def __init__(self, params):
        self.params, self.attrs, self.data = params, {}, None

    def abs_getattr(self, it, name):
        if name == "component_objects":
            return Builtin(name, lambda it, a, k: list(self.params))
        if name == "component_map":
            return Builtin(name, lambda it, a, k: {p.name: p for p in self.params})
        if name == "create_instance":
            def create(it, a, k):
                self.data = a[0] if a else k.get("data")
                return self
            return Builtin(name, create)
        if name in self.attrs:
            return self.attrs[name]
        raise Unsupported(f"abstract model attribute {name}")

    def abs_setattr(self, it, name, v):
        self.attrs[name] = v


TIMES = GRIDS + [(2020, 2101, 3), (2020, 2100, 0.7), (2025, 2026, 20), (2020, 2020, 5), (2100, 2200, 5), (1990, 2150, 7), (2105, 2160, 5), (2020, 2150, 20)]


def grid(prop, tier, root=ROOT):
    rep = Report(prop)
    s = Session({}, root)
    W = "mimosa/concrete_model/instantiate_params.py:InstantiatedModel"

    class Obj:
        def __init__(self, **kw):
            self.kw = kw

        def abs_getattr(self, it, name):
            if name in self.kw:
                return self.kw[name]
            raise Unsupported(f"attribute {name!r} of a stand-in")

    def make(it, g, regions, params_extra=None, stubs=()):
        params = {"model": {"damage module": "nodamage"}, "time": {"start": g[0], "end": g[1], "dt": g[2]}, "regions": {r: None for r in regions},
                  "simulation": {}, **(params_extra or {})}
        stubs = [ParamStub("pop", "timeandregional::population"), ParamStub("gdpx", "timeandregional::GDP")] + list(stubs)
        am = AbstractStub(stubs)
        ds = Obj(params=params, interp_data=Builtin("interp_data", lambda it, a, k: T("par", "data", *[x if not isinstance(x, float) else x for x in a])))
        rp = Obj(params=params, param_parser_tree={}, get=Builtin("get", lambda it, a, k: {r: T("par", "regional", *a, r) for r in regions}),
                 getregional=Builtin("getregional", lambda it, a, k: T("par", "regional", *a)))
        cls = it.load("mimosa.concrete_model.instantiate_params").env.vars["InstantiatedModel"]
        it.call(cls, [am, rp, ds], {})
        if not isinstance(am.data, dict):
            raise Unsupported("no instance data")
        d = am.data[None] if None in am.data else am.data
        yr = am.attrs.get("year")
        n = d["t"][None] if isinstance(d["t"], dict) else d["t"]
        steps = list(it.iterate(n))
        return d, steps, [it.scalar(it.call(yr, [t], {})) for t in steps]

    def scalar(x):
        return x.get(None) if isinstance(x, dict) else x
    for g in TIMES:
        regions = ["R2", "R10", "R1"]
        ys = model_years(g)

        def expect(res, p):
            d, steps, years = res
            out = []
            if [int(x) if float(x).is_integer() else x for x in steps] != list(range(len(ys))):
                out.append(f"the time steps are {steps[:3]}..{steps[-1:]} ({len(steps)}), must be 0..{len(ys) - 1}")
                return out
            for t, y, w in zip(steps, years, ys):
                if not isinstance(y, (int, float)) or abs(y - w) > 1e-9 * w:
                    out.append(f"step {t} is the year {y}, must be {w}")
                    break
            for name, w in (("tf", len(ys) - 1), ("dt", g[2]), ("beginyear", g[0])):
                if name in d and scalar(d[name]) != w:
                    out.append(f"{name} is {scalar(d[name])}, must be {w}")
            if "year2100" in d:
                k = scalar(d["year2100"])
                w = math.trunc((2100 - g[0]) / g[2])
                if k != w:
                    out.append(f"the index of 2100 is {k}, must be {w}")
            rs = d["regions"]
            rs = rs[None] if isinstance(rs, dict) and None in rs else rs
            if list(rs) != regions:
                out.append(f"the regions are {list(rs)}")
            for name, series_ in (("pop", "population"), ("gdpx", "GDP")):
                v = d.get(name)
                if not isinstance(v, dict):
                    out.append(Undecided(f"{name} is not a dictionary"))
                    continue
                for t, y in zip(range(len(ys)), ys):
                    for r in regions:
                        x = v.get((t, r))
                        ok = isinstance(x, Term) and x.op == "par" and x.args[0] == "data" and x.args[2:] == (r, series_) and abs(x.args[1] - y) < 1e-9 * y
                        if not ok:
                            out.append(f"{series_} of {r} at step {t} is {tm.show(x) if isinstance(x, Term) else x}, must be the series at {y}")
                            return out
                if len(v) != len(ys) * len(regions):
                    out.append(f"{series_} has {len(v)} values, must have {len(ys) * len(regions)}")
            return out
        rep.check(f"time grid {g[0]}-{g[1]} step {g[2]}", s, lambda it: make(it, g, regions), expect, W)

    def mapped(names):
        g, regions = (2020, 2040, 10), ["R2", "R1"]
        own = {n: {None: T("par", "cell", "own", n)} if n == "free" else {(t, r): T("par", "cell", "own", n, t, r) for t in range(3) for r in regions} for n in names}

        def expect(res, p):
            d = res[0]
            out = []
            for n, series_ in (("pop", "population"), ("gdpx", "GDP"), ("free", None)):
                v = d.get(n)
                if n in own:
                    if v != own[n] and (not isinstance(v, dict) or any(scalar(v.get(k)) != x for k, x in own[n].items())):
                        out.append(f"the mapped parameter {n} has the values {str(v)[:60]}, must have those of the mapping")
                elif series_ is None:
                    if v is not None:
                        out.append(f"{n} has a value without being mapped")
                elif not isinstance(v, dict) or any(not isinstance(x, Term) or x.args[0] != "data" or x.args[3] != series_ for x in v.values()) or len(v) != 6:
                    out.append(f"{n}, which the mapping does not name, does not have the values of its series")
            return out
        rep.check(f"custom mapping of {' and '.join(names) or 'nothing'}", s, lambda it: make(it, g, regions, {"simulation": {"custom_mapping": {k: dict(v) for k, v in own.items()}}}), expect, W)
    for names in ((), ("pop",), ("gdpx", "free"), ("free",), ("pop", "gdpx")):
        mapped(names)
    return rep.result("The instantiation is interpreted for a set of time grids with a stub of the abstract model: number of steps, year of each step, "
                      "regions, and, for every step and region, the year at which each data series is read, against the documented grid.",
                      ["The data store is a stub which returns the request (series, region, year) as a symbol."], **{"time grids": [list(g) for g in TIMES]})


# ------------------------------------------------------------------ D04

def history(prop, tier, root=ROOT):
    rep = Report(prop)
    A, B, C = "inputdata/data/A.csv", "inputdata/data/B.csv", "inputdata/other/A.csv"
    rows = [(m, f"{ssp}-Ref", r, v, u, f"{m}/{ssp}/{r}/{v}") for m in ("M", "M2", "m") for ssp in ("SSP1", "SSP2", "ssp1") for r in ("R1", "R2", "R3", "r1")
            for v, u in (("GDP", "billion US$2005/yr"), ("CO2", "Mt CO2/yr"), ("co2", "Mt CO2/yr"))]
    s = Session({f: table(f, rows) for f in (A, B, C, "inputdata/data/a.csv")}, root)

    def cfg(ssp="SSP1", m="M", file=A, unit="emissionsrate_unit", g=(2020, 2040, 10), regions=("R1", "R2"), variable="CO2", f=1e-3):
        return dict(params=config(list(regions), {"x": var(variable, unit, f"{ssp}-Ref", m, file)}, g, ssp), ssp=ssp, m=m, file=file, f=f, g=g, regions=regions, v=variable)
    variants = {
        "the same configuration": cfg(), "another SSP": cfg(ssp="SSP2"), "another source model": cfg(m="M2"), "another file": cfg(file=B),
        "a file of the same name elsewhere": cfg(file=C), "another unit": cfg(unit="MtCO2/yr", f=1.0), "no unit": cfg(unit=None, f=1.0),
        "another time step": cfg(g=(2020, 2040, 5)), "another start year": cfg(g=(2030, 2060, 10)), "another end year": cfg(g=(2020, 2120, 10)),
        "other regions": cfg(regions=("R2", "R3")), "one region": cfg(regions=("R3",)), "regions renamed with '#'": cfg(regions=("R1#", "R2#")),
        "another variable": cfg(variable="GDP", unit="currency_unit"),
        "a model differing in case": cfg(m="m"), "a variable differing in case": cfg(variable="co2"), "a file differing in case": cfg(file="inputdata/data/a.csv"),
        "a region differing in case": cfg(regions=("r1", "R2")), "a scenario differing in case": cfg(ssp="ssp1"),
        "another SSP, unit and step": cfg(ssp="SSP2", unit="MtCO2/yr", f=1.0, g=(2020, 2040, 5)),
    }

    def values(it, ds, c):
        return [(y, r, read(it, ds, y, r, "x")) for y in model_years(c["g"]) for r in c["regions"]]

    def pairs(res, c, who):
        return [((who, y, r), x, want(c["file"], f"{c['m']}/{c['ssp']}/{r.rstrip('#')}/{c['v']}", y, c["f"])) for y, r, x in res]
    first = variants["the same configuration"]
    combos = [(first, n, c) for n, c in variants.items()] + [(c, n + ", reversed", first) for n, c in variants.items()][1:]
    if tier == "thorough":
        combos += [(a, f"{na} then {nb}", b) for (na, a), (nb, b) in itertools.permutations(variants.items(), 2)]
    for c1, n, c2 in combos:
        def fn(it):
            d1 = datastore(it, c1["params"])
            v1 = values(it, d1, c1)
            d2 = datastore(it, c2["params"])
            v2 = values(it, d2, c2)
            v1b = values(it, d1, c1)
            d3 = datastore(it, c1["params"])
            return v1, v2, v1b, values(it, d3, c1)
        rep.check(f"data of a model, then of one with {n}", s, fn, lambda res, p: numbers(
            pairs(res[0], c1, "first") + pairs(res[1], c2, "second") + pairs(res[2], c1, "first, read again") + pairs(res[3], c1, "third (as first)"), p), DS)
    # a failed construction in between
    bad = config(["R1", "RX"], {"x": var("CO2", "emissionsrate_unit", "SSP1-Ref", "M", A)}, (2020, 2040, 10))
    for n, badp in (("an unknown region", bad), ("an unknown unit", cfg(unit="notaunit")["params"]), ("an incompatible unit", cfg(unit="currency_unit")["params"])):
        def fn(it):
            failed = 0
            try:
                datastore(it, badp)
            except PyExc:
                failed = 1
            d = datastore(it, first["params"])
            return failed, values(it, d, first)
        rep.check(f"a model rejected for {n}, then a valid one", s, fn, lambda res, p: ([] if res[0] else ["the invalid one is accepted"]) + numbers(
            pairs(res[1], first, "second"), p), DS)
    # regional parameters
    tabs = regional_tables()
    s2 = Session(tabs, root)
    P1, P2 = regional_params("T1"), regional_params("T2")
    P3 = regional_params("T1", over={"R1": {"cat": {"a": T("par", "over", "R1")}}})
    P4 = regional_params("T1", swap=True)
    vs = {"T1": P1, "T2": P2, "overrides": P3, "another table": P4}
    for (na, a), (nb, b) in itertools.permutations(vs.items(), 2):
        def fn(it):
            o1 = regional(it, a)
            x1 = regional_values(it, o1, a)
            o2 = regional(it, b)
            x2 = regional_values(it, o2, b)
            return x1, x2, regional_values(it, o1, a)
        rep.check(f"regional parameters with {na}, then with {nb}", s2, fn, lambda res, p: numbers(
            regional_pairs(res[0], a) + regional_pairs(res[1], b) + regional_pairs(res[2], a), p), RP)
    return rep.result("Sequences of two and three models created in one process are interpreted, class-level caches included; every later model must read the values "
                      "a fresh process would read (the reference of the series and regional properties), also after a rejected model, and reading again "
                      "gives the same values.", ASSUME)


# ------------------------------------------------------------------ D05

def regional_tables():
    c = lambda tag, r: T("par", "cell", tag, r)
    r1 = ["R1", "R2", "R3", "R4"]
    r2 = ["Q2", "Q1"]
    return {
        "p/one.csv": Frame({"region": list(r1), "a": [c("one.a", r) for r in r1], "ab": [c("one.ab", r) for r in r1], "form": ["lin", "quad", "lin", "quad"],
                            "k": [1.5, -2.0, 0.0, 3.0], "txt": ["2.5", "x", "7", "-1e3"]}),
        "p/alt.csv": Frame({"region": list(r1), "a": [c("alt.a", r) for r in r1], "ab": [c("alt.ab", r) for r in r1], "form": ["cub"] * 4, "k": [5.0] * 4, "txt": ["9"] * 4}),
        "p/two.csv": Frame({"note": [1.0, 2.0], "region": list(r2), "b": [c("two.b", r) for r in r2], "form": ["p", "q"]}),
        "p/gap.csv": Frame({"region": list(r1), "a": [c("gap.a", "R1"), NAN, c("gap.a", "R3"), c("gap.a", "R4")]}),
        # R1,R2,R4 -> Q1 ; R3 -> Q2
        "p/map12.csv": Frame({"extra": ["e"] * 4, "T1": ["R1", "R2", "R3", "R4"], "T2": ["Q1", "Q1", "Q2", "Q1"]}),
        "p/map13.csv": Frame({"T3": ["Z1", "Z2", "Z3", "Z4"], "T1": ["R4", "R3", "R2", "R1"]}),
        "p/mapbad.csv": Frame({"T1": ["R1", "R2", "R3", "R4"], "other": ["Q1", "Q1", "Q2", "Q1"]}),
    }


OUT = {"T1": ["R1", "R2", "R3", "R4"], "T2": ["Q1", "Q2"], "T3": ["Z1", "Z2", "Z3", "Z4"]}
MAP = {("T1", "T2"): {"Q1": ["R1", "R2", "R4"], "Q2": ["R3"]}, ("T2", "T1"): {"R1": ["Q1"], "R2": ["Q1"], "R3": ["Q2"], "R4": ["Q1"]},
       ("T1", "T3"): {"Z1": ["R4"], "Z2": ["R3"], "Z3": ["R2"], "Z4": ["R1"]}}


def regional_params(out, over=None, swap=False, files=None, maps=None):
    files = files or {"cat": {"filename": "p/alt.csv" if swap else "p/one.csv", "regionstype": "T1"}, "dog": {"filename": "p/two.csv", "regionstype": "T2"}}
    maps = maps if maps is not None else [{"regionstype1": "T1", "regionstype2": "T2", "conversiontable": "p/map12.csv"},
                                          {"regionstype1": "T3", "regionstype2": "T1", "conversiontable": "p/map13.csv"}]
    regs = {r: (over or {}).get(r) for r in OUT[out]}
    return {"regions": regs, "regionstype": out, "regional_parameter_files": files, "regionsmappings": maps, "_swap": swap}


def regional(it, p):
    return it.call(it.load("mimosa.common.regional_params").env.vars["RegionalParamStore"], [p, {}], {})


def regional_values(it, o, p):
    out = {}
    for cat, name in (("cat", "a"), ("cat", "ab"), ("cat", "k")) + ((("dog", "b"),) if p["regionstype"] != "T3" else ()):
        d = it.call(it.getattr(o, "get"), [cat, name], {})
        out[cat, name] = d
        for r in p["regions"]:
            out[cat, name, r] = it.call(it.getattr(o, "getregional"), [cat, name, r], {})
    return out


def regional_expect(p, cat, name, r):
    """(kind, value) of a regional parameter: override, or mean over the table regions."""
    ov = p["regions"].get(r)
    if isinstance(ov, dict) and isinstance(ov.get(cat), dict) and name in ov[cat]:
        x = ov[cat][name]
        return lambda v: v.value(x)
    file = {"cat": "alt" if p["_swap"] else "one", "dog": "two"}[cat]
    src = p["regional_parameter_files"][cat]["regionstype"]
    rs = [r] if src == p["regionstype"] else MAP[src, p["regionstype"]][r]
    fr = regional_tables()[f"p/{file}.csv"]

    def f(v):
        xs = [fr.cols[name][fr.cols["region"].index(q)] for q in rs]
        return sum(v.value(x) for x in xs) / len(xs)
    return f


def regional_pairs(res, p):
    out = []
    for key, x in res.items():
        if len(key) == 2:
            if not isinstance(x, dict) or list(x) != list(p["regions"]):
                out.append((key, "not a value per region", 0))
                continue
            out += [(key + (r, "(all regions)"), x[r], regional_expect(p, *key, r)) for r in p["regions"]]
        else:
            out.append((key, x, regional_expect(p, *key)))
    return out


def regional_check(prop, tier, root=ROOT):
    rep = Report(prop)
    s = Session(regional_tables(), root)
    for t in ("T1", "T2", "T3"):
        p = regional_params(t) if t != "T3" else regional_params(t, files={"cat": {"filename": "p/one.csv", "regionstype": "T1"}})
        rep.check(f"table values for region definition {t}", s, lambda it: regional_values(it, regional(it, p), p), lambda r, q: numbers(regional_pairs(r, p), q), RP)
        for r in OUT[t][:2]:
            for name in ("a", "ab", "k"):
                for val in (T("par", "over", r), 0, 0.0, -3.5):
                    po = regional_params(t, over={r: {"cat": {name: val}}}, files=p["regional_parameter_files"])
                    rep.check(f"override of {name} in {r} by {tm.show(val) if isinstance(val, Term) else val} ({t})", s, lambda it: regional_values(it, regional(it, po), po),
                              lambda res, q: numbers(regional_pairs(res, po), q), RP + "main.py")
    # overrides which do not apply
    for n, ov in (("another category", {"R1": {"dog": {"a": 5.0}}}), ("another parameter", {"R1": {"cat": {"zz": 5.0}}}), ("an empty entry", {"R1": {}}),
                  ("an empty category", {"R1": {"cat": {}}}), ("no category", {"R1": {"cat": None}})):
        po = regional_params("T1", over=ov)
        rep.check(f"override for {n}", s, lambda it: regional_values(it, regional(it, po), po), lambda res, q: numbers(regional_pairs(res, po), q), RP + "main.py")
    for n, ov in (("the parameter directly under the region", {"R1": {"a": 5.0, "ab": 6.0}}),
                  ("names differing in case", {"R1": {"CAT": {"a": 5.0}, "cat": {"A": 6.0}}}), ("a dotted name", {"R1": {"cat.a": 5.0}})):
        po = regional_params("T1", over=ov)
        rep.check(f"override under {n}", s, lambda it: regional_values(it, regional(it, po), po), lambda res, q: numbers(regional_pairs(res, po), q), RP + "main.py")
    # whole numbers are averaged like any others
    si = Session({**regional_tables(), "p/int.csv": Frame({"region": ["R1", "R2", "R3", "R4"], "a": [1, 2, 5, 10]})}, root)
    pi = regional_params("T2", files={"cat": {"filename": "p/int.csv", "regionstype": "T1"}})
    rep.check("mean of whole numbers", si, lambda it: [it.call(it.getattr(regional(it, pi), "getregional"), ["cat", "a", r], {}) for r in ("Q1", "Q2")],
              lambda res, q: numbers([("Q1", res[0], 13 / 3), ("Q2", res[1], 5.0)], q), RP)
    # texts
    def texts(it, p, names):
        o = regional(it, p)
        return [(c, n, r, it.call(it.getattr(o, "getregional"), [c, n, r], {})) for c, n in names for r in p["regions"]]
    p1, p2 = regional_params("T1"), regional_params("T2")
    exp = {("cat", "form"): ["lin", "quad", "lin", "quad"], ("cat", "txt"): [2.5, "x", 7.0, -1000.0], ("dog", "form"): ["q", "q", "p", "q"]}
    rep.check("text parameters", s, lambda it: texts(it, p1, list(exp)), lambda res, q: [
        f"{c}.{n} of {r} is {x!r}, must be {w!r}" for (c, n, r, x), w in zip(res, exp["cat", "form"] + exp["cat", "txt"] + exp["dog", "form"]) if x != w], RP)
    rep.check("text parameters mapped to fewer regions", s, lambda it: texts(it, p2, [("cat", "form"), ("dog", "form")]), lambda res, q: [
        f"{c}.{n} of {r} is {x!r}, must be one of {w!r}" for (c, n, r, x), w in zip(res, (["lin", "quad"], ["lin"], ["q"], ["p"])) if x not in w], RP)
    pg = regional_params("T2", files={"cat": {"filename": "p/gap.csv", "regionstype": "T1"}})
    rep.check("a missing cell is left out of the mean", s, lambda it: [it.call(it.getattr(regional(it, pg), "getregional"), ["cat", "a", r], {}) for r in ("Q1", "Q2")],
              lambda res, q: numbers([("Q1", res[0], lambda v: (v.cell("gap.a", "R1") + v.cell("gap.a", "R4")) / 2), ("Q2", res[1], lambda v: v.cell("gap.a", "R3"))], q), RP)
    # rejections
    def get(p, c, n, r):
        return lambda it: it.call(it.getattr(regional(it, p), "getregional"), [c, n, r], {})
    p3 = regional_params("T3", files={"dog": {"filename": "p/two.csv", "regionstype": "T2"}})
    rep.check("no mapping between the region definitions", s, lambda it: regional(it, p3), "raises", RP)
    rep.check("no mapping at all", s, lambda it: regional(it, regional_params("T1", maps=[])), "raises", RP)
    for n, m in (("mapping table without the column", {"regionstype1": "T1", "regionstype2": "T2", "conversiontable": "p/mapbad.csv"}),
                 ("mapping table without the first column", {"regionstype1": "T2", "regionstype2": "T1", "conversiontable": "p/mapbad.csv"}),
                 ("missing mapping table", {"regionstype1": "T1", "regionstype2": "T2", "conversiontable": "p/none.csv"})):
        rep.check(n, s, lambda it: regional(it, regional_params("T1", maps=[m])), "raises", RP + "region_mappers.py")
    one = {"cat": {"filename": "p/one.csv", "regionstype": "T1"}}
    for n, m in (("second", ("T1", "T2")), ("first", ("T2", "T1"))):
        mm = {"regionstype1": m[0], "regionstype2": m[1], "conversiontable": "p/mapbad.csv"}
        rep.check(f"declared mapping table without its {n} column", s, lambda it: regional(it, regional_params("T1", maps=[mm], files=one)), "raises", RP + "region_mappers.py")
    rep.check("unknown parameter", s, get(p1, "cat", "nope", "R1"), "raises", RP)
    rep.check("unknown category", s, get(p1, "nope", "a", "R1"), "raises", RP)
    for r in ("R9", "R1#", "r1", " R1", "R1 ", "R", "", "region", "World"):
        rep.check(f"unknown region {r!r}", s, get({**p1, "regions": {"R1": None, r: None}}, "cat", "a", r), "raises", RP)
        rep.check(f"unknown region {r!r}, mapped", s, get({**p2, "regions": {"Q1": None, r.replace("R1", "Q1").replace("r1", "q1"): None}}, "cat", "a",
                                                          r.replace("R1", "Q1").replace("r1", "q1")), "raises", RP)
    for n in ("A", " a", "a ", "aa", "region", ""):
        rep.check(f"unknown parameter {n!r}", s, get(p1, "cat", n, "R1"), "raises", RP)
    rep.check("missing table", s, lambda it: regional(it, regional_params("T1", files={"cat": {"filename": "p/none.csv", "regionstype": "T1"}})), "raises", RP)
    return rep.result("The regional parameter store is interpreted on generic tables with symbolic cells for three region definitions; every value must be the override "
                      "of that region, category and parameter if there is one, else the table cell of the region or the mean over the regions mapped to it; "
                      "missing tables, mappings, columns, regions and parameters must be rejected.", ASSUME)
