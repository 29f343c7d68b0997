"""R01..: building, solving, saving and simulating, on the recording environment."""
import itertools
import os
import re

import yaml

from .root import ROOT
from . import host as H, laws, terms as tm
from .frames import Frame, NAN
from .host import Csv, expression, number, HComp, HModel, Host, UnitText
from .interp import PyExc, Unsupported, VecV
from .pyomo_model import SKIP, SetC, call_rule
from .session import Cell, in_vocabulary, Report, Session, Undecided, numbers, spline_at, valuations
from .terms import T, Term

MAIN = "mimosa/mimosa.py:MIMOSA."
ASSUME = ["Pyomo, the solver, files, the log and pandas are models which record what they are given; Pyomo's own behaviour is trusted."]


def real_session(root):
    s = Session(real=True, root=root)
    s.it.max_steps = 10 ** 9
    return s, Host(s)


def load_params(it):
    m = it.load("mimosa").env.vars
    return it.call(m["load_params"], [], {})


def program(it, changes):
    """MIMOSA(load_params() with changes)"""
    p = load_params(it)
    for path, v in changes.items():
        d = p
        ks = path.split(".")
        for k in ks[:-1]:
            d = d[k]
        d[ks[-1]] = v
    return it.call(it.load("mimosa").env.vars["MIMOSA"], [p], {})


def one(*names):
    return dict.fromkeys(names)


SHORT = {"time.end": 2040, "time.dt": 10}


# ------------------------------------------------------------------ R01

def solving(prop, tier, root=ROOT):
    rep = Report(prop)
    s, host = real_session(root)
    W = MAIN + "solve"
    seqs = [("ok",), ("ok", "ok"), ("warning",), ("error",), ("aborted",), ("unknown",), ("ok", "warning", "ok"), ("fail", "ok"), ("ok", "fail"),
            ("warning", "fail", "error", "ok"), ("ok", "aborted", "unknown")]
    if tier == "thorough":
        seqs += list(itertools.product(("ok", "warning", "error", "fail"), repeat=3))
    args = [{}, {"verbose": False}, {"halt_on_ampl_error": "yes"}, {"ipopt_output_file": "f.out"}, {"ipopt_maxiter": 7}, {"ipopt_maxiter": 1}, {"ipopt_maxiter": 0},
            {"use_neos": True, "neos_email": "a@b.c"}, {"verbose": False, "ipopt_output_file": "g.out", "ipopt_maxiter": 12, "halt_on_ampl_error": "yes"}]
    sets = [one("USA"), one("USA", "BRA"), one("INDIA", "USA", "BRA")]

    def attempt(it, mod, status, kw):
        m = it.getattr(mod, "concrete_model")
        a, b = len(host.log), len(host.logs)
        host.fail = status == "fail"
        host.status = status if status != "fail" else "ok"
        exc = None
        try:
            it.call(it.getattr(mod, "solve"), [], dict(kw))
        except PyExc as e:
            exc = e
        return dict(status=status, kw=kw, exc=exc, attr=it.getattr(mod, "status"), log=host.log[a:], logs=host.logs[b:], model=m)

    def judge(rec, merged, err):
        out = []
        st, kw = rec["status"], rec["kw"]
        what = f"solving with outcome {st!r}" + (f" and {kw}" if kw else "")
        solves = [e for e in rec["log"] if e[0] == "solve"]
        if len(solves) != 1:
            return [f"{what}: the model is sent to a solver {len(solves)} times"]
        _, name, m, opts, k, env = solves[0]
        if m is not rec["model"]:
            out.append(f"{what}: another model is solved than the one which is reported")
        pos = rec["log"].index(solves[0])
        upd = [i for i, e in enumerate(rec["log"]) if e[0] == "update_variables" and e[2] is rec["model"] and e[1] == "contrib.aggregate_vars"]
        reads = [i for i, e in enumerate(rec["log"]) if e[0] == "read" and i > pos]
        if st == "fail":
            if rec["exc"] is None:
                out.append(f"{what}: the solver could not be run but no exception is raised")
            if rec["attr"] is not None:
                out.append(f"{what}: the status is {rec['attr']!r} although the solver did not run")
            return out
        if k.get("load_solutions") is False:
            return [Undecided("solutions are loaded separately")]
        if merged and not [i for i in upd if i > pos]:
            out.append(f"{what}: variables merged before solving are not restored afterwards")
        elif merged and reads and min(reads) < min(i for i in upd if i > pos):
            out.append(f"{what}: results are read before merged variables are restored")
        if rec["attr"] != st:
            out.append(f"{what}: the recorded status is {rec['attr']!r}")
        if st == "ok" and rec["exc"] is not None:
            out.append(f"{what}: raises {rec['exc']}")
        if st != "ok":
            if rec["exc"] is None:
                out.append(f"{what}: no exception is raised")
            elif getattr(rec["exc"].cls, "name", None) != "SolverException" and rec["exc"].cls is not err:
                out.append(f"{what}: raises {rec['exc']} instead of the solver exception")
        if kw.get("use_neos"):
            if name != ("neos", "ipopt"):
                out.append(f"{what}: solved with {name}")
            if env.get("NEOS_EMAIL") != kw["neos_email"]:
                out.append(f"{what}: the e-mail address is {env.get('NEOS_EMAIL')!r} when the model is sent")
            return out
        if name != "ipopt":
            out.append(f"{what}: solved with {name}")
        want = {"halt_on_ampl_error": kw.get("halt_on_ampl_error", "no"), "max_iter": kw.get("ipopt_maxiter"), "output_file": kw.get("ipopt_output_file")}
        for o, w in want.items():
            if w is None and o in opts:
                out.append(f"{what}: solver option {o} is passed on as {opts[o]!r}, must not be")
            elif opts.get(o) != w and not (o == "halt_on_ampl_error" and w == "no" and o not in opts):
                out.append(f"{what}: solver option {o} is {opts.get(o)!r}, must be {w!r}")
        if bool(k.get("tee", False)) != kw.get("verbose", True):
            out.append(f"{what}: solver output is {'shown' if k.get('tee') else 'not shown'}")
        return out

    def expect(res, p):
        recs, built, status0, err = res
        out = []
        if status0 is not None:
            out.append(f"the status of a model that was not solved is {status0!r}")
        pre = [e for e in built if e[0] == "solve"]
        if pre:
            out.append("the model is solved while it is created")
        m = recs[0]["model"]
        merged = any(e[0] == "apply_to" and e[1] == "contrib.aggregate_vars" and e[2] is m for e in built)
        other = [e for e in built if e[0] in ("apply_to", "create_using") and e[2] is not m]
        if other:
            out.append(Undecided("a transformation of another model"))
        for r in recs:
            out += judge(r, merged, err)
        return out[:3]

    def scenario(regions, steps):
        def fn(it):
            mod = program(it, {**SHORT, "regions": regions})
            built, st0 = list(host.log), it.getattr(mod, "status")
            return [attempt(it, mod, st, kw) for st, kw in steps], built, st0, it.load("mimosa.mimosa").env.vars.get("SolverException")
        return host.run(fn)
    for regions in sets:
        n = len(regions)
        for q in seqs if n < 3 or tier == "thorough" else seqs[:1]:
            rep.check(f"{n} regions, outcomes {'/'.join(q)}", s, scenario(regions, [(x, {}) for x in q]), expect, W)
    for kw in args[1:]:
        for st in ("ok", "warning") if kw.get("use_neos") or tier == "thorough" else ("ok",):
            rep.check(f"solver call with {kw}, outcome {st}", s, scenario(sets[1], [(st, kw)]), expect, W)
    rep.check("different arguments in sequence", s, scenario(sets[0], [("ok", kw) for kw in args[:6]] + [("ok", {})]), expect, W)

    # two models in one process
    def two(ra, rb, sts):
        def fn(it):
            a = program(it, {**SHORT, "regions": ra})
            ma = it.getattr(a, "concrete_model")
            r1 = attempt(it, a, sts[0], {})
            b = program(it, {**SHORT, "regions": rb})
            st0 = it.getattr(b, "status")
            r2 = attempt(it, b, sts[1], {})
            back = it.getattr(a, "status")
            r3 = attempt(it, a, sts[2], {})
            return [r1, r2, r3], list(host.log), st0, it.load("mimosa.mimosa").env.vars.get("SolverException"), back, it.getattr(b, "status")
        return host.run(fn)

    def expect2(sts):
        def f(res, p):
            recs, log, st0, err, back, backb = res
            out = []
            if st0 is not None:
                out.append(f"the status of a model that was not solved is {st0!r}")
            for who, got, st in (("first", back, sts[0]), ("second", backb, sts[1])):
                if got != (None if st == "fail" else st):
                    out.append(f"the status of the {who} model is {got!r} after another model was solved, must be {st!r}")
            for r in recs:
                merged = any(e[0] == "apply_to" and e[1] == "contrib.aggregate_vars" and e[2] is r["model"] for e in log)
                out += judge(r, merged, err)
            return out[:3]
        return f
    for ra, rb in ((sets[0], sets[1]), (sets[1], sets[0]), (sets[1], sets[1])):
        for sts in (("ok", "warning", "ok"), ("warning", "ok", "error"), ("ok", "fail", "ok")):
            rep.check(f"two models of {len(ra)} and {len(rb)} regions, outcomes {'/'.join(sts)}", s, two(ra, rb, sts), expect2(sts), W)
    return rep.result("The whole program (loading, building, solving) is interpreted with a recording model of Pyomo; for every solver outcome, argument and sequence of "
                      "solves the recorded solver call, transformations, status and exception are compared with the documented behaviour.", ASSUME)


# ------------------------------------------------------------------ R03

def declare(it, m, comps):
    """Further components of a built model: (name, type, sets, unit text)."""
    for name, ctype, sets, unit in comps:
        k = {"units": UnitText(unit)} if unit is not None else {}
        if ctype == "Param":
            k["initialize"] = pm_any
        m.declare(it, name, HComp(ctype, [m.comps[x] for x in sets], k, ""))


from .interp import Builtin  # noqa: E402
from .pyomo_model import BoundV, FuncV  # noqa: E402

pm_any = Builtin("any value", lambda it, a, k: None)

EXTRA = [("xr", "Var", ("t", "regions"), "GtCO2/a"), ("xg", "Var", ("t",), "USD2005/a"), ("_hidden", "Var", ("t", "regions"), None), ("_hg", "Var", ("t",), "1/a"),
         ("pr", "Param", ("t", "regions"), "kg/atm"), ("Lp", "Param", ("t", "regions"), "kg"), ("_pr", "Param", ("t", "regions"), None), ("p1", "Param", ("regions",), None), ("p0", "Param", (), None),
         ("pt", "Param", ("t",), None), ("u1", "Var", ("t",), "1/a"), ("u2", "Var", ("t",), "a/m"), ("u3", "Var", ("t", "regions"), "m/a**2"), ("u4", "Var", ("t",), "t/a/person"),
         ("u5", "Var", ("t",), ""), ("u6", "Var", ("t", "regions"), None), ("u7", "Var", ("t",), "kg/are"), ("x_", "Var", ("t",), "delta_degC"), ("an x", "Var", ("t",), "m")]


def annual(text):
    """Unit text with 'per annum' written per year."""
    return re.sub(r"/ ?a\b", "/yr", text or "")


def saved(res_files, path, mod, years, out, what, partition=()):
    """Deviations of a written table from the model's values at that time."""
    f = res_files.get(path)
    if not isinstance(f, Csv):
        out.append(f"{what}: no table {path!r} is written (written: {sorted(res_files)[:6]})")
        return
    o = f.options
    ff = o.get("float_format")
    if ff is not None:
        if not isinstance(ff, str):
            out.append(Undecided("format of the numbers"))
        else:
            for x in (1.23456789e-12, 123456.789, -0.00123456789, 1.23456789e20, 0.0, 98765.4321):
                try:
                    y = float(ff % x if "%" in ff else ff.format(x))
                except ValueError:
                    y = float("nan")
                if not abs(y - x) <= 1e-5 * abs(x):
                    out.append(f"{what}: the number {x} is written as {y}")
                    return
    if o.get("index", True) is not False:
        out.append(f"{what}: the table has an additional column of row numbers")
    if o.get("sep", ",") != "," or o.get("header", True) is not True:
        out.append(f"{what}: the table is not a comma-separated table with a header")
    if set(o) - {"float_format", "index", "sep", "header", "na_rep", "encoding"}:
        out.append(Undecided("options of the table " + ", ".join(o)))
    fr, m, vals = f.frame, mod["model"], mod["values"]
    want_cols = ["Variable", "Region", "Unit"]
    labels = list(fr.cols)
    if labels[:3] != want_cols:
        out.append(f"{what}: the table starts with the columns {labels[:3]}")
        return
    try:
        ys = [float(x) for x in labels[3:]]
    except (TypeError, ValueError):
        out.append(f"{what}: the columns {labels[3:6]} are not years")
        return
    if ys != [float(y) for y in years]:
        out.append(f"{what}: the year columns are {labels[3:6]}..{labels[-1:]}, must be {years[0]:g}..{years[-1]:g}")
        return
    seen = {}
    for i in range(fr.n):
        key = (fr.cols["Variable"][i], fr.cols["Region"][i])
        if key in seen:
            out.append(f"{what}: two rows for {key}")
            return
        seen[key] = i
    miss = [k for k in vals if k not in seen]
    more = [k for k in seen if k not in vals]
    if miss:
        out.append(f"{what}: no row for {miss[0]} ({len(miss)} rows missing)")
    if more:
        out.append(f"{what}: unexpected row {more[0]} ({len(more)} rows too many)")
    pairs = []
    for k, i in seen.items():
        if k not in vals:
            continue
        unit, want = vals[k]
        u = fr.cols["Unit"][i]
        if unit is not None and u != unit:
            out.append(f"{what}: the unit of {k[0]} is {u!r}, must be {unit!r}")
        for y, c, w in zip(years, labels[3:], want):
            if expression(fr.cols[c][i]):
                out.append(f"{what}: the cell of {k[0]} of {k[1]} in {y:g} is an expression of the model, not its value")
                return
            pairs.append(((what, *k, y), fr.cols[c][i], (lambda w: lambda v: v.value(w))(w)))
    out += numbers(pairs, partition, tiny=True)


def modelled(it, mod):
    """What a saved table of the model must hold: {(variable, region): (unit text, values)}."""
    m = it.getattr(mod, "concrete_model")
    times, regions = m.world.times, m.world.regions
    out = {}
    for c in list(m.comps.values()):
        if not isinstance(c, HComp) or c.name.startswith("_"):
            continue
        sets = [x.name for x in c.sets]
        u = c.kwargs.get("units")
        unit = annual(u.text) if isinstance(u, UnitText) else "" if u is None else None
        if sets == ["t", "regions"] and c.ctype in ("Var", "Param"):
            for r in regions:
                out[c.name, r] = (unit, [c.entry(it, (t, r)) for t in times])
        elif sets == ["t"] and c.ctype == "Var":
            out[c.name, "Global"] = (unit, [c.entry(it, t) for t in times])
        elif c.ctype == "Var" or (c.ctype == "Param" and len(sets) > 1):
            raise Unsupported(f"indices {sets} of {c.name}")
    return {"model": m, "values": out, "params": H.plain(it.getattr(mod, "params"))}


def saving(prop, tier, root=ROOT):
    import json
    rep = Report(prop)
    s, host = real_session(root)
    W = "mimosa/export/save.py:save_output"

    def years(g):
        import math
        return [g[0] + i * g[2] for i in range(math.ceil((g[1] - g[0]) / g[2]) + 1)]

    def build(it, changes):
        mod = program(it, changes)
        m = it.getattr(mod, "concrete_model")
        declare(it, m, EXTRA)
        return mod

    def params_file(files, path, mod, out, what):
        f = files.get(path + ".params.json")
        if not isinstance(f, str):
            out.append(f"{what}: no parameter file beside the table (written: {sorted(files)[:6]})" if f is None else Undecided("parameter file"))
            return
        try:
            saved = json.loads(f)
        except json.JSONDecodeError:
            out.append(f"{what}: the parameter file is {f[:60]!r}, which is no JSON text")
            return
        if saved != json.loads(json.dumps(mod["params"])):
            out.append(f"{what}: the parameter file is not the settings of the model")

    grids = [(2020, 2040, 10), (2025, 2050, 5), (2020, 2024, 2.5), (2020, 2120, 20), (2020, 2021, 0.5), (2020, 2020, 5)]
    for g in grids:
        for regions in (["USA"], ["USA", "BRA"], ["INDIA", "USA", "BRA"]):
            if tier == "quick" and g != grids[0] and len(regions) != 2:
                continue

            def fn(it):
                mod = build(it, {"regions": one(*regions), "time.start": g[0], "time.end": g[1], "time.dt": g[2]})
                it.call(it.getattr(mod, "save"), ["run1"], {})
                return modelled(it, mod), dict(host.files), it.getattr(mod, "last_saved_filename")

            def expect(res, p):
                mod, files, last = res
                out = []
                saved(files, "output/run1.csv", mod, years(g), out, "saving", p)
                params_file(files, "output/run1.csv", mod, out, "saving")
                if last != "run1":
                    out.append(f"the last saved name is {last!r}")
                return out[:3]
            rep.check(f"saving {len(regions)} regions, years {g[0]}-{g[1]} step {g[2]}", s, host.run(fn), expect, W)
    with open(os.path.join(root, "mimosa/inputdata/config/config_default.yaml"), encoding="utf8") as fh:
        files = yaml.safe_load(fh)["regional_parameter_files"]["default"]
    g = grids[0]
    own = {k: v for k, v in files.items() if v["regionstype"] == "IMAGE26"}
    fixed = {y: {"USA": 0.1, "BRA": 0.2} for y in (2020, 2030, 2040)}
    for n, ch in (("no mappings of regions", {"regionsmappings": [], "regional_parameter_files": own, "model.damage module": "nodamage"}),
                  ("every optional restriction off", {"emissions.carbonbudget": False, "temperature.target": False, "emissions.inertia.regional": False, "emissions.inertia.global": False,
                                                      "emissions.global min level": False, "emissions.regional min level": False, "simulation.constraint_variables": {}, "simulation.deactivated_constraints": []}),
                  ("simulation mode", {"simulation.simulationmode": True, "simulation.constraint_variables": {"relative_abatement": fixed}, "simulation.deactivated_constraints": ["carbon_budget"]}),
                  ("own regional values", {"regions": {"USA": {"economics": {"init_capitalstock_factor": 0.0}}, "BRA": {}}})):
        def fn(it, ch=ch):
            mod = build(it, {"regions": one("USA", "BRA"), "time.start": g[0], "time.end": g[1], "time.dt": g[2], **ch})
            it.call(it.getattr(mod, "save"), ["run1"], {})
            return modelled(it, mod), dict(host.files), it.getattr(mod, "last_saved_filename")
        rep.check(f"saving with {n}", s, host.run(fn), expect, W)
    # names, folders, suffixes
    for kw, path in (({"folder": "res"}, r"res/run1\.csv"), ({"folder": "a/b"}, r"a/b/run1\.csv"), ({"hash_suffix": True}, r"output/run1_[0-9a-zA-Z]+\.csv"),
                     ({"hash_suffix": True, "folder": "res"}, r"res/run1_[0-9a-zA-Z]+\.csv"), ({"folder": "output"}, r"output/run1\.csv"), ({"folder": "/scratch/x y"}, r"/scratch/x y/run1\.csv"), ({"folder": "../Other"}, r"\.\./Other/run1\.csv"),
                     ({"filename": "run.v1"}, r"output/run\.v1\.csv"), ({"filename": "My run-2"}, r"output/My run-2\.csv"), ({"filename": "run_1", "hash_suffix": True}, r"output/run_1_[0-9a-zA-Z]+\.csv"), ({"hash_suffix": False}, r"output/run1\.csv")):
        def fn(it):
            mod = build(it, {**SHORT, "regions": one("USA")})
            it.call(it.getattr(mod, "save"), [kw.get("filename", "run1")], {k: v for k, v in kw.items() if k != "filename"})
            return modelled(it, mod), dict(host.files)

        def expect(res, p):
            mod, files = res
            out = []
            names = [n for n in files if n.endswith(".csv")]
            if len(names) != 1 or not re.fullmatch(path, names[0]):
                return [f"the table is written to {names}, must be {path}"]
            saved(files, names[0], mod, [2020, 2030, 2040], out, "saving", p)
            params_file(files, names[0], mod, out, "saving")
            return out[:3]
        rep.check(f"saving with {kw}", s, host.run(fn), expect, W)

    TWINS = ({}, {}, {"emissions.carbonbudget": "600 GtCO2"}, {"time.end": 2050}, {"regions": one("BRA")}, {"SSP": "SSP1"}, {"economics.PRTP": 0.02}, {"economics.MAC.gamma": "1500 USD2005/tCO2"},
             {"temperature.initial": "1.3 delta_degC"}, {"model.damage module": "nodamage"}, {"effort sharing.regime": "equal_mitigation_costs"}, {"simulation.deactivated_constraints": ["npv"]},
             {"simulation.deactivated_constraints": ["NPV"]}, {"simulation.constraint_variables": {"temperature": "in/run1.csv"}}, {"regions": {"USA": {"COACCH": {"NoSLR_b1-q0.5": 0.25}}}},
             {"economics.PRTP": 0.0200001}, {"emissions.global min level": False})

    def twins(it):
        names = []
        for ch in TWINS:
            mod = program(it, {**SHORT, "regions": one("USA"), **ch})
            before = set(host.files)
            it.call(it.getattr(mod, "save"), ["x"], {"hash_suffix": True})
            names.append(sorted(set(host.files) - before))
        return names
    rep.check("suffix tells configurations apart", s, host.run(twins), lambda n, p: (
        [] if not n[1] else ["equal configurations get different suffixes"]) + [f"configuration {i} overwrites the table of another one" for i in (0, *range(2, len(TWINS))) if not n[i]][:3], W)

    # histories of saves and solves
    def fn(it):
        a = build(it, {**SHORT, "regions": one("USA", "BRA")})
        b = build(it, {**SHORT, "regions": one("INDIA"), "time.end": 2050, "emissions.carbonbudget": "600 GtCO2"})
        out = []

        def save(mod, name):
            it.call(it.getattr(mod, "save"), [name], {})
            out.append((name, modelled(it, mod), it.getattr(a, "last_saved_filename"), it.getattr(b, "last_saved_filename")))

        def solve(mod, st):
            host.status = st
            try:
                it.call(it.getattr(mod, "solve"), [], {})
            except PyExc:
                pass
        solve(a, "ok")
        save(a, "one")
        solve(b, "ok")
        save(b, "two")
        save(a, "three")
        solve(a, "warning")
        save(a, "four")
        solve(a, "ok")
        save(b, "five")
        save(a, "six")
        solve(a, "ok")
        save(a, "one")
        save(b, "three")
        return out, dict(host.files)

    def expect(res, p):
        out, files = [], res[1]
        la = lb = None
        final = {name: (n, mod) for n, (name, mod, _, _) in enumerate(res[0])}
        for n, (name, mod, xa, xb) in enumerate(res[0]):
            second = n in (1, 4, 7)
            la, lb = (la, name) if second else (name, lb)
            if (xa, xb) != (la, lb):
                out.append(f"save {name!r}: the last saved names are {xa!r} and {xb!r}, must be {la!r} and {lb!r}")
            if final[name][0] == n:
                ys = [2020, 2030, 2040] + ([2050] if second else [])
                saved(files, f"output/{name}.csv", mod, ys, out, f"save {name!r}", p)
                params_file(files, f"output/{name}.csv", mod, out, f"save {name!r}")
        return out[:3]
    rep.check("alternating solves and saves of two models", s, host.run(fn), expect, W)
    return rep.result("The whole program is interpreted up to the written files with one symbol per model, solve, variable, region and time step; each table must have exactly one row "
                      "per reported variable and region and, under each year, the symbol of that very entry; settings file, names, units and number format are compared as well.", ASSUME)


# ------------------------------------------------------------------ R04

SIM = "mimosa/concrete_model/simulation_mode/set_constraints.py"


def constraint_terms(it, m, names):
    """[(component, index, relation)] of the named constraints."""
    out = []
    for n in names:
        c = m.comps[n]
        rule = c.kwargs.get("rule", c.kwargs.get("expr"))
        for idx in c.index_values(it):
            i = idx if isinstance(idx, tuple) else () if idx is None else (idx,)
            r = call_rule(it, rule, m, i)
            if r is None or isinstance(r, bool) or isinstance(r, Term) and r.op == "cmp" and r.args[0] in ("<", ">", "!="):
                raise PyExc(ValueError, (f"constraint {n}: " + ("strict inequality" if isinstance(r, Term) else f"the rule returned {r}"),))
            out.append((n, i, r, c.active))
    return out


def holds(v, rel):
    """Whether a relation holds at a valuation (None: not understood)."""
    if rel is SKIP or rel is True:
        return True
    if isinstance(rel, tuple) and len(rel) == 3 and not isinstance(rel, Term):
        lo, b, hi = rel
        b = v.value(b)
        return (lo is None or v.value(lo) <= b) and (hi is None or b <= v.value(hi))
    if isinstance(rel, tuple) and len(rel) == 2 and not isinstance(rel, Term):
        return v.value(rel[0]) == v.value(rel[1])
    if isinstance(rel, Term) and rel.op == "cmp":
        a, b = v.value(rel.args[1]), v.value(rel.args[2])
        return {"<=": a <= b, ">=": a >= b, "==": a == b, "<": a < b, ">": a > b}.get(rel.args[0])
    return None


def understood(rel):
    if rel is SKIP or rel is True:
        return True
    return in_vocabulary(rel.args[1:] if isinstance(rel, Term) and rel.op == "cmp" else rel)


def extended5(data):
    """Data by year with the documented extension to 2150, in steps of five years."""
    ys = sorted(data)
    out = dict(data)
    if len(ys) < 2:
        return out
    rate = (data[ys[-1]] - data[ys[-2]]) / (ys[-1] - ys[-2])
    t, x = ys[-1], data[ys[-1]]
    for e in range(int(ys[-1]) + 5, 2151, 5):
        f = rate - rate * (t - 2100.0) / 50
        f = max(0.0, f) if rate > 0 else min(0.0, f)
        x = x + f * (e - t)
        out[e] = x
        t = e
    return out


def data_at(v, row, year):
    d = {float(y): v.value(x) for y, x in row.items()}
    if year in d:
        return d[year]
    e = extended5(d)
    ys = sorted(e)
    return spline_at("IUS", ys, [e[y] for y in ys], year)


def simulation(prop, tier, root=ROOT):
    rep = Report(prop)
    base = {**SHORT, "regions": one("USA", "BRA")}
    YS = [2020, 2030, 2040]

    def C(tag, r, y, last=2040):
        # known growth at the end of the series, so that the extension has one case
        if y == last:
            return T("add", T("par", "cell", tag, r, "before"), 1.0 if len(tag) % 2 else -1.0)
        return T("par", "cell", tag, r, "before" if isinstance(y, (int, float)) and y == PREV.get(last) else y)
    PREV = {2040: 2030, 2100: 2090, 2060: 2050, 2150: 2140}

    def data(tag, rows, years):
        return {y: {r: C(tag, r, y, years[-1]) for r in rows} for y in years}

    def csv(tagged, rows, years, head=("Variable", "Region", "Unit")):
        cols = {h: [] for h in head}
        cols.update({str(y): [] for y in years})
        for name, r, tag in rows:
            for h in head:
                cols[h].append({"Variable": name, "Region": r, "Unit": "u"}[h])
            for y in years:
                cols[str(y)].append(C(tag, r, y, years[-1]))
        return Frame(cols)
    file = csv("f", [("relative_abatement", "BRA", "fa"), ("relative_abatement_x", "USA", "no"), ("global_emissions", "Global", "fge"), ("relative_abatement", "USA", "fa"),
                     ("regional_emissions", "USA", "fre"), ("regional_emissions", "BRA", "fre"), ("temperature", "Global", "ft"),
                     ("relative_abatement_x", "BRA", "no"), ("regional_emissions_x", "USA", "no"), ("x_temperature", "Global", "no")], YS)
    nounit = csv("f", [("temperature", "Global", "nt"), ("regional_emissions", "BRA", "nre"), ("regional_emissions", "USA", "nre")], YS, ("Region", "Variable"))
    other = csv("f", [("temperature", "Global", "ot"), ("relative_abatement", "USA", "oa"), ("relative_abatement", "BRA", "oa")], YS)
    s = Session({"in/run1.csv": file, "in/nounit.csv": nounit, "in/other2.csv": other}, real=True, root=root)
    s.it.max_steps = 10 ** 9
    host = Host(s)
    src = s.source
    s.it.models["pandas.read_csv"]

    def row(tag, r, years):
        return {y: C(tag, r, y, years[-1]) for y in years}

    def case(label, variables, want, deact=None, changes=None, mode=True, raises=False):
        """want: {variable: {region: {year: data}}}"""
        ch = {**base, **(changes or {})}

        def fn(it):
            ref = program(it, ch)
            m0 = it.getattr(ref, "concrete_model")
            sim = {"simulation.simulationmode": mode, "simulation.constraint_variables": variables}
            if deact is not None:
                sim["simulation.deactivated_constraints"] = list(deact)
            mod = program(it, {**ch, **sim})
            m = it.getattr(mod, "concrete_model")
            new = [n for n, c in m.comps.items() if isinstance(c, HComp) and c.ctype == "Constraint" and n not in m0.comps]
            gone = [n for n in m0.comps if n not in m.comps]
            off = [n for n, c in m.comps.items() if isinstance(c, HComp) and c.ctype in ("Constraint", "Objective") and not c.active]
            yr = it.getattr(m, "year")
            years = {t: it.scalar(it.call(yr, [t], {})) for t in m.world.times}
            return m, constraint_terms(it, m, new), gone, off, years, [n for n in m.comps if isinstance(m.comps[n], HComp) and m.comps[n].ctype == "Constraint"]

        def expect(res, p):
            m, rels, gone, off, years, allc = res
            out = []
            if gone:
                out.append(f"the component {gone[0]} disappears")
            woff = [f"constraint_{d}" for d in deact or []] if mode else []
            if sorted(off) != sorted(woff):
                out.append(f"the constraints {sorted(off)} are deactivated, must be {sorted(woff)}")
            per = {}
            for n, idx, rel, act in rels:
                if not act:
                    continue
                used = sorted({x for x in cells(rel) if x.args[1].startswith(f"m{m.id}s")}, key=tm.show)
                if len(used) != 1:
                    if rel is SKIP or rel is True:
                        continue
                    if not used and isinstance(rel, Term) and rel.op in ("cmp", "rel") and understood(rel):
                        return [f"the constraint {n}{idx} contains no variable ({tm.show(rel)[:120]}): Pyomo rejects it"]
                    out.append(Undecided(f"constraint {n}{idx} on {len(used)} variables"))
                    continue
                per.setdefault(used[0], []).append(rel)
            vals, bad = valuations(p, 4)
            if bad or not vals:
                return [Undecided("unmodelled condition")]
            for var_, rows in (want.items() if mode else ()):
                for r, d in rows.items():
                    for t, y in years.items():
                        key = m.symbol(var_, (t, r) if r != "Global" else (t,))
                        rs = per.pop(key, [])
                        for v0 in vals:
                            w = data_at(v0, d, float(y))
                            for dx in (-50.0, -0.1, -0.0011, -0.0009, 0.0, 0.0009, 0.0011, 0.1, 50.0):
                                v = v0.fork() if False else Cell(v0.seed)
                                v.over = {key: w + dx}
                                hs = [holds(v, x) for x in rs]
                                if None in hs:
                                    return [Undecided(f"relation {tm.show(rs[hs.index(None)])[:150]}")]
                                ok = all(hs)
                                if not all(understood(x) for x in rs):
                                    return [Undecided(f"relation {tm.show(rs[0])[:150]}")]
                                if ok != (abs(dx) < 1e-3):
                                    out.append(f"{var_} of {r} in {y:g} may {'' if ok else 'not '}be {w + dx:.6g} where the data are {w:.6g}")
                                    return out[:3]
            extra = [k for k in per if m.comps[k.args[1].split(".", 1)[1]].ctype == "Var"]
            if extra:
                out.append(f"{tm.show(extra[0])} is constrained although no data are given for it")
            return out[:3]
        rep.check(label, s, host.run(fn), "raises" if raises else expect, SIM)

    def cells(x, acc=None):
        acc = set() if acc is None else acc
        if isinstance(x, Term):
            if x.op == "par" and x.args[0] == "cell":
                acc.add(x)
            for a in x.args:
                cells(a, acc)
        elif isinstance(x, (list, tuple)):
            for a in x:
                cells(a, acc)
        return acc
    reg, glob = ["USA", "BRA"], ["Global"]
    case("no variable", {}, {})
    case("one regional variable", {"relative_abatement": data("a", reg, YS)}, {"relative_abatement": {r: row("a", r, YS) for r in reg}})
    case("one global variable", {"global_emissions": data("ge", glob, YS)}, {"global_emissions": {"Global": row("ge", "Global", YS)}})
    case("regional data in another order, and of further regions", {"relative_abatement": data("a", ["INDIA", "BRA", "USA"], YS)}, {"relative_abatement": {r: row("a", r, YS) for r in reg}})
    case("two variables", {"relative_abatement": data("a", reg, YS), "temperature": data("t", glob, YS)},
         {"relative_abatement": {r: row("a", r, YS) for r in reg}, "temperature": {"Global": row("t", "Global", YS)}})
    case("three variables with different data", {"relative_abatement": data("a", reg, YS), "regional_emissions": data("re", reg, YS), "temperature": data("t", glob, YS)},
         {"relative_abatement": {r: row("a", r, YS) for r in reg}, "regional_emissions": {r: row("re", r, YS) for r in reg}, "temperature": {"Global": row("t", "Global", YS)}})
    case("a table", {"relative_abatement": "in/run1.csv"}, {"relative_abatement": {r: row("fa", r, YS) for r in reg}})
    case("two variables of one table", {"relative_abatement": "in/run1.csv", "global_emissions": "in/run1.csv"},
         {"relative_abatement": {r: row("fa", r, YS) for r in reg}, "global_emissions": {"Global": row("fge", "Global", YS)}})
    case("two variables of one table, one read after the other", {"temperature": "in/run1.csv", "regional_emissions": "in/run1.csv", "global_emissions": "in/run1.csv"},
         {"temperature": {"Global": row("ft", "Global", YS)}, "regional_emissions": {r: row("fre", r, YS) for r in reg}, "global_emissions": {"Global": row("fge", "Global", YS)}})
    case("a table without units", {"temperature": "in/nounit.csv", "regional_emissions": "in/nounit.csv"},
         {"temperature": {"Global": row("nt", "Global", YS)}, "regional_emissions": {r: row("nre", r, YS) for r in reg}})
    case("two tables and data", {"temperature": "in/other2.csv", "relative_abatement": "in/run1.csv", "global_emissions": data("ge", glob, YS)},
         {"temperature": {"Global": row("ot", "Global", YS)}, "relative_abatement": {r: row("fa", r, YS) for r in reg}, "global_emissions": {"Global": row("ge", "Global", YS)}})
    case("a table given by a pattern", {"temperature": "in/oth*.csv"}, {"temperature": {"Global": row("ot", "Global", YS)}})
    # other time grids
    for g, ys in (((2020, 2040, 5), YS), ((2020, 2100, 20), list(range(2020, 2101, 10))), ((2020, 2150, 10), list(range(2020, 2101, 10))), ((2020, 2150, 10), list(range(2020, 2151, 10))),
                  ((2025, 2145, 15), list(range(2020, 2101, 10)))):
        ch = {"time.start": g[0], "time.end": g[1], "time.dt": g[2]}
        if ys is YS:
            continue
        if ys[-1] == 2150 and g[2] == 5:
            continue
        case(f"data {ys[0]}-{ys[-1]} for years {g[0]}-{g[1]} step {g[2]}", {"relative_abatement": data("a", reg, ys), "temperature": data("tt", glob, ys)},
             {"relative_abatement": {r: row("a", r, ys) for r in reg}, "temperature": {"Global": row("tt", "Global", ys)}}, changes=ch)
    # deactivated constraints
    for d in (["mitigation_costs"], ["global_emissions", "carbon_budget"], ["NPV", "temperature"], ["temperature_target", "carbonprice", "global_inertia"]):
        names = None
        case(f"deactivating {', '.join(d)}", {"relative_abatement": data("a", reg, YS)}, {"relative_abatement": {r: row("a", r, YS) for r in reg}}, deact=d)
    case("deactivating only", {}, {}, deact=["global_emissions"])
    case("deactivating nothing", {"relative_abatement": data("a", reg, YS)}, {"relative_abatement": {r: row("a", r, YS) for r in reg}}, deact=[])
    # simulation mode off
    case("simulation mode off", {"relative_abatement": data("a", reg, YS)}, {}, deact=["global_emissions"], mode=False)
    # rejected
    bad = {}
    case("an unknown variable", {"no_such_variable": data("a", reg, YS)}, bad, raises=True)
    case("a region without data", {"relative_abatement": data("a", ["USA"], YS)}, bad, raises=True)
    case("regional data for a global variable", {"global_emissions": data("a", reg, YS)}, bad, raises=True)
    case("global data for a regional variable", {"relative_abatement": data("a", glob, YS)}, bad, raises=True)
    case("a table without the variable", {"savings": "in/run1.csv"}, bad, raises=True)
    case("a missing table", {"temperature": "in/none.csv"}, bad, raises=True)
    case("an unknown constraint", {}, bad, deact=["no_such_constraint"], raises=True)
    return rep.result("The whole program is interpreted with and without simulation settings; every constraint that is added is evaluated around the data (inside and outside the tolerance) at "
                      "each region and time step, nothing else may be added, and exactly the listed constraints are deactivated.", ASSUME)


# ------------------------------------------------------------------ R05

def fingerprint(it, m):
    """Everything the solver would see of a concrete model: {(component, index): text}."""
    from .pyomo_model import BoundV, FuncV
    out = {}
    keep, m.id, m.epoch, ep = m.id, 0, 0, m.epoch

    def val(f, idx):
        return call_rule(it, f, m, idx) if isinstance(f, (FuncV, BoundV)) else f
    try:
        for c in list(m.comps.values()):
            if isinstance(c, SetC):
                out[c.name, "set"] = tuple(c.elements(it))
                continue
            out[c.name, "kind"] = (c.ctype, tuple(x.name for x in c.sets), c.active)
            for idx in c.index_values(it):
                i = idx if isinstance(idx, tuple) else () if idx is None else (idx,)
                if c.ctype == "Param":
                    d = m.data.get(c.name)
                    init = c.kwargs.get("initialize", c.kwargs.get("default"))
                    v = d.get(idx) if isinstance(d, dict) else val(init, i) if init is not None else None
                elif c.ctype == "Var":
                    v = (val(c.kwargs.get("bounds"), i), val(c.kwargs.get("initialize"), i))
                elif c.ctype in ("Constraint", "Objective", "Expression"):
                    v = (val(c.kwargs.get("rule", c.kwargs.get("expr")), i), c.kwargs.get("sense"))
                else:
                    continue
                out[c.name, i] = v
    finally:
        m.id, m.epoch = keep, ep
    return out


def frozen(x):
    if isinstance(x, (tuple, list)):
        return tuple(frozen(y) for y in x)
    if isinstance(x, HComp):
        return ("component", x.name)
    if isinstance(x, (Term, str, bool)) or x is None:
        return x
    if isinstance(x, (int, float)):
        return float(x)
    raise Unsupported(f"comparison of {type(x).__name__}")


def show_value(x):
    if isinstance(x, Term):
        return tm.show(x)
    if isinstance(x, HComp):
        return x.name
    if isinstance(x, (tuple, list)):
        return tuple(show_value(y) for y in x)
    return x


def difference(a, b):
    for k in a:
        if k not in b:
            return f"{k[0]} {k[1]} is missing"
    for k in b:
        if k not in a:
            return f"{k[0]} {k[1]} is additional"
    for k in a:
        x, y = a[k], b[k]
        if frozen(x) != frozen(y):
            return f"{k[0]} {k[1]} is {show_value(y)}"[:200] + f", in a fresh process {show_value(x)}"[:200]
    return None


def histories(prop, tier, root=ROOT):
    rep = Report(prop)
    s, host = real_session(root)
    W = MAIN + "create_instance"
    R1, R2 = one("USA", "BRA"), one("INDIA")
    base = {**SHORT, "regions": R1}
    sim = {"simulation.simulationmode": True, "simulation.constraint_variables": {"relative_abatement": {y: {"USA": 0.1, "BRA": 0.2} for y in (2020, 2030, 2040)}},
           "simulation.deactivated_constraints": ["carbon_budget"]}
    variants = {"the default": base, "one region": {**base, "regions": R2}, "another horizon": {**base, "time.start": 2025, "time.end": 2065},
                "a carbon budget": {**base, "emissions.carbonbudget": "600 GtCO2"}, "simulation mode": {**base, **sim},
                "another scenario": {**base, "SSP": "SSP1"}, "a region with own values": {**base, "regions": {"USA": {"economics": {"init_capitalstock_factor": 9.0}}, "BRA": {}}}}
    import os
    import yaml
    with open(os.path.join(root, "mimosa/inputdata/config/config_default.yaml"), encoding="utf8") as fh:
        tmpl = yaml.safe_load(fh)
    for mod, node in tmpl["model"].items():
        for v in node["values"]:
            if v != node["default"]:
                variants[f"{mod} {v}"] = {**base, f"model.{mod}": v}
    fresh = {}

    def build(it, ch):
        return it.getattr(program(it, ch), "concrete_model")
    for n, ch in variants.items():
        try:
            runs = list(s.run(host.run(lambda it: fingerprint(it, build(it, ch)))))
        except Exception as e:
            rep.undecided.append(f"{n}: {type(e).__name__} {str(e)[:200]}")
            continue
        if len(runs) == 1 and runs[0][0][0] == "ok":
            fresh[n] = runs[0][0][1]
        else:
            rep.undecided.append(f"{n}: {runs[0][0][1]}"[:250])
    names = list(fresh)
    seqs = [[names[0], n, names[0], n] for n in names[1:]] + [names + names[::-1]]
    if tier == "thorough":
        seqs += [[a, b, a] for a, b in itertools.permutations(names, 2)]
    for q in seqs:
        def fn(it):
            out, ms = [], []
            for n in q:
                mod = program(it, variants[n])
                m = it.getattr(mod, "concrete_model")
                d = difference(fresh[n], fingerprint(it, m))
                if d:
                    out.append(f"the model of {n}, made as number {len(ms) + 1}: {d}")
                ms.append((n, mod, m))
                for st in ("ok", "warning"):
                    host.status = st
                    try:
                        it.call(it.getattr(mod, "solve"), [], {})
                    except PyExc:
                        pass
                it.call(it.getattr(mod, "save"), [f"out{len(ms)}"], {})
            for i, (n, mod, m) in enumerate(ms):
                d = difference(fresh[n], fingerprint(it, m))
                if d and not out:
                    out.append(f"the model of {n} (number {i + 1}) after {len(ms) - i - 1} later models: {d}")
            return out
        rep.check("models in one process: " + ", ".join(q if len(q) < 5 else q[:2] + ["..."]), s, host.run(fn), lambda o, p: o[:2], W)
    return rep.result("The whole program is interpreted for sequences of models (with solving and saving in between); every set, parameter value, variable bound, constraint and objective of "
                      "each model, as symbolic expressions, is compared with that of the same configuration in a fresh process, right after it is made and again at the end.", ASSUME,
                      **{"configurations": names})


# ------------------------------------------------------------------ R02

def flat(x):
    """Parts of a logged message: texts and symbolic values."""
    if isinstance(x, Term) and x.op == "fn" and x.args[0] == "value":
        return [x]
    if isinstance(x, Term) and x.op in ("fstr", "format", "fn", "add", "sub"):
        return [y for a in x.args for y in flat(a)]
    return [x]


def logging(prop, tier, root=ROOT):
    rep = Report(prop)
    s, host = real_session(root)
    W = MAIN + "solve"
    IMPORTANT = ("info", "warning", "error", "critical", "exception", "warn", "log")

    def fn(regions, seq, other=None):
        def f(it):
            mods = [program(it, {**SHORT, "regions": r}) for r in (regions, other) if r]
            out = []
            for n, st in enumerate(seq):
                mod = mods[n % len(mods)]
                m = it.getattr(mod, "concrete_model")
                a, b = len(host.log), len(host.logs)
                host.status, host.condition = st, T("sym", "str", f"condition{len(out)}")
                exc = None
                try:
                    it.call(it.getattr(mod, "solve"), [], {})
                except PyExc as e:
                    exc = e
                out.append((st, host.condition, number(m.symbol("NPV", (m.world.times[-1],))), host.log[a:], host.logs[b:], exc))
            return out
        return host.run(f)

    def expect(res, p):
        out = []
        for st, cond, npv, log, logs, exc in res:
            what = f"after a solve with status {st!r}"
            recs = [(lv, flat(msg)) for _, lv, msg in logs if lv in IMPORTANT]
            texts = lambda parts: " ".join(str(x) for x in parts if isinstance(x, str))
            if not any(re.search(rf"\b{st}\b", texts(ps)) for lv, ps in recs):
                out.append(f"{what}: no log record has the status")
            if st == "ok":
                if not any(npv in ps for lv, ps in recs):
                    out.append(f"{what}: no log record has the final maximised value")
                pos = next((i for i, e in enumerate(log) if e[0] == "solve"), None)
                before = [e[1] for e in log[:pos] if e[0] == "clock"]
                after = [e[1] for e in log[(pos or 0):] if e[0] == "clock"]
                if not any([x for x in ps if x in before] and [x for x in ps if x in after] for lv, ps in recs):
                    out.append(f"{what}: no log record has the solving time")
            else:
                if st == "warning" and not any(lv in ("warning", "warn", "error", "critical", "exception") and re.search(rf"\b{st}\b", texts(ps)) for lv, ps in recs):
                    out.append(f"{what}: nothing is logged as warning or error")
                if st == "warning" and exc is not None and not any(cond in flat(a) for a in exc.eargs):
                    out.append(f"{what}: the exception does not tell the termination condition")
        return out[:3]
    for regions in (one("USA"), one("USA", "BRA")):
        for seq in (("ok",), ("warning",), ("error",), ("aborted", "unknown"), ("ok", "warning", "ok", "ok"), ("error", "ok")):
            rep.check(f"log of {len(regions)} regions, outcomes {'/'.join(seq)}", s, fn(regions, seq), expect, W)
    for seq in (("ok", "ok", "ok", "ok"), ("warning", "ok", "error"), ("ok", "warning", "unknown", "ok")):
        rep.check(f"log of two models in turn, outcomes {'/'.join(seq)}", s, fn(one("USA"), seq, one("USA", "BRA")), expect, W)
    return rep.result("The whole program is interpreted with a recording log and one symbol per clock reading and result; the records of every solve must hold its status, and for a successful one the final "
                      "value of the objective and the time between readings around the solve.", ASSUME)
