"""U01: every quantity carries the unit its values are in, from the settings to the saved table."""
import os

from .root import ROOT
from . import modelcheck, pyomo_model as pm, scenario
from .interp import Builtin, BoundV, FuncV, PyExc, Unsupported, freeze
from .terms import T, Term
from . import terms as tm
from .unitmodel import Registry, UnitError

MONEY, RATE, EMIS = "trillion USD2005/yr", "GtCO2/yr", "GtCO2"
NONE = ("dimensionless", "")

# Physical units, from the documentation of the quantities and the way the
# accounting identities combine them (independent of the labels in the code).
OPTIONS = {"economics.MAC.gamma": f"({MONEY})/({RATE})", "economics.MAC.LBD_scaling": EMIS, "emissions.carbonbudget": EMIS,
           "emissions.global min level": RATE, "emissions.regional min level": RATE, "temperature.initial": "delta_degC",
           "temperature.target": "delta_degC", "temperature.TCRE": "delta_degC/GtCO2"}
DATA = {"GDP": MONEY, "emissions": RATE, "population": "billion"}
FRACTION = ("fraction_of_GDP",) + NONE
TABLE = {}
for names, unit in (
        ("init_capitalstock_factor", ("yr",)),
        ("GDP_gross GDP_net baseline_GDP consumption investments mitigation_costs area_under_MAC import_export_mitigation_cost_balance "
         "financial_transfer mortality_cost_oldest", (MONEY,)),
        ("capital_stock", ("trillion USD2005",)),
        ("baseline baseline_emissions global_emissions regional_emissions regional_emission_reduction regional_emission_allowances "
         "paid_for_emission_reductions import_export_emission_reduction_balance", (RATE,)),
        ("cumulative_emissions cumulative_baseline_emissions cumulative_global_baseline_emissions", (EMIS,)),
        ("carbonprice global_carbonprice global_cost_per_emission_reduction_unit", (f"({MONEY})/({RATE})",)),
        ("global_emission_reduction_per_cost_unit baseline_carbon_intensity", (f"({RATE})/({MONEY})",)),
        ("temperature T0", ("degC_above_PI", "delta_degC")),
        ("total_SLR slr_thermal slr_cumgsic slr_cumgis", ("m",)),
        ("population", ("billion", "billion people")),
        ("damage_costs damage_costs_slr damage_costs_non_slr rel_mitigation_costs rel_financial_transfer global_rel_mitigation_costs "
         "effort_sharing_common_level", FRACTION),
        ("relative_abatement", ("fraction_of_baseline_emissions",) + NONE),
        ("learning_factor LBD_factor LOT_factor TFP percapconv_share percapconv_share_init percapconv_share_pop", NONE)):
    for n in names.split():
        TABLE[n] = unit


class Labels:
    def __init__(self, root):
        import yaml
        self.reg = Registry()
        base = os.path.join(root, "mimosa/inputdata/config")
        self.reg.load(os.path.join(base, "extra_units.txt"))
        with open(os.path.join(base, "default_units.yaml"), encoding="utf8") as fh:
            self.defaults = yaml.safe_load(fh)

    def text(self, s):
        for k, v in self.defaults.items():
            s = s.replace(k, f"({v})")
        return s.replace("year", "yr")

    def same(self, label, want):
        """None when the label denotes one of the wanted units, else the reason."""
        why = None
        try:
            got = self.reg.expr(self.text(label))
        except UnitError as e:
            return str(e.msg if hasattr(e, "msg") else e)
        for w in want:
            if label.strip() in ("fraction_of_GDP", "fraction_of_baseline_emissions") and label.strip() not in want:
                why = why or f"it is not a {label.strip()}"
                continue
            exp = self.reg.expr(self.text(w)) if w not in NONE else (1, {})
            if exp[1] == got[1] and abs(float(got[0]) / float(exp[0]) - 1) < 1e-9:
                return None
            why = why or (f"is another dimension than {want[0]!r}" if exp[1] != got[1]
                          else f"is {float(got[0] / exp[0]):g} times {want[0]!r}")
        return why


def label_text(it, u):
    """Text of a unit label, None when there is none, Unsupported otherwise."""
    if u is None:
        return None
    if isinstance(u, Term) and u.op == "unitlabel" and isinstance(u.args[0], str):
        return u.args[0]
    raise Unsupported(f"unit label {tm.show(freeze(u))[:80]}")


def run(prop, tier, root=None):
    root = root or ROOT
    L = Labels(root)
    fs, und, samples, n, ok = [], [], [], 0, 0

    def judge(kind, name, label, want, where):
        nonlocal n, ok
        n += 1
        if len(samples) < 12:
            samples.append(f"{kind} {name}: {label!r}")
        why = L.same(label, want)
        if why is None:
            ok += 1
            return
        fs.append({"kind": "unit label", "prop": prop, "props": [prop], "key": f"{prop}|{kind}|{name}|{label}",
                   "text": f"{kind} {name!r} has the unit {label!r}, its values are in {want[0]!r} ({why})", "where": where, "scenario": "", "path": ""})

    an = scenario.Analysis(root)
    for o, want in OPTIONS.items():
        leaf = an.leaves.get(o)
        if leaf is not None and leaf.get("type") == "quantity" and isinstance(leaf.get("unit"), str):
            judge("option", o, leaf["unit"], (want,), f"{an.cfg_file}: {o}")
    for v, want in DATA.items():
        leaf = an.leaves.get("input.variables." + v)
        if leaf is not None and isinstance(leaf.get("default"), dict) and isinstance(leaf["default"].get("unit"), str):
            judge("data series", v, leaf["default"]["unit"], (want,), f"{an.cfg_file}: input.variables.{v}")
    b = modelcheck.Builder(root)
    cfgs = modelcheck.configs(b)
    sel = cfgs if tier == "thorough" else modelcheck.covering(cfgs)
    done = set()
    funcs = set()
    for mods in sel:
        b = modelcheck.Builder(root)
        try:
            scs = b.scenarios(mods)
        except (Unsupported, tm.Unnormalisable, RecursionError, PyExc) as e:
            und.append(f"{mods}: {e}")
            continue
        funcs |= set(b.it.visited_names())
        for sc in scs:
            for name, c in sc.model.comps.items():
                ctype = getattr(c, "ctype", None)
                if ctype not in ("Var", "Param") or name not in TABLE:
                    continue
                try:
                    lab = label_text(b.it, c.kwargs.get("units"))
                except Unsupported as e:
                    if (name, str(e)) not in done:
                        done.add((name, str(e)))
                        und.append(f"{name}: {e}")
                    continue
                if lab is None or (name, lab) in done:
                    continue
                done.add((name, lab))
                judge("variable" if ctype == "Var" else "parameter", name, lab, TABLE[name], str(c.where))
    cov = {"explanation": "The unit labels given to variables, parameters, options and data series are collected by abstract interpretation of every "
           "module combination and evaluated with the shipped unit definitions; dimension and factor must be those of an independent table.",
           "obligations": n, "discharged": ok, "module combinations analysed": len(sel), "functions analysed": sorted(funcs), "samples": samples}
    return {"findings": fs, "undecided": und, "coverage": cov,
            "assumptions": ["A quantity without a label makes no claim about its unit.", "The unit registry (pint) is modelled."]}
