"""C08: quantities with units, against a hand-written conversion table."""
from fractions import Fraction as Fr

from .interp import PyExc, VecV
from .session import Report, Session, numbers
from .terms import T
from . import terms as tm

# number text, unit, target, factor from unit to target
CONV = [
    ("GtCO2", "emissions_unit", 1), ("MtCO2", "emissions_unit", 1e-3), ("TtCO2", "emissions_unit", 1e3), ("tCO2", "emissions_unit", 1e-9),
    ("ktCO2", "emissions_unit", 1e-6), ("Gt CO2", "emissions_unit", 1), ("Mt CO2", "emissions_unit", 1e-3), ("t CO2", "emissions_unit", 1e-9),
    ("GtCO2/yr", "emissionsrate_unit", 1), ("GtCO2/year", "emissionsrate_unit", 1), ("MtCO2/yr", "emissionsrate_unit", 1e-3),
    ("Mt CO2/yr", "emissionsrate_unit", 1e-3), ("TtCO2/yr", "emissionsrate_unit", 1e3),
    ("trillion USD2005/yr", "currency_unit", 1), ("billion USD2005/yr", "currency_unit", 1e-3), ("million USD2005/yr", "currency_unit", 1e-6),
    ("thousand USD2005/yr", "currency_unit", 1e-9), ("USD2005/yr", "currency_unit", 1e-12), ("billion US$2005/yr", "currency_unit", 1e-3),
    ("billion US$2005/year", "currency_unit", 1e-3), ("trillion USD2010/yr", "currency_unit", 1.11), ("billion US$2010/yr", "currency_unit", 1.11e-3),
    ("billion", "population_unit", 1), ("million", "population_unit", 1e-3), ("thousand", "population_unit", 1e-6), ("trillion", "population_unit", 1e3),
    ("delta_degC", "temperature_unit", 1),
    ("USD2005/tCO2", "currency_unit/emissionsrate_unit", 1e-3), ("US$2005/t CO2", "currency_unit/emissionsrate_unit", 1e-3),
    ("USD2010/tCO2", "currency_unit/emissionsrate_unit", 1.11e-3), ("trillion USD2005/GtCO2", "currency_unit/emissionsrate_unit", 1),
    ("USD2005/MtCO2", "currency_unit/emissionsrate_unit", 1e-9), ("tCO2/USD2005", "emissionsrate_unit/currency_unit", 1e3),
    ("delta_degC/TtCO2", "temperature_unit/emissions_unit", 1e-3), ("delta_degC/(TtCO2)", "(temperature_unit)/(emissions_unit)", 1e-3),
    ("delta_degC/GtCO2", "(temperature_unit)/(emissions_unit)", 1), ("delta_degC/GtCO2", "temperature_unit/emissions_unit", 1),
    ("GtCO2/yr/billion", "emissionsrate_unit/population_unit", 1), ("MtCO2/yr/million", "emissionsrate_unit/population_unit", 1),
    ("USD2005/yr", "USD2005/yr", 1), ("USD2010", "USD2005", 1.11), ("GtCO2", "tCO2", 1e9), ("m", "cm", 100), ("mm", "m", 1e-3),
    ("ton", "kg", 1000), ("yr", "year", 1),
]
CLASH = [
    ("GtCO2", "emissionsrate_unit"), ("GtCO2/yr", "emissions_unit"), ("trillion USD2005", "currency_unit"), ("GtCO2", "currency_unit"),
    ("USD2005/yr", "emissionsrate_unit"), ("delta_degC", "emissions_unit"), ("GtCO2", "temperature_unit"), ("m", "temperature_unit"),
    ("USD2005/tCO2", "emissionsrate_unit/currency_unit"), ("tCO2/USD2005", "currency_unit/emissionsrate_unit"), ("delta_degC", "(temperature_unit)/(emissions_unit)"),
    ("billion USD2005/yr", "population_unit"), ("billion people", "emissions_unit"), ("kg", "emissions_unit"), ("USD2005/tCO2", "currency_unit/emissions_unit"),
]
UNDEF = [("notaunit", "emissions_unit"), ("GtCO2/notaunit", "emissionsrate_unit"), ("EUR2007/yr", "currency_unit"), ("GtC02", "emissions_unit")]
NUMS = [("20", 20.0), ("1", 1.0), ("0", 0.0), ("-3.5", -3.5), ("1e3", 1000.0), ("2.5e-4", 2.5e-4), (".5", 0.5), ("+7", 7.0)]

# documented options with a quantity: unit of the option -> the factor the shipped default text must convert with
WHERE = "mimosa/common/units.py:Quantity.__call__"


def quant(it):
    return it.load("mimosa.common").env.vars["quant"]


def run(prop, tier, root=None):
    from .root import ROOT
    root = root or ROOT
    rep = Report(prop)
    s = Session(root=root)
    x = T("par", "cell", "x")
    y = T("par", "cell", "y")

    def val(v):
        return v.cell("x")
    # 3-argument form: any number
    for unit, target, f in CONV:
        rep.check(f"any number x of {unit!r} converted to {target!r}", s, lambda it: it.call(quant(it), [x, unit, target], {}),
                  lambda r, p: numbers([("the result", r, lambda v: v.cell("x") * f)], p), WHERE)
        rep.check(f"series of {unit!r} converted to {target!r}", s, lambda it: it.call(quant(it), [VecV([x, y, 2.0]), unit, target], {}),
                  lambda r, p: numbers(list(zip(("entry 0", "entry 1", "entry 2"), list(r.items) if isinstance(r, VecV) else [r] * 3,
                                                (lambda v: v.cell("x") * f, lambda v: v.cell("y") * f, 2.0 * f))), p), WHERE)
        for txt, n in NUMS[: 3 if tier == "quick" else None]:
            rep.check(f"text '{txt} {unit}' converted to {target!r}", s, lambda it: it.call(quant(it), [f"{txt} {unit}", target], {}),
                      lambda r, p: numbers([("the result", r, n * f)], p), WHERE)
        rep.check(f"quantity object of {unit!r} converted to {target!r}", s,
                  lambda it: it.getattr(it.call(quant(it), [x, unit, target], {"only_magnitude": False}), "magnitude"),
                  lambda r, p: numbers([("the magnitude", r, lambda v: v.cell("x") * f)], p), WHERE)
    for txt, n in NUMS:
        rep.check(f"text '{txt} GtCO2'", s, lambda it: it.call(quant(it), [f"{txt} GtCO2", "emissions_unit"], {}),
                  lambda r, p: numbers([("the result", r, n)], p), WHERE)
    for unit, target in CLASH + UNDEF:
        for label, args in ((f"any number of {unit!r} to {target!r}", [x, unit, target]), (f"text '3 {unit}' to {target!r}", [f"3 {unit}", target]),
                            (f"series of {unit!r} to {target!r}", [VecV([x, y]), unit, target])):
            rep.check(label, s, lambda it: it.call(quant(it), list(args), {}), "raises", WHERE)
    for target in ("emissions_unit", "emissionsrate_unit", "currency_unit", "temperature_unit"):
        for n in (20, 1.5, 0):
            rep.check(f"number {n} without unit to {target!r}", s, lambda it: it.call(quant(it), [n, target], {}), "raises", WHERE)
        for t in ("20", ""):
            rep.check(f"text {t!r} without unit to {target!r}", s, lambda it: it.call(quant(it), [t, target], {}), "raises", WHERE)
        rep.check(f"False to {target!r}", s, lambda it: it.call(quant(it), [False, target], {}),
                  lambda r, p: [] if r is False else [f"is {r!r}, must stay False"], WHERE)
        rep.check(f"False to {target!r} where it is not allowed", s, lambda it: it.call(quant(it), [False, target], {"can_be_false": False}), "raises", WHERE)
    for args in ([], ["emissions_unit"], [1, "GtCO2", "emissions_unit", "emissions_unit"]):
        rep.check(f"conversion with {len(args)} arguments", s, lambda it: it.call(quant(it), list(args), {}), "raises", WHERE)
    # labels denote the same unit as the conversion target
    for name in ("currency_unit", "emissions_unit", "emissionsrate_unit", "temperature_unit", "population_unit",
                 "currency_unit/emissionsrate_unit", "emissionsrate_unit/population_unit", "emissionsrate_unit / currency_unit"):
        src = {u: f for u, t, f in CONV if t == name or t == name.replace(" ", "")}

        def label_factor(it, name=name):
            u = it.call(it.getattr(quant(it), "unit"), [name], {})
            return [s.units.factor(x.replace("US$", "USD").replace("t CO2", "tCO2").replace("year", "yr"), u.unit) for x in src]
        rep.check(f"unit label of {name!r}", s, label_factor,
                  lambda r, p: [f"a value in {u!r} has factor {float(a):g} to the label's unit, {f:g} to the conversion's" for (u, f), a in zip(src.items(), r)
                                if abs(float(a) - f) > 1e-9 * f], "mimosa/common/units.py:Quantity.unit")
    return rep.result("The conversion function is interpreted abstractly with unconstrained numbers for every unit of a hand-written table of units and "
                      "factors (independent of the shipped definitions), in its text, number, series and object forms; results must be the number "
                      "times the exact factor, and every pair of different dimension must be rejected.",
                      ["The unit registry (pint) is modelled: definitions files, prefixes, products, quotients and powers of units."],
                      **{"unit pairs": len(CONV), "dimension clashes": len(CLASH), "undefined units": len(UNDEF)})
