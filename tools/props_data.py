from props_model import P

D = "mimosa/common/data/"
RP = "mimosa/common/regional_params/"
WHY = ("The unit tests never read a data table: nothing compares a value of the model with the table it came from, for any option, unit, region "
       "or time grid.")


def Q(id, title, statement, text, files, mech, why=WHY, over=("configurations", "inputs"), observe=("parameter values of the built model",)):
    return P(id, title, statement, text, why, files, mech, over=list(over), observe=list(observe))


PROPS = [
    Q("C08", "Quantities are converted with the exact factor or rejected",
      "A number, text or series given with a unit is converted to the requested unit by exactly the physical factor between them (metric "
      "prefixes, money of the documented years, per-year rates, people, temperature differences), whatever the number. Units of another dimension, "
      "unknown units and values without a unit are rejected; an option that is switched off stays off; the label of a unit denotes the unit values are converted to.",
      "every number, for every unit of a hand-written table of units and factors, in text, number, series and object form",
      ["mimosa/common/units.py", "mimosa/inputdata/config/default_units.yaml", "mimosa/inputdata/config/extra_units.txt"], [("conversion", "mimosa/common/units.py:Quantity.__call__")],
      "No unit test converts a quantity.", observe=["result of the conversion", "exception"]),
    Q("C09", "Shipped data answer every request of every combination of options",
      "Every data series and every regional parameter which the model requests under any combination of documented modules and option values "
      "exists exactly once in the shipped tables for every default region and every scenario, and is a finite number over the whole horizon or a known functional form. So no documented combination of options fails, "
      "or silently gets a missing value, because of the shipped data.",
      "every module combination, every value of the options that enter the names of series and parameters, every default region, every shipped scenario and table",
      ["mimosa/inputdata", D + "datastore.py", RP + "main.py"],
      [("data series", D + "datastore.py:DataStore"), ("regional parameters", RP + "main.py:RegionalParamStore")],
      "The model is never built by the unit tests, and building one covers a single combination of options."),
    Q("D01", "Each data series comes from exactly the requested table row",
      "The values of an input series are the cells of the one row of the requested file whose model, scenario, region and variable are all exactly the requested ones, "
      "with the cells taken by year. When no row or more than one row matches for a region, creating the model fails; order of rows, order of columns and further label columns play no role.",
      "every combination of model, scenario, region, variable and file over generic tables with rows that differ in one key only, any cell values",
      [D + "datastore.py"], [("row selection", D + "datastore.py")]),
    Q("D02", "Series are converted, extended beyond 2100 and interpolated as documented",
      "The value of a series in a model year is the table value in that year, converted from the unit of its row to the requested unit; between decades it lies on the interpolating spline "
      "through all decades, and beyond 2100 it follows the last decade's growth rate fading linearly to zero in 2150. Units that cannot be converted and years outside 2010 to 2250 are rejected.",
      "any cell values, six units, time grids with different start, end and step", [D + "datastore.py", D + "utils.py"],
      [("conversion and extension", D + "datastore.py:DataStore"), ("extension", D + "utils.py")]),
    Q("D03", "Every value is placed at its own time step and region",
      "The time steps are exactly the years start, start plus step, and so on, up to the first one that is not before the end year, and the reported step of 2100, number of steps, step length "
      "and start agree with them. For each step and region the model holds each series' value for that year and that region, once, with the regions in the configured order, except that an entry of the custom mapping of the simulation settings stands in place of the values of the parameter it names.",
      "time grids with whole and fractional steps, before, around and beyond 2100", ["mimosa/concrete_model/instantiate_params.py"],
      [("instantiation", "mimosa/concrete_model/instantiate_params.py:InstantiatedModel")]),
    Q("D04", "The data of a model do not depend on models made before it",
      "Whatever models were created, or rejected, earlier in the same process, the series and regional parameters of a model are those a fresh process would read for its own configuration. "
      "Reading a value again gives the same value, also after other models have been created.",
      "sequences of two or three models which differ in file, scenario, variable, unit, time grid, regions, region definition or overrides, and rejected ones in between",
      [D + "datastore.py", RP + "main.py"], [("data cache", D + "datastore.py:DataStore"), ("regional parameters", RP + "main.py:RegionalParamStore")],
      "Each unit test looks at one object only; whether earlier models leave traces is a property of histories.", over=("histories", "configurations")),
    Q("D05", "Regional parameters: override, else table, else mean over mapped regions",
      "A regional parameter of a region is the user's override for exactly that region, category and parameter if there is one (zero included), else the table cell of that region, and when the table uses another "
      "region definition the mean over its regions that the mapping table assigns to the region, missing cells left out. Missing tables, mappings, columns, regions, "
      "categories and parameters are rejected, never replaced by a value.",
      "three region definitions, mappings in both directions, overrides of every kind, any cell values", [RP + "main.py", RP + "region_mappers.py"],
      [("lookup", RP + "main.py:RegionalParamStore"), ("mapping", RP + "region_mappers.py")]),
]
_T = ("abstract interpretation of the data pipeline on symbolic tables under trace partitioning; the resulting expressions are compared per partition with "
      "an independent reference")
TECH = {p["id"]: _T for p in PROPS}
TECH["C08"] = "abstract interpretation of the conversion with an unconstrained number; symbolic results compared with an independent unit table"
TECH["C09"] = "collection of all requests by abstract interpretation of every module combination, then abstract interpretation of the stores on the shipped tables"
TECH["D03"] = "abstract interpretation of the instantiation with symbolic stores; provenance of every cell compared with the documented grid"
TECH["D04"] = TECH["D04"] + "; caches and class state are part of the interpreted heap (histories of constructors)"
NOTES = {
    "C08": "The unit registry (pint) is a model: definition files, prefixes, products, quotients, powers. Units outside the table are not examined.",
    "C09": "Region definitions other than the default one need tables the user supplies and are not claimed.",
    "D01": "Finite family of keys; cells symbolic.",
    "D02": "Fixed list of time grids and units; cells symbolic on both signs of the last growth rate; spline compared at sample valuations.",
    "D03": "Fixed list of time grids; the abstract model is a stub with two regional series.",
    "D04": "Histories of length two and three over a fixed list of variants.",
    "D05": "Fixed small tables with symbolic cells; the first value is accepted for text parameters mapped to fewer regions.",
}
