from props_model import P
C = "mimosa/components/"


def Q(id, title, statement, text, files, mech, why, over, observe):
    return P(id, title, statement, text, why, files, mech, over=list(over), observe=list(observe))


PROPS = [
    Q("U01", "Reported quantities carry the unit their values are in",
      "Every option and data series that has a unit is converted to the unit in which the equations combine it, and every quantity of the model that is reported with a unit label carries the unit its values are in: "
      "money per year, emissions per year, cumulative emissions, prices per emission, stocks, people, temperatures, lengths, shares. This holds for every combination of modules.",
      "every quantity option, data series, variable and parameter under all module combinations",
      [C, "mimosa/inputdata/config/config_default.yaml", "mimosa/common/units.py"],
      [("labels of variables", C + "mitigation.py:get_constraints"), ("units of options", "mimosa/inputdata/config/config_default.yaml")],
      "Unit labels take no part in any computation, so no test result depends on them; a wrong unit of an option scales the input silently.", ("configurations",), ("unit column of the saved table", "values of options in the model")),
    Q("E01", "Documented programs and run scripts work",
      "Every run script of the repository and every complete program in its documentation runs through: the functions it calls exist and accept its arguments, the options it sets exist and accept the values, "
      "its models can be built, and each solve and save it contains takes place.",
      "all run scripts and all complete documented programs, with any values the solver may return",
      ["run.py", "run_baseline.py", "docs/run.md", "mimosa/mimosa.py"], [("scripts", "run.py"), ("documentation", "docs/run.md"), ("constructor", "mimosa/mimosa.py:MIMOSA.__init__")],
      "The examples need a solver, which the tests do not have; documentation is not executed at all.", ("programs", "configurations"), ("exceptions", "calls of the solver")),
    Q("E02", "The parameter reference tells every option as it is checked",
      "The generated parameter reference has exactly one entry for every documented option, under its full path, which tells its description, type, default, whether it can be switched off, and its actual bounds, "
      "unit or allowed values, with a usage example that sets exactly that option to its default. References to model parameters on the other pages are expanded to the option they take their value from, with its "
      "default; unknown references and the rest of a page stay as they are.",
      "every option of the template, every model parameter, every reference in the documentation",
      ["docs/scripts/mkdocs_hooks.py", "mimosa/common/config/utils/parsers.py", "mimosa/inputdata/config/config_default.yaml"],
      [("reference", "docs/scripts/mkdocs_hooks.py:recursive_param_print"), ("texts of an option", "mimosa/common/config/utils/parsers.py:GeneralParser.to_markdown")],
      "The documentation is not built by any test, and users read limits and defaults nowhere else.", ("inputs",), ("generated pages",)),
]
TECH = {"U01": "abstract interpretation collecting unit labels over all module combinations; dimension and factor compared with an independent table (unit type checking)",
        "E01": "abstract interpretation of every documented program as a client of the package, with recording models of Pyomo, solver and file system",
        "E02": "abstract interpretation of the documentation hooks with the shipped template; the generated entries are compared with the template option by option"}
NOTES = {"U01": "Quantities without a label make no claim; a new quantity outside the table is not judged.",
         "E01": "The solver is assumed to succeed; post-processing of saved files in a script is left out.",
         "E02": "The list of parser types with examples is not judged, nor is the layout of an entry."}
