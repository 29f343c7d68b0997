from props_model import P

X = "mimosa/mimosa.py"
U = "mimosa/common/pyomo_utils.py"
SM = "mimosa/concrete_model/simulation_mode/"
NOSOLVE = "No solver is available to the unit tests, so solving, reading results, logging and saving are never executed by them. "


def Q(id, title, statement, text, files, mech, why, over=("inputs", "configurations"), observe=("saved files",)):
    return P(id, title, statement, text, why, files, mech, over=list(over), observe=list(observe))


PROPS = [
    Q("R01", "A solve runs exactly this model once and only success returns",
      "Solving sends the model once, with the chosen solver, options and verbosity (or to NEOS with the e-mail address), and returns only if the solver reports status ok, otherwise it raises the "
      "solver exception. The status of the last solve can be read afterwards and is empty while the solver could not run. Variables merged for the solver have their values again "
      "before results are read, logged or saved, also after a failed solve.",
      "every solver status and termination condition, a solver that fails itself, all combinations of solver options, one and several regions, repeated solves",
      [X], [("solve", X + ":MIMOSA.solve"), ("postprocessing", X + ":MIMOSA.postprocessing")], NOSOLVE + "The failure statuses come from outside.",
      over=("fault_sequences", "configurations", "histories"), observe=["calls of the solver", "exceptions", "status of the last solve"]),
    Q("R02", "The log tells the outcome of a solve truthfully",
      "After a successful solve the log holds the solver's status, the net present value at the last time step and the solving time; a solve ending with a warning or failure is logged as such and "
      "the exception names the termination condition. Nothing in the log depends on an earlier solve or on another model.",
      "every solver status, termination condition, value of the model and reading of the clock", [X, "mimosa/common/utils.py"],
      [("logging", X + ":MIMOSA.solve"), ("timer", "mimosa/common/utils.py:timer")], NOSOLVE, over=("fault_sequences", "inputs"), observe=["log messages", "exceptions"]),
    Q("R03", "The saved table holds every reported value at its place",
      "The saved table has exactly one row for each variable and time-and-region parameter and region (one row named Global for values without region), with its name, its unit with per-annum written as /yr, "
      "and in each year's column the value of that variable, region and year to at least six significant digits. Variables whose name starts with an underscore are left out. "
      "The file lies in the given folder under the given name, with the settings of exactly this model beside it; a suffix tells different settings apart, and the last saved name is that of the model's own last save.",
      "every value of every variable, several region lists and time grids with fractional years, names, folders, suffixes, histories of solves and saves of two models",
      ["mimosa/export/save.py", X, U], [("table", "mimosa/export/save.py:save_output"), ("save", X + ":MIMOSA.save"), ("units", U + ":get_all_variables")],
      NOSOLVE + "A misplaced column or a lost region would show only when comparing every cell.", over=("inputs", "configurations", "histories"), observe=["saved table", "saved settings"]),
    Q("R04", "Simulation mode pins exactly the given variables to the given data",
      "With simulation mode on, every listed variable is bound within 0.001 to the given data of its own region (or Global) in every model year, on the spline through the given years and the documented extension "
      "after the last one; exactly the listed constraints are switched off and all others stay. With simulation mode off neither list has any effect. A variable, constraint, region or file that does not exist is rejected.",
      "any data values, given directly or in tables with several variables, several time grids, one to three variables, every list of constraints",
      [SM + "set_constraints.py", SM + "utils.py", SM + "main.py", X],
      [("pinning", SM + "set_constraints.py:set_constraints_fixed_variables"), ("data", SM + "utils.py:InterpolatingData")],
      "The unit tests do not use simulation mode.", observe=["constraints of the model", "exceptions"]),
    Q("R05", "A model does not depend on models made before it in the process",
      "The sets, parameter values, bounds, constraints and objective of a model are those that a fresh process would create for the same configuration, whatever other models were created or solved before. "
      "Creating a model leaves every earlier one as it was.",
      "sequences of constructions over pairs of configurations which differ in horizon, regions, modules, options, data or simulation mode",
      [X, "mimosa/abstract_model.py", "mimosa/concrete_model/instantiate_params.py", "mimosa/common/data/datastore.py"], [("construction", X + ":MIMOSA.__init__")],
      "Each unit test runs on its own; whether an earlier model leaves traces is a property of histories.", over=("histories", "configurations"), observe=["contents of the built model"]),
    Q("R06", "Runs are reproducible and touch only what they are asked to",
      "For the same options and input files, the model, the call of the solver, the log (apart from times) and the saved files are the same in every process, whatever the working directory, environment variables, "
      "clock, random state, hash seed, order of sets and folder listings, or output of earlier runs. Creating and solving a model write no file and change nothing around the process except the e-mail variable which "
      "NEOS needs; saving writes only the table and the settings file, inside the given folder. The shipped data and settings are found wherever the program is started; files named by the user are relative to the working directory.",
      "default and non-default options, every module choice, own regional values, simulation mode, local solver and NEOS; two surroundings which differ in every respect at once",
      [X, "mimosa/common/data/datastore.py", "mimosa/export/save.py", "mimosa/common/config/parseconfig.py"],
      [("run", X + ":MIMOSA.__init__"), ("saving", "mimosa/export/save.py:save_output")],
      "The unit tests all run in one process, in one folder, with one environment; a dependence on surroundings shows only elsewhere.", over=("configurations", "histories"),
      observe=["contents of the built model", "calls of the solver", "log", "written files", "environment"]),
]
_T = ("abstract interpretation of the whole run (construction, solve, export) with a recording model of Pyomo, solver, clock and file system and symbolic values under trace partitioning; ")
TECH = {
    "R01": _T + "recorded calls and exceptions per partition compared with the contract",
    "R02": _T + "recorded log events compared with the contract",
    "R03": _T + "provenance of every cell of the written table compared with the contract",
    "R04": _T + "relations of the added constraints evaluated against an independent spline reference",
    "R05": _T + "interpreted heap after a history compared with a fresh one",
    "R06": _T + "non-interference: the run interpreted in two surroundings that differ in everything a program may read, with taint of outside values, and a log of effects",
}
NOTES = {
    "R01": "Pyomo, the solvers and NEOS are recording models; the presolve transformation is modelled by its documented effect on merged variables.",
    "R02": "Wording of log messages is free; only the presence of the facts and the level are required.",
    "R03": "Fixed list of regions, grids, folders and names; all values symbolic.",
    "R04": "Data ending before 2100 follow the extension rule of input series; spline compared at sample valuations.",
    "R06": "Two surroundings; a dependence on a third one (a special value of one variable) is seen only if the value shows. Input data files as shipped.",
    "R05": "Histories of up to four constructions over a fixed list of pairs.",
}
