"""Which analysis decides which property."""
from . import configprops, dataprops, examples, interp, labelcheck, manual, modelcheck, runprops, shipped, surroundings, unitcheck


class Check:
    def __init__(self, fn, level="other", assumptions=()):
        self.fn, self.level, self.assumptions = fn, level, list(assumptions)


MODEL_ASSUME = [
    "Model equations are compared at the time indices 0..3 and at three generic regions; start year, time step, every "
    "numeric or optional option, every table column and every data series stay symbolic.",
    "Library calls (Pyomo, NumPy) are modelled by their documented meaning; Pyomo itself is trusted.",
    "Two relations are equal when their normal forms are; otherwise they are compared by evaluating both normal forms at "
    "fixed sample points.",
]
QUICK_BUDGET, THOROUGH_BUDGET = 240, 700


def limit(start, tier):
    interp.DEADLINE[0] = start + (780 if tier == "thorough" else 480)


def model(prop, tier):
    outs, sel, cf = modelcheck.run(prop, tier, THOROUGH_BUDGET if tier == "thorough" else QUICK_BUDGET)
    stats = {}
    fs, und, funcs = [], [], set()
    for o in outs:
        fs += o["findings"]
        und += o["undecided"]
        funcs |= set(o["functions"])
        for k, v in o["stats"].items():
            stats[k] = stats.get(k, 0) + v
    if prop == "M17":
        stats["obligations"] = stats.get("closed-world obligations", 0)
        stats["discharged"] = stats.get("closed-world discharged", 0)
    elif prop == "M18":
        stats["obligations"] = stats.get("rules", 0) + stats.get("scenarios", 0)
        stats["discharged"] = stats["obligations"] - len({f["key"] for f in fs if f["prop"] == "M18"})
    cov = {"explanation": "Every constraint, bound, parameter initialiser and the objective of the model is extracted from "
           "the source by abstract interpretation under trace partitioning, per module combination, and compared with the "
           "independent laws in spec/: each law must be imposed on every partition where it applies and nothing else may "
           "be imposed.",
           "module combinations analysed": [o["config"] for o in outs], "module combinations total": len(cf),
           "functions analysed": sorted(funcs), "samples": [f["text"][:200] for f in fs[:3]] or ["no finding"]}
    cov.update(stats)
    return {"findings": fs, "undecided": und, "coverage": cov, "assumptions": MODEL_ASSUME}


CHECKS = {f"M{i:02d}": Check(model) for i in range(1, 19)}
CHECKS.update({f"C{i:02d}": Check(configprops.run) for i in range(1, 6)})
CHECKS["C06"] = Check(configprops.run_history)

CHECKS["C08"] = Check(unitcheck.run)
CHECKS["C09"] = Check(shipped.run)
CHECKS.update({"D01": Check(dataprops.selection), "D02": Check(dataprops.series), "D03": Check(dataprops.grid),
               "D04": Check(dataprops.history), "D05": Check(dataprops.regional_check)})

CHECKS.update({"R01": Check(runprops.solving), "R02": Check(runprops.logging), "R03": Check(runprops.saving), "R04": Check(runprops.simulation),
               "R05": Check(runprops.histories), "R06": Check(surroundings.run)})

CHECKS["U01"] = Check(labelcheck.run)
CHECKS["E01"] = Check(examples.run)
CHECKS["E02"] = Check(manual.run)


def run(prop, tier):
    return CHECKS[prop].fn(prop, tier)
