"""Loads the spec modules through the analysis interpreter."""
import os

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
LAW_FILES = ("emissions", "sealevel", "damages", "mitigation", "economy", "sharing", "welfare")


def paths():
    out = {"spec": os.path.join(SPEC, "__init__.py")}
    for f in os.listdir(SPEC):
        if f.endswith(".py") and f != "__init__.py":
            out["spec." + f[:-3]] = os.path.join(SPEC, f)
    return out


def load_laws(b):
    from .laws import Law
    out = []
    for f in LAW_FILES:
        mod = b.it.load("spec." + f)
        for prop, name, over, fn in mod.env.vars["LAWS"]:
            out.append(Law(prop, name, over, fn))
    return out
