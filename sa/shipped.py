"""C09: the shipped data answer every request that any combination of options makes."""
import itertools
import os
import re

from .root import ROOT
from . import frames, modelcheck, scenario
from .dataprops import datastore, read, regional
from .interp import PyExc, Unsupported
from .session import Report, Session
from .store import Contradiction, Store
from .terms import T, Term
from . import terms as tm

FAMILIES = {"Linear": ("b1",), "Quadratic": ("b1", "b2"), "Logistic": ("b1", "b2", "b3")}


def family(form):
    """Coefficients a functional form uses (None: unknown form)."""
    hit = [c for f, c in FAMILIES.items() if isinstance(form, str) and f in form]
    return hit[0] if len(hit) == 1 else None


def leaf_symbols(x, out):
    if isinstance(x, Term):
        if x.op == "sym" and x.args[0] in ("cfg", "raw"):
            out[x] = x.args[1]
        for a in x.args:
            leaf_symbols(a, out)
    elif isinstance(x, (tuple, list)):
        for a in x:
            leaf_symbols(a, out)
    return out


STR = {"split", "rsplit", "partition", "rpartition", "strip", "lstrip", "rstrip", "replace", "removeprefix", "removesuffix", "index", "find", "rindex", "rfind", "lower", "upper", "join", "title", "splitlines", "format"}
OPS = {"add": lambda *a: sum(a), "sub": lambda a, b: a - b, "neg": lambda a: -a}


def computed(x, env):
    """The value of a calculation with texts under an assignment of the options (None: unknown)."""
    if isinstance(x, (str, int, float)) or x is None:
        return x
    if isinstance(x, (tuple, list)) and not isinstance(x, Term):
        if len(x) == 4 and x[0] == "slice":
            return slice(*(whole(computed(a, env)) for a in x[1:]))
        if x and x[0] == "list":
            return [computed(a, env) for a in x[1:]]
        return tuple(computed(a, env) for a in x)
    if not isinstance(x, Term):
        return None
    try:
        if x in env or x.op in ("fstr", "num", "const"):
            return float(x.args[0]) if x.op == "num" else text(x, env)
        if x.op in OPS:
            return OPS[x.op](*(computed(a, env) for a in x.args))
        if x.op in ("getitem", "sub_", "item"):
            return computed(x.args[0], env)[whole(computed(x.args[1], env))]
        if x.op == "call" and isinstance(x.args[0], Term):
            f = x.args[0]
            a = [whole(computed(y, env)) for y in x.args[1]]
            kw = {k: whole(computed(v, env)) for k, v in (x.args[2] if len(x.args) > 2 else ())}
            if f.op == "attr":
                o, n = computed(f.args[0], env), f.args[1]
                if isinstance(o, str) and n in STR or isinstance(o, re.Match) and n in ("group", "groups", "start", "end", "groupdict"):
                    return getattr(o, n)(*a, **kw)
            if f.op == "ext" and f.args[0] in ("re.match", "re.search", "re.fullmatch", "re.sub", "re.split"):
                return getattr(re, f.args[0][3:])(*a, **kw)
            if f.op == "ext" and f.args[0] == "len":
                return len(a[0])
        if x.op == "fn" and x.args[0] == "len":
            return len(computed(x.args[1], env))
    except (TypeError, ValueError, IndexError, KeyError, AttributeError):
        pass
    return None


def whole(x):
    return int(x) if isinstance(x, float) and x == int(x) else x


def text(x, env):
    """The concrete text of a name under an assignment of the options."""
    if isinstance(x, str):
        return x
    if isinstance(x, Term):
        if x in env:
            return str(env[x])
        if x.op == "fstr":
            return "".join(text(a, env) for a in x.args)
        if x.op == "fn" and x.args[0] in ("str", "tostr") and len(x.args) == 2:
            return text(x.args[1], env)
        if x.op in ("num", "const"):
            return str(x.args[0])
    if isinstance(x, (int, float)):
        return str(x)
    v = computed(x, env)
    if isinstance(v, (str, int, float)):
        return str(v)
    raise Unsupported(f"parameter name {tm.show(x) if isinstance(x, Term) else x!r}")


def requests(root, tier):
    """{(category, name): example} over all module combinations, partitions and option values."""
    b = modelcheck.Builder(root)
    cfgs = modelcheck.configs(b)
    out, und, n = {}, [], 0
    seen = []
    old = scenario.reg_par

    def record(cat, name, r):
        seen.append((cat, name, list(b.it.path)))
        return old(cat, name, r)
    scenario.reg_par = record
    try:
        for mods in modelcheck.covering(cfgs, 2 if tier == "quick" else 3):
            del seen[:]
            try:
                scs = b.scenarios(mods)
            except Unsupported as e:
                und.append(f"{modelcheck.cfg_name(mods)}: {e}")
                continue
            n += len(scs)
            keys = {}
            for cat, name, path in seen:
                keys.setdefault((cat, name, tuple(path)), path)
            for (cat, name, _), path in keys.items():
                syms = leaf_symbols(name, leaf_symbols(cat, {}))
                for t, v in path:
                    leaf_symbols(t, syms) if False else None
                vals = []
                for t, leaf in syms.items():
                    node = b.an.leaves[leaf]
                    if node["type"] == "enum":
                        vals.append([(t, v) for v in node["values"]])
                    elif node["type"] == "bool":
                        vals.append([(t, v) for v in (True, False)])
                    else:
                        und.append(f"name depends on the option {leaf}")
                        vals.append([])
                for env in itertools.product(*vals):
                    env = dict(env)
                    try:
                        key = (text(cat, env), text(name, env))
                    except Unsupported as e:
                        und.append(str(e))
                        continue
                    out.setdefault(key, f"{modelcheck.cfg_name(mods)}" + "".join(f", {syms[t]}={v}" for t, v in env.items()))
    finally:
        scenario.reg_par = old
    return out, sorted(set(und)), n, b


def run(prop, tier, root=ROOT):
    rep = Report(prop)
    reqs, und, nsc, b = requests(root, tier)
    rep.undecided += und
    rep.functions |= b.it.visited
    leaves = b.an.leaves

    def defaults():
        out = {}
        for path, node in leaves.items():
            d = out
            ks = path.split(".")
            for k in ks[:-1]:
                d = d.setdefault(k, {})
            d[ks[-1]] = node.get("default")
        return out
    dflt = defaults()
    regions = dict.fromkeys(dflt["regions"])
    base = {**dflt, "regions": regions}
    s = Session(real=True, root=root)
    s.it.max_steps = 10 ** 9
    W = "mimosa/inputdata/config/config_default.yaml"

    # data series
    for ssp in leaves["SSP"]["values"]:
        vs = {}
        for p, node in leaves.items():
            if p.startswith("input.variables.") and node["type"] == "datasource":
                vs[p.split(".")[-1]] = {k: v.replace("{SSP}", ssp) if isinstance(v, str) else v for k, v in node["default"].items()}
        files = sorted(os.listdir(os.path.join(root, "mimosa/inputdata/data")))
        for f in [None] + [x for x in files if x.endswith(".csv")]:
            use = {n: {**v, "file": v["file"] if f is None else os.path.dirname(v["file"]) + "/" + f} for n, v in vs.items()}
            if f is not None and all(v["file"] == vs[n]["file"] for n, v in use.items()):
                continue
            for name in use:
                params = {**base, "SSP": ssp, "input": {"variables": {name: use[name]}}}

                def fn(it):
                    ds = datastore(it, params)
                    g = params["time"]
                    return [(y, r, read(it, ds, y, r, name)) for y in (g["start"], 2100, g["end"]) for r in regions]

                def expect(res, p):
                    return [f"the value in {y} of {r} is {x!r}, not a finite number" for y, r, x in res
                            if not isinstance(x, (int, float)) or x != x or abs(x) == float("inf")][:3]
                rep.check(f"data series {name} for {ssp} ({use[name]['file']})", s, fn, expect, W)
    # regional parameters
    rt = leaves["regionstype"]["default"]
    params = {**base, "regionstype": rt}
    tables = {}

    def store(it):
        o = regional(it, params)
        out = {}
        for cat, name in reqs:
            for r in regions:
                try:
                    out[cat, name, r] = it.call(it.getattr(o, "getregional"), [cat, name, r], {})
                except PyExc as e:
                    out[cat, name, r] = e
        return out
    try:
        runs = list(s.run(store))
    except Exception as e:
        rep.undecided.append(f"regional parameters: {type(e).__name__} {str(e)[:200]}")
        runs = []
    rep.functions |= s.it.visited
    for res, path, st, ev in runs[:1]:
        if res[0] == "raise":
            rep.n += 1
            rep.finding("regional parameters of the default configuration", f"are rejected ({str(res[1])[:200]})", W)
            continue
        got = res[1]
        for (cat, name), why in sorted(reqs.items()):
            rep.n += 1
            rep.parts += 1
            bad = None
            stem = name.rsplit("_", 1)[0] + "_" if "_b" in name and name.rsplit("_", 1)[1] in ("b1", "b2", "b3") else None
            for r in regions:
                x = got[cat, name, r]
                if isinstance(x, PyExc):
                    bad = f"has no value for region {r} ({str(x)[:120]})"
                elif isinstance(x, str):
                    if family(x) is None:
                        bad = f"is {x!r} in region {r}, neither a number nor a known functional form"
                elif x is frames.NAN or not isinstance(x, (int, float)) or x != x:
                    form = got.get((cat, stem + "form", r)) if stem else None
                    if family(form) is None or name.rsplit("_", 1)[1] in family(form):
                        bad = f"is missing in region {r}"
                elif name.endswith("form"):
                    bad = f"is the number {x} in region {r}, must be a functional form"
                if bad:
                    break
            if bad:
                rep.finding(f"regional parameter {cat}.{name} (requested with {why})", bad, W)
            else:
                rep.ok += 1
            if len(rep.samples) < 20:
                rep.samples.append(f"{cat}.{name}")
    return rep.result("The requests for data series and regional parameters of every module combination and every value of the options which enter their names are "
                      "collected from the source by abstract interpretation; the stores are then interpreted on the shipped tables, and every request must be answered "
                      "for each default region by exactly one row or column holding a number (or a known functional form).",
                      ["CSV files are parsed as pandas does: a column is numeric when all its cells are numbers or missing."],
                      **{"distinct regional requests": len(reqs), "model bindings analysed": nsc, "regions": len(regions)})
