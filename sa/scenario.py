"""Model scenarios: one module combination plus the configuration switches that
decide how parameters are bound, interpreted from the repository's own
``create_abstract_model`` and ``InstantiatedModel``."""
import csv
import os
import re
import itertools

from .root import ROOT
from . import terms as tm
from .terms import T, Term
from .interp import (Interp, InstV, Builtin, BoundV, FuncV, PyExc, Unsupported, SymMap, RangeV, SetV, freeze,
                     substitute, substitute_value, Contradiction)
from . import pyomo_model as pm
from .store import Domain, show_atom

INF = float("inf")


class Analysis:
    """Shared facts about the repository's input files."""

    def __init__(self, root=ROOT):
        self.root = root
        import yaml
        self.cfg_file = "mimosa/inputdata/config/config_default.yaml"
        with open(os.path.join(root, self.cfg_file), encoding="utf8") as fh:
            self.schema = yaml.safe_load(fh)
        self.leaves = {}
        self._walk(self.schema, [])
        self.columns = {}
        self._csv()

    def _walk(self, node, path):
        for k, v in node.items():
            p = path + [str(k)]
            if isinstance(v, dict) and "type" in v and isinstance(v["type"], str):
                self.leaves[".".join(p)] = v
            elif isinstance(v, dict):
                self._walk(v, p)
            else:
                self.leaves[".".join(p)] = {"type": "?", "default": v}

    def _csv(self):
        rp = self.leaves.get("regional_parameter_files", {}).get("default") or {}
        for cat, info in rp.items():
            f = os.path.join(self.root, "mimosa", info["filename"])
            if not os.path.exists(f):
                continue
            with open(f, encoding="utf8", newline="") as fh:
                rows = list(csv.reader(fh))
            head = rows[0]
            for i, h in enumerate(head):
                vals = [r[i] for r in rows[1:] if i < len(r)]
                self.columns[(cat, h)] = vals

    def column_domain(self, cat, name):
        rx = re.compile("^" + re.sub(r"\\\{[^{}]*\\\}", ".*", re.escape(name)) + "$")
        vals, hit = [], False
        for (c, h), v in self.columns.items():
            if c == cat and rx.match(h):
                hit = True
                vals.extend(v)
        if not hit:
            return Domain("num")
        nonnum = sorted({v for v in vals if v and not _isnum(v)})
        if nonnum:
            return Domain("enum", enum=tuple(nonnum))
        return Domain("num")

    def leaf_domain(self, path):
        n = self.leaves.get(path)
        if n is None:
            return None
        ty = n["type"]
        opt = bool(n.get("can_be_false", False))
        if ty in ("float", "int"):
            lo, hi = n.get("min", -INF), n.get("max", INF)
            return Domain("num", lo, hi, optional=opt, integer=ty == "int")
        if ty == "quantity":
            return Domain("num", optional=opt)
        if ty == "bool":
            return Domain("bool")
        if ty == "enum":
            return Domain("enum", enum=tuple(n.get("values", ())), optional=opt)
        if ty in ("str", "filepath"):
            return Domain("str", optional=opt)
        return None


def _isnum(v):
    try:
        float(v)
        return True
    except ValueError:
        return False


MODULE_PATHS = {
    "damage": "model.damage module",
    "trade": "model.emissiontrade module",
    "transfer": "model.financialtransfer module",
    "welfare": "model.welfare module",
    "objective": "model.objective module",
}


def make_domain(an):
    cache = {}

    def domain_of(t):
        if not isinstance(t, Term):
            return None
        r = cache.get(t, 0)
        if r != 0:
            return r
        r = None
        if t.op == "sym" and t.args[0] == "cfg":
            r = an.leaf_domain(t.args[1])
        elif t.op == "sym" and t.args[0] == "raw":
            d = an.leaf_domain(t.args[1])
            r = Domain("str", optional=bool(d and d.optional))
        elif t.op == "par":
            src = t.args[0]
            if src.startswith("regional::"):
                cat, _, name = src[len("regional::"):].partition(".")
                r = an.column_domain(cat, name)
            elif src in ("timeandregional::population", "timeandregional::GDP"):
                r = Domain("num", lo=1e-9)      # people and output are positive
            else:
                r = Domain("num")
        elif t.op == "var":
            r = Domain("num")
        elif t.op == "fn" and t.args[0] in ("float", "int", "ceil"):
            r = None
        cache[t] = r
        return r

    return domain_of


def path_str(parts):
    """Readable key of a possibly symbolic table column."""
    if isinstance(parts, str):
        return parts
    if isinstance(parts, Term) and parts.op == "fstr":
        return "".join(p if isinstance(p, str) else "{" + _leafname(p) + "}" for p in parts.args)
    if isinstance(parts, Term):
        return "{" + _leafname(parts) + "}"
    return str(parts)


def _leafname(p):
    if isinstance(p, Term) and p.op == "sym" and p.args[0] in ("cfg", "raw"):
        return p.args[1]
    return tm.show(p)


def reg_par(cat, name, r):
    return T("par", f"regional::{path_str(cat)}.{path_str(name)}", r)


def tr_par(name, t, r):
    return T("par", f"timeandregional::{path_str(name)}", t, r)


class StoreObj:
    """Stand-in for the regional parameter store / data store arguments."""

    def __init__(self, attrs):
        self.attrs = attrs

    def abs_getattr(self, it, name):
        if name in self.attrs:
            return self.attrs[name]
        raise Unsupported(f"attribute {name!r} of a stand-in")


class Scenario:
    def __init__(self, modules, assume, model, data, num_years, it, binding_error=None):
        self.modules, self.assume, self.model = modules, assume, model
        self.data, self.num_years, self.it = data, num_years, it
        self.binding_error = binding_error

    @property
    def label(self):
        s = ", ".join(f"{k}={v}" for k, v in self.modules.items())
        if self.assume:
            s += " | " + " & ".join(show_atom(a, v) for a, v in self.assume)
        return s


class Builder:
    def __init__(self, root=ROOT, horizon=3, regions=("R1", "R2", "R3"), extra_paths=None):
        self.an = Analysis(root)
        self.root = root
        self.world = pm.World(horizon, regions)
        self.it = Interp(root, domain_of=make_domain(self.an))
        self.it.extra_paths.update(extra_paths or {})
        self.models = []
        pm.install(self.it, self.world, self.models.append)
        self.it.opaque_funcs["mimosa.common.units.Quantity.__call__"] = self._quant
        self.it.opaque_funcs["mimosa.common.units.Quantity.unit"] = lambda it, f, a, k: T("unitlabel", a[1] if len(a) > 1 else k.get("unit_str"))
        self._tree = None

    def _quant(self, it, f, a, k):
        args = a[1:]
        v = args[0]
        if isinstance(v, Term) and v.op == "sym" and v.args[0] == "raw":
            leaf = self.an.leaves[v.args[1]]
            if len(args) == 2 and args[1] == leaf.get("unit"):
                return T("sym", "cfg", v.args[1])
            return T("fn", "quantity", v, *[freeze(x) for x in args[1:]])
        return T("fn", "quantity", *[freeze(x) for x in args])

    # -- configuration -------------------------------------------------------

    def parser_tree(self):
        if self._tree is None:
            it = self.it
            mod = it.load("mimosa.common.config.parseconfig")
            f = mod.env.vars.get("parse_params")
            if f is None:
                raise Unsupported("parse_params not found")
            res = list(it.explore(lambda: it.call(f, [self.an.schema, {}, True], {})))
            if len(res) != 1 or res[0][0][0] != "ok":
                raise Unsupported(f"default configuration does not parse: {res[0][0][1] if res else ''}")
            self._tree = res[0][0][1][1]
        return self._tree

    def symbolic_params(self, modules):
        out = {}
        for path, node in self.an.leaves.items():
            keys = path.split(".")
            # keys may themselves contain dots only in leaves; paths are joined by "."
            d = out
            for k in keys[:-1]:
                d = d.setdefault(k, {})
            d[keys[-1]] = self.leaf_value(path, node, modules)
        return out

    def leaf_value(self, path, node, modules):
        for k, p in MODULE_PATHS.items():
            if p == path:
                return modules[k]
        ty = node["type"]
        if path == "regions":
            return {r: None for r in self.world.regions}
        if ty == "quantity":
            return T("sym", "raw", path)
        if ty in ("dict",):
            return dict(node.get("default") or {})
        if ty in ("list",):
            return list(node.get("default") or [])
        if ty in ("datasource",):
            return dict(node.get("default") or {})
        return T("sym", "cfg", path)

    # -- scenarios -------------------------------------------------------------

    def module_values(self):
        return {k: list(self.an.leaves[p]["values"]) for k, p in MODULE_PATHS.items()}

    def build_model(self, modules):
        """Interpret create_abstract_model; returns list of (result, path, model)."""
        it = self.it
        mod = it.load("mimosa.abstract_model")
        f = mod.env.vars["create_abstract_model"]
        out = []
        args = [modules[k] for k in ("damage", "trade", "transfer", "welfare", "objective")]
        n0 = len(self.models)
        for res, path, st, ev in it.explore(lambda: it.call(f, [], dict(zip(
                ("damage_module", "emissiontrade_module", "financialtransfer_module", "welfare_module", "objective_module"), args)))):
            out.append((res, path, self.models[-1] if len(self.models) > n0 else None))
        return out

    def scenarios(self, modules):
        """All (binding) scenarios of one module combination."""
        it = self.it
        built = self.build_model(modules)
        out = []
        for res, path, model in built:
            if res[0] != "ok":
                out.append(Scenario(modules, path, model, None, None, it, res[1]))
                continue
            m = res[1]
            if not isinstance(m, pm.ModelV):
                raise Unsupported("create_abstract_model does not return a model")
            params = self.symbolic_params(modules)
            m.params_obj = params
            tree = self.parser_tree()

            def get(it, a, k):
                cat = a[0] if a else k["category"]
                name = a[1] if len(a) > 1 else k["paramname"]
                return {r: reg_par(cat, name, r) for r in self.world.regions}

            def getregional(it, a, k):
                return reg_par(*a)

            def interp_data(it, a, k):
                kk = dict(zip(("year", "region", "variable"), a))
                kk.update(k)
                return T("par", "data-at::" + path_str(kk["variable"]), freeze(kk["year"]), freeze(kk["region"]))

            rps = StoreObj({"params": params, "param_parser_tree": tree, "regions": params["regions"],
                            "get": Builtin("get", get), "getregional": Builtin("getregional", getregional)})
            ds = StoreObj({"params": params, "interp_data": Builtin("interp_data", interp_data)})
            imod = it.load("mimosa.concrete_model.instantiate_params")
            cls = imod.env.vars["InstantiatedModel"]

            def run():
                m.attrs["year"] = None
                inst = it.call(cls, [m, rps, ds], {})
                return inst

            for r2, p2, st2, ev2 in it.explore(run, assume=path):
                if r2[0] != "ok":
                    out.append(Scenario(modules, path + p2, m, None, None, it, r2[1]))
                    continue
                creates = [e for e in ev2 if e[0] == "create_instance" and e[1] is m]
                if len(creates) != 1:
                    raise Unsupported("model instance is not created exactly once")
                args = creates[0][2]
                data = args[0] if args else creates[0][3].get("data")
                if not isinstance(data, dict) or None not in data:
                    raise Unsupported("instance data is not a namespace dictionary")
                d = data[None]
                sc = Scenario(modules, path + p2, m, d, None, it)
                sc.year_fn = m.attrs.get("year")
                self.finish(sc)
                out.append(sc)
        return out

    def finish(self, sc):
        """Concretise the horizon and index the bound data."""
        tset = sc.data.get("t")
        tset = tset.get(None) if isinstance(tset, dict) else None
        n = None
        if isinstance(tset, RangeV) and tset.lo == 0 and tset.step == 1:
            n = tset.hi
        sc.num_years = n
        sub = {n: self.world.N + 1} if isinstance(n, Term) else {}
        it = self.it
        w = self.world
        bound = {}
        for name, v in sc.data.items():
            if isinstance(name, tuple):
                continue
            if name in ("t", "regions"):
                continue
            bound[name] = v
        sc.bound = bound
        sc.sub = sub

    def activate(self, sc):
        """Bind the model's parameters to the scenario's instance data."""
        m = sc.model
        it = self.it
        m.scenario = sc
        m.attrs["year"] = sc.year_fn
        for c in m.comps.values():
            if isinstance(c, pm.Comp):
                c._cache = {}


def world_param(self, it, idx):
    """Value of a parameter entry under the active scenario."""
    sc = getattr(self.model, "scenario", None)
    w = self.model.world
    if sc is None or self.name not in sc.bound:
        init = self.kwargs.get("initialize", self.kwargs.get("default", self.kwargs.get("rule")))
        if init is None:
            raise PyExc(ValueError, (f"parameter {self.name!r} has no value for index {tm.show(idx)}",))
        if isinstance(init, (FuncV, BoundV)):
            return pm.cached(self, it, idx, lambda: it.scalar(pm.call_rule(it, init, self.model, idx)))
        if isinstance(init, dict):
            return it.getitem(init, idx[0] if len(idx) == 1 else idx)
        return unlazy(it, self.model, it.scalar(init))
    v = sc.bound[self.name]
    key = None if not idx else (idx[0] if len(idx) == 1 else idx)
    if isinstance(v, SymMap):
        v = it.symmap_get(v, key)
    elif isinstance(v, dict):
        if key not in v:
            raise PyExc(ValueError, (f"parameter {self.name!r} has no bound value for index {tm.show(freeze(key))}",))
        v = v[key]
    else:
        raise Unsupported(f"instance data of {self.name} is a {type(v).__name__}")
    if sc.sub:
        v = substitute_value(v, sc.sub)
    v = it.toint(v) if isinstance(v, Term) and not (v.op == "sym") and v.op in ("sub", "add") else v
    if isinstance(v, Term) and v.op == "par" and v.args[0].startswith("data-at::"):
        name = v.args[0][len("data-at::"):]
        year, r = v.args[1], v.args[2]
        for t in w.times:
            if tm.equal(year, w.year(it, t)) is True:
                return tr_par(name, t, r)
    return v


def unlazy(it, m, v):
    """Resolve references to parameters that were not yet constructed."""
    if not isinstance(v, Term):
        return v
    lz = [x for x in tm.subterms(v) if x.op == "lazy"]
    if not lz:
        return v
    s = {}
    for x in lz:
        c = m.comps[x.args[0]]
        s[x] = it.scalar(c.entry(it, None if len(x.args) == 1 else (x.args[1] if len(x.args) == 2 else tuple(x.args[1:]))))
    return substitute(v, s)


pm.Comp.param_value = world_param
