"""Configuration checks: the repository's constructor is interpreted on user
configurations with one unconstrained setting and compared, on every joint
trace partition, with the reference in spec/ref_config.py."""
import copy
import os
import time

from .root import ROOT
from . import terms as tm
from .terms import T, Term
from .interp import Interp, Builtin, PyExc, Unsupported, TooManyPaths, freeze, Contradiction, InstV
from .store import show_atom, type_tag, const_key
from . import spec as specmod

OPAQUE = ("mimosa.abstract_model.create_abstract_model", "mimosa.common.regional_params.main.RegionalParamStore",
          "mimosa.common.data.datastore.DataStore", "mimosa.concrete_model.instantiate_params.InstantiatedModel",
          "mimosa.concrete_model.simulation_mode.main.set_simulation_mode")
NUMERIC = ("float", "int")


def quantity_ok(it, value, unit):
    """Whether pint can convert ``value`` to ``unit``; shipped defaults can (checked separately)."""
    if isinstance(value, Term):
        return not it.decide(("bool", T("raises", "quantity", value, unit)))
    if isinstance(value, str):
        return not value.startswith("!")
    if isinstance(value, (dict, list, tuple)):
        return False
    return not it.decide(("bool", T("raises", "quantity", freeze(value), unit)))


def conv(it, name, x):
    """float()/int()/str() of an unconstrained configuration value."""
    if not (isinstance(x, Term) and x.op == "sym" and x.args[0] == "in"):
        return NotImplemented
    if name == "str":
        return T("fstr", x) if not it.decide(("type", x, "str")) else x
    if it.decide(("type", x, "str")):
        if it.decide(("bool", T("raises", name, x))):
            raise PyExc(ValueError, (f"could not convert to {name}",))
        return T("fn", name, x)
    for tag in ("none", "dict", "list", "other"):
        if it.decide(("type", x, tag)):
            raise PyExc(TypeError, (f"{name}() argument",))
    if name == "int" and it.decide(("bool", T("raises", name, x))):
        raise PyExc(OverflowError, ("cannot convert to int",))
    return T("fn", name, x)


def leaves(schema, path=()):
    for k, v in schema.items():
        if isinstance(v, dict) and isinstance(v.get("type"), str):
            yield path + (k,), v
        elif isinstance(v, dict):
            yield from leaves(v, path + (k,))


def groups(schema, path=()):
    yield path
    for k, v in schema.items():
        if isinstance(v, dict) and not isinstance(v.get("type"), str):
            yield from groups(v, path + (k,))


def nested(path, v):
    out = v
    for k in reversed(path):
        out = {k: out}
    return out


def at(d, path):
    for k in path:
        d = d[k]
    return d


class Config:
    def __init__(self, root=ROOT):
        self.root = root
        self.it = it = Interp(root)
        it.extra_paths.update(specmod.paths())
        for q in OPAQUE:
            it.opaque_funcs[q] = lambda it, f, a, k, q=q: T("ext", "opaque." + q.split(".")[-1])
        it.opaque_funcs["mimosa.common.units.Quantity.__call__"] = self.quant
        it.hooks["conv"] = conv
        it.hooks["regex"] = lambda it, name, a, k: [] if name in ("findall", "finditer", "split") else None if name != "sub" else a[2]
        it.builtins["convertible"] = Builtin("convertible", lambda it, a, k: quantity_ok(it, a[0], a[1]))
        import yaml
        with open(os.path.join(root, "mimosa/inputdata/config/config_default.yaml"), encoding="utf8") as fh:
            self.schema = yaml.safe_load(fh)
        self.ref = it.load("spec.ref_config").env.vars["resolved"]
        self.cls = it.load("mimosa.mimosa").env.vars["MIMOSA"]

    def quant(self, it, f, a, k):
        kw = dict(zip(("value", "unit", "only_magnitude", "can_be_false"), ()))
        kw.update(k)
        v, unit = a[1], a[-1]
        if kw.get("can_be_false", True) is True and it.decide_is(v, False):
            return False
        if not quantity_ok(it, v, unit):
            raise PyExc(T("ext", "pint.DimensionalityError"), ())
        return T("fn", "quantity", freeze(v), unit)

    def construct(self, user):
        inst = self.it.call(self.cls, [user], {})
        return inst.attrs["params"]

    # ------------------------------------------------------------------

    def compare(self, user, run=None, ref=None, assume=(), maxjoint=4000):
        """[(path, ok, diffs)] for every joint partition; diffs = [(leaf path, text)]."""
        it = self.it
        run = run or (lambda: self.construct(copy_(user)))
        ref = ref or (lambda: it.call(self.ref, [self.schema, copy_(user)], {}))
        out = []
        n = 0
        for res, path, st, ev in list(it.explore(run, assume=assume)):
            if res[0] == "ok" and hasattr(res[1], "attrs"):
                res = ("ok", res[1].attrs.get("params"))
            base = list(assume) + list(path)
            for r2, p2, st2, ev2 in it.explore(ref, assume=base):
                n += 1
                if n > maxjoint:
                    raise TooManyPaths("joint partitions")
                diffs = []
                if res[0] != r2[0]:
                    if res[0] == "ok":
                        diffs.append(((), f"accepted, but must be rejected ({r2[1]})"))
                    else:
                        diffs.append(((), f"rejected ({str(res[1])[:160].strip()}), but must be accepted"))
                elif res[0] == "ok":
                    self.diff(res[1], r2[1], st2, (), diffs)
                out.append((path + p2, r2[0], diffs, res))
        return out

    def diff(self, a, b, st, path, out):
        if isinstance(b, dict):
            if not isinstance(a, dict):
                out.append((path, f"is {show(a)}, must be a dictionary of options"))
                return
            for k in b:
                if k not in a:
                    out.append((path + (k,), "is missing"))
                else:
                    self.diff(a[k], b[k], st, path + (k,), out)
            for k in a:
                if k not in b:
                    out.append((path + (k,), f"must not be there ({show(a[k])})"))
            return
        if isinstance(b, (list, tuple)):
            if not isinstance(a, (list, tuple)) or len(a) != len(b):
                out.append((path, f"is {show(a)}, must be {show(b)}"))
                return
            for i, (x, y) in enumerate(zip(a, b)):
                self.diff(x, y, st, path + (i,), out)
            return
        if not same(a, b, st):
            out.append((path, f"is {show(a)}, must be {show(b)}"))


def show(x):
    return tm.show(freeze(x))[:160]


def copy_(u):
    if isinstance(u, dict):
        return type(u)((k, copy_(v)) for k, v in u.items())
    if isinstance(u, list):
        return [copy_(x) for x in u]
    return u


def resolve(x, st):
    if isinstance(x, Term):
        e = st.eqs.get(x)
        if e is not None and e[0] == "is":
            return ("const", e[1])
    return x


def same(a, b, st):
    if isinstance(a, Term) and a is b:
        return True
    if isinstance(a, Term) and isinstance(b, Term):
        try:
            if tm.equal(a, b):
                return True
        except Exception:
            pass
        return False
    if isinstance(a, Term) or isinstance(b, Term):
        t, c = (a, b) if isinstance(a, Term) else (b, a)
        e = st.eqs.get(t)
        if e is None or e[0] != "is":
            return False
        tg = st.types.get(t)
        if tg is not None and type_tag(c) not in tg:
            return False
        return e[1] == c and (isinstance(c, str) == isinstance(e[1], str))
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b and (float(a).is_integer() or type(a) is type(b))
    return type(a) is type(b) and a == b
