"""Configuration properties: scenarios, parallel comparison, findings."""
import ast
import contextlib
import copy
import os
import tempfile
import time
from concurrent.futures import ProcessPoolExecutor

import yaml

from .root import ROOT
from .terms import T, Term
from . import terms as tm
from .interp import freeze, Unsupported, TooManyPaths
from .store import show_atom
from . import configcheck as cc
from .configcheck import leaves, groups, nested, at

NUM = ("float", "int")
SCALARS = [("type", "dict"), ("type", "list")]
VOCAB = {"sym", "fn", "fstr", "raises", "le", "lt", "const", "num", "add", "mul", "neg", "pow"}


def scal(*vs, also=()):
    return [(("type", v, t), False) for v in vs for t in ("dict", "list") + tuple(also)]


def sym(n):
    return T("sym", "in", n)


# --------------------------------------------------------------- scenarios
# (label, user configuration, assumptions, anchor type)

def per_leaf(schema, want, rich):
    out = []
    V, E = sym("v"), sym("e")
    for path, node in leaves(schema):
        if not want(node):
            continue
        name = " - ".join(path)
        k = node["type"]
        out.append((f"{name} = any scalar", nested(path, V), scal(V), k))
        for form, val, asm in (("{}", {}, []), ("[]", [], []), ("{'a': any scalar}", {"a": E}, scal(E)),
                               ("[any scalar]", [E], scal(E)), ("tuple", (1,), [])):
            out.append((f"{name} = {form}", nested(path, val), asm, k))
        if not rich:
            continue
        if k == "list":
            out.append((f"{name} = [any scalar, any scalar]", nested(path, [V, E]), scal(V, E), k))
            out.append((f"{name} = [{{}}]", nested(path, [{}]), [], k))
            sub = node.get("values", {})
            if sub.get("type") == "dict":
                ks = sub.get("keys", {}).get("values", [])
                for q in list(ks) + ["other key"]:
                    out.append((f"{name} = [{{{q}: any scalar}}]", nested(path, [{q: E}]), scal(E), k))
                out.append((f"{name} = [all keys, all keys]", nested(path, [{q: V for q in ks}, {q: E for q in ks}]), scal(V, E), k))
        if k == "dict":
            out.append((f"{name} = {{5: any}}", nested(path, {5: E}), scal(E), k))
            out.append((f"{name} = two entries", nested(path, {"a": V, "b": E}), scal(V, E), k))
            d = node.get("default") or {}
            out.append((f"{name} = part of the default", nested(path, dict(list(d.items())[:1])), [], k))
            sub = node.get("values", {})
            if sub.get("type") == "dict":
                ks = sub.get("keys", {}).get("values", [])
                for q in list(ks) + ["other key"]:
                    out.append((f"{name} = {{a: {{{q}: any scalar}}}}", nested(path, {"a": {q: E}}), scal(E), k))
                out.append((f"{name} = {{a: all keys}}", nested(path, {"a": {q: E for q in ks}}), scal(E), k))
        if k == "datasource":
            ks = ("variable", "unit", "scenario", "model", "file")
            for i, q in enumerate(ks):
                full = {x: "x" + x for x in ks}
                full[q] = E
                out.append((f"{name} with any {q}", nested(path, full), scal(E), k))
                part = {x: "x" + x for x in ks if x != q}
                out.append((f"{name} without {q}", nested(path, part), [], k))
            out.append((f"{name} with an extra entry", nested(path, {**{x: "x" + x for x in ks}, "more": E}), scal(E), k))
        if k == "str_or_plain_dict":
            out.append((f"{name} = nested dict", nested(path, {"a": {"b": E}, "c": [E]}), scal(E), k))
    return out


TEXTS = ["a b", "  a b ", "Ab Cd", "", "1", "1.0", "007", "true", "no ", "None", "a,b", "a\n", "a/b.csv", "a\\b"]
BOOLS = ["YES", "TRUE", "True ", " true", "on", "off", "ON", "y", "n", "NO", "FALSE", "t", "1", "0", "", 2, -1, 0.5, 1.0, 0.0, "none", None]


def near(node):
    """Concrete values close to the border between allowed and not allowed."""
    k = node["type"]
    if k in NUM:
        out = ["1,5", " 1 ", "1_0", "1e0", "0x1", "nan", "inf", "-inf", "1.0", "1.5", "", "one", "1 %", "+1", "--1",
               "True", "None", "1 ", "\n1", True, False, 0, 1, -1, 1.5, 0.999999, -0.0, 1e-12, 10**9, -10**9, "١",
               "false", "False", "no", "FALSE", "No", "0", "0.0"]
        for b in ("min", "max"):
            if b in node:
                v = node[b]
                out += [v, v - 1, v + 1, v - 1e-9, v + 1e-9, str(v), str(v - 1), str(v + 1), str(v) + "0", -v, f" {v}"]
        return out
    if k == "bool":
        return list(BOOLS)
    if k == "enum":
        out = []
        for v in node["values"]:
            t = str(v)
            out += [v, t, t.lower(), t.upper(), t.title(), " " + t, t + " ", t[:-1], t + "x", t[1:], t.replace("_", " "), t.replace("_", "-"),
                    t.replace(" ", ""), [v], (v,)]
        return out + ["", 0, False, None, "default", "None", "no", "No", 1, True]
    if k in ("str", "filepath"):
        return TEXTS + [0, 1, 1.5, True, False, None, "no", "No", "false", [], {}, ["a"], {"a": 1}]
    if k == "str_or_plain_dict":
        return TEXTS + [0, False, None, [], {}, {"a": {}}, {"a": 1, 5: "b"}, {"": None}, ["a"]]
    if k == "quantity":
        return [[], {}, ["1"]]
    if k in ("list", "dict", "datasource"):
        out = [None, False, 0, 1, True, "", "no", "false", "a", "a,b", "[a]", "{a: 1}", (), ("a",), ("a", "b")]
        sub, keys = node.get("values"), node.get("keys")
        subs = near(sub) if sub else TEXTS + [None, 0, False, [], {}, ["a"], {"b": 1}]
        if k == "list":
            out += [[x] for x in subs] + [[], [[]], {}, {"a": "b"}, {0: "a"}, "ab"]
            ok = value_of(sub, 0)
            out += [[ok, copy.deepcopy(ok)], [value_of(sub, 1), ok, value_of(sub, 0)]]
            out += [[ok, x] for x in subs[:8]]
        elif k == "dict":
            names = keys.get("values") if keys and "values" in keys else ["a", "b"]
            out += [{names[0]: x} for x in subs] + [{}, [], [["a", "b"]], [("a", "b")]]
            ok = [value_of(sub, n) for n in range(2)]
            if keys:
                out += [{x: ok[0]} for x in near(keys) if not isinstance(x, (list, dict))]
            out += [dict(zip(reversed(names), ok))]
        else:
            full = {x: "x" + x for x in ("variable", "unit", "scenario", "model", "file")}
            out += [{}, [], full, dict(reversed(full.items()))]
            for q in full:
                out += [{**full, q: x} for x in TEXTS + [None, 0, False, "no"]]
                out += [{(q.upper() if x == q else x): y for x, y in full.items()}, {(q + " " if x == q else x): y for x, y in full.items()}]
        return out
    return []


def near_misses(schema, want):
    out = []
    seen = {}
    for path, node in leaves(schema):
        if not want(node):
            continue
        # options of one and the same shape share the whole family between them
        shape = repr({k: v for k, v in node.items() if k not in ("descr", "default")})
        vals = []
        for v in near(node):
            if not any(type(v) is type(w) and repr(v) == repr(w) for w in vals):
                vals.append(v)
        if seen.get(shape, 0) >= 2:
            r = seen[shape] * 7
            vals = [vals[(r + i * 11) % len(vals)] for i in range(3)]
        seen[shape] = seen.get(shape, 0) + 1
        for v in vals:
            out.append((f"{' - '.join(path)} = {v!r}", nested(path, v), [], node["type"]))
    return out


def sample(node, n=0):
    """A valid concrete value other than the default."""
    k, d = node["type"], node.get("default")
    if k in NUM:
        lo, hi = node.get("min", -10), node.get("max", lo_hi(node))
        c = [lo + (hi - lo) * f for f in (0.25, 0.6, 0.8)]
        c = [int(x) if k == "int" else round(x, 6) for x in c]
        return next(x for x in c[n:] + c if x != d and x != 0)
    if k == "bool":
        return not d
    if k == "enum":
        o = [x for x in node["values"] if x != d]
        return o[n % len(o)] if o else d
    if k == "quantity":
        return f"{3 + n} {node['unit']}"
    if k in ("str", "filepath", "str_or_plain_dict"):
        return f"text {n}"
    if k == "list":
        return [value_of(node.get("values"), n)]
    if k == "dict":
        if "keys" in node and "values" in node["keys"]:
            return {q: value_of(node.get("values"), n) for q in node["keys"]["values"]}
        return {"a": value_of(node.get("values"), n), "b": value_of(node.get("values"), n + 1)}
    if k == "datasource":
        return {q: f"{q}{n}" for q in ("variable", "unit", "scenario", "model", "file")}
    raise KeyError(k)


def value_of(node, n):
    return f"x{n}" if node is None else sample(node, n)


def lo_hi(node):
    return node.get("min", 0) + 20


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict) and isinstance(a.get(k), dict):
            merge(a[k], v)
        else:
            a[k] = v
    return a


def full_user(schema, n=0, skip=()):
    u = {}
    for p, node in leaves(schema):
        if p not in skip:
            merge(u, nested(p, sample(node, n)))
    return u


def defaults(schema):
    ls = list(leaves(schema))
    V, W = sym("v"), sym("w")
    out = [("nothing set", {}, [], None), ("every option set", full_user(schema), [], None),
           ("every option set (other values)", full_user(schema, 1), [], None)]
    for p, node in ls:
        out.append((f"only {' - '.join(p)} set", nested(p, sample(node)), [], node["type"]))
        out.append((f"all but {' - '.join(p)} set", full_user(schema, 0, (p,)), [], node["type"]))
        dflt = node.get("default")
        if dflt is not None:
            out.append((f"{' - '.join(p)} set to its default", nested(p, cc.copy_(dflt)), [], node["type"]))
        if node.get("can_be_false"):
            out.append((f"{' - '.join(p)} set to False, rest set", merge(full_user(schema, 1), nested(p, False)), [], node["type"]))
    for g in groups(schema):
        if not g:
            continue
        out.append((f"group {' - '.join(g)} = {{}}", nested(g, {}), [], None))
        for label, v in (("None", None), ("[]", []), ("text", "text")):
            out.append((f"group {' - '.join(g)} = {label}", nested(g, v), [], None))
        out.append((f"group {' - '.join(g)} = any scalar", nested(g, V), scal(V, also=("other",)), None))
    for (p, a), (q, b) in zip(ls, ls[1:] + ls[:1]):
        if a["type"] in NUM and b["type"] in NUM:
            out.append((f"{' - '.join(p)} and {' - '.join(q)} = any", merge(nested(p, V), nested(q, W)), scal(V, W), None))
    return out


def source_words(root=ROOT):
    """The short texts the constructor's source mentions (not its documentation)."""
    out = set()
    files = [os.path.join(root, "mimosa/mimosa.py")]
    for d, _, fs in os.walk(os.path.join(root, "mimosa/common/config")):
        files += [os.path.join(d, f) for f in fs if f.endswith(".py")]
    for f in files:
        try:
            with open(f, encoding="utf8") as fh:
                tree = ast.parse(fh.read())
        except (OSError, SyntaxError):
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and 0 < len(n.value) <= 24 and "\n" not in n.value:
                out.add(n.value)
    return sorted(out)


def unknown(schema):
    V = sym("v")
    ls = list(leaves(schema))
    gs = list(groups(schema))
    out = []

    def add(label, u, asm=()):
        out.append((label, u, list(asm), None))
    for g in gs:
        here = at(schema, g)
        pre = " - ".join(g) or "top level"
        add(f"unknown option in {pre}", nested(g + ("unknown option",), V), scal(V))
        add(f"unknown group in {pre}", nested(g + ("unknown group", "unknown option"), 1))
        add(f"non-text unknown option in {pre}", nested(g + (7,), 1))
        for meta in ("type", "default", "min", "values", "descr"):
            if meta not in here:
                add(f"option named {meta!r} in {pre}", nested(g + (meta,), "x"))
        for k in here:
            vs = {k.upper(), k.lower(), k.capitalize(), k + " ", " " + k, k + "s", k[:-1], k.replace(" ", "_"), k.replace("_", " "), k.replace("-", " ")}
            for v in sorted(vs):
                if v and v not in here:
                    add(f"misspelled {v!r} in {pre}", nested(g + (v,), sample(here[k]) if "type" in here[k] else {"x": 1}))
    for p, node in ls:
        name = " - ".join(p)
        if len(p) > 1:
            if p[-1] not in schema:
                add(f"{p[-1]!r} at the top level", {p[-1]: sample(node)})
            add(f"joined name {name!r} at the top level", {name: sample(node)})
            add(f"{name} below another group", nested(("unknown group",) + p, sample(node)))
            if len(p) > 2:
                add(f"joined name within {p[0]}", nested((p[0], " - ".join(p[1:])), sample(node)))
                add(f"first two levels joined, {name}", nested((" - ".join(p[:2]),) + p[2:], sample(node)))
        add(f"unknown option next to {name}", merge(nested(p, sample(node)), nested(p[:-1] + ("unknown option",), 1)))
        for other in gs:
            if other and other != p[:-1] and p[-1] not in at(schema, other):
                add(f"{name} misplaced in {' - '.join(other)}", nested(other + (p[-1],), sample(node)))
    for w in source_words():
        add(f"option {w!r}, a text of the source, at the top level", {w: 1} if w not in schema else {w + " ": 1})
        add(f"option starting with {w!r}", {w + "unknown": 1})
        add(f"group {w!r} with an unknown option", {"economics": {w: {"unknown": 1}} if w not in schema["economics"] else {w: {"unknown": {"x": 1}}}})
    add("two unknown options", {"unknown a": V, "unknown b": {"x": 1}}, scal(V))
    add("unknown option with every option set", merge(full_user(schema), {"economics": {"unknown option": 1}}))
    for val in (None, False, 0, "", []):
        add(f"unknown option set to {val!r}", {"unknown option": val})
        add(f"unknown nested option set to {val!r}", nested(("economics", "GDP", "unknown option"), val))
    return out


def references(schema):
    ls = [(p, n) for p, n in leaves(schema)]
    out = []
    sites = []
    for p, n in ls:
        if n["type"] == "datasource":
            for q in ("variable", "unit", "scenario", "model", "file"):
                sites.append((p, lambda s, q=q: {**{x: "x" + x for x in ("variable", "unit", "scenario", "model", "file")}, q: s}))
        if n["type"] in ("str", "filepath", "str_or_plain_dict"):
            sites.append((p, lambda s: s))
        if n["type"] == "dict":
            vt = n.get("values", {})
            if vt.get("type") == "dict":
                ks = vt.get("keys", {}).get("values", [])
                if "filename" in ks:
                    sites.append((p, lambda s: {"a": {"filename": s}}))
            elif vt.get("type") in ("str", "filepath"):
                sites.append((p, lambda s: {"a": s}))
    def ok(t):
        return t["type"] not in ("dict", "list", "datasource", "str_or_plain_dict")
    target = [(p, n) for p, n in ls if ok(n)]
    V, W = sym("v"), sym("w")

    def name(p):
        return "{" + " - ".join(p) + "}"
    for p, mk in sites:
        where = " - ".join(p)
        for text in (f"{name(target[1][0])}", f"a {name(target[3][0])} b {name(target[-1][0])} c",
                     f"{name(target[0][0])}{name(target[0][0])}-{name(target[2][0])}", "plain text",
                     "{no such option}", "{no such option} and " + name(target[2][0]), "x {} y", "{economics - none}"):
            out.append((f"{where} = {text!r}", nested(p, mk(text)), [], "reference"))
        tp, tn = target[3]
        out.append((f"{where} refers to an option with any value", merge(nested(p, mk("S" + name(tp) + "E")), nested(tp, V)), scal(V), "reference"))
        tp, tn = next((a, b) for a, b in target if b["type"] == "bool")
        out.append((f"{where} refers to a boolean option with any value", merge(nested(p, mk("S" + name(tp) + "E")), nested(tp, V)), scal(V), "reference"))
    p, mk = sites[0]
    for k in (3, 4, 6, 12, len(target)):
        out.append((f"a text with references to {k} options", nested(p, mk(" / ".join(name(tp) for tp, tn in target[-k:]))), [], "reference"))
    for k in (50, 300, 5000):
        out.append((f"a reference after {k} characters", nested(p, mk("x" * k + name(target[2][0]) + "y" * k)), [], "reference"))
    for tp, tn in target:
        out.append((f"reference to {' - '.join(tp)} (default)", nested(p, mk("a-" + name(tp))), [], "reference"))
        out.append((f"reference to {' - '.join(tp)} (set)", merge(nested(p, mk(name(tp) + "-b")), nested(tp, sample(tn))), [], "reference"))
        if tn["type"] in ("enum", "bool"):
            for v in tn.get("values", [True, False]):
                out.append((f"default references with {' - '.join(tp)} = {v}", nested(tp, v), [], "reference"))
        out.append((f"references with {' - '.join(tp)} = any", merge(nested(p, mk("1" + name(tp) + "2")), nested(tp, V)), scal(V), "reference"))
    return out


SCEN = {
    "C01": lambda s: per_leaf(s, lambda n: n["type"] in NUM, False) + near_misses(s, lambda n: n["type"] in NUM),
    "C02": lambda s: per_leaf(s, lambda n: n["type"] not in NUM, True) + near_misses(s, lambda n: n["type"] not in NUM),
    "C03": lambda s: defaults(s) + files(s),
    "C04": unknown,
    "C05": references,
}

# ------------------------------------------------------------------ running
_C = None


def config(root):
    global _C
    if _C is None:
        import sys
        sys.setrecursionlimit(20000)
        _C = cc.Config(root)
    return _C


def foreign_ops(x, out=None):
    out = set() if out is None else out
    for s in tm.subterms(freeze(x)):
        if s.op not in VOCAB:
            out.add(s.op)
    return out


def atoms_ok(path):
    for a, _ in path:
        for x in a[1:]:
            for s in tm.subterms(freeze(x)):
                if s.op not in VOCAB:
                    return False
    return True


@contextlib.contextmanager
def settings_file(c, kind, user):
    """For settings given as a file: the program that loads the file and passes on what it holds."""
    if kind != "file":
        yield None
        return
    load = c.it.load("mimosa.common.config.parseconfig").env.vars.get("load_params")
    if load is None:
        raise Unsupported("load_params not found")
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "settings.yaml")
        with open(path, "w", encoding="utf8") as fh:
            yaml.safe_dump(user, fh)
        c.it.readable.add(path)
        try:
            yield lambda: c.construct(c.it.call(load, [path], {}))
        finally:
            c.it.readable.discard(path)


def files(schema):
    """Settings that are read from a file of the user."""
    full = full_user(schema)
    out = [("settings file: every option", full), ("settings file: every option (other values)", full_user(schema, 1)),
           ("settings file: an unknown option", merge(cc.copy_(full), {"unknown": 1}))]
    for p, node in leaves(schema):
        out.append((f"settings file: {' - '.join(p)}", nested(p, sample(node))))
        if node.get("can_be_false"):
            out.append((f"settings file: {' - '.join(p)} = false", nested(p, False)))
    return [(label, user, [], "file") for label, user in out]


def work(args):
    root, prop, idx = args
    c = config(root)
    out = []
    scen = SCEN[prop](c.schema)
    for i in idx:
        label, user, asm, kind = scen[i]
        r = {"label": label, "kind": kind, "parts": 0, "bad": [], "und": []}
        try:
            with settings_file(c, kind, user) as start:
                joint = c.compare(user, run=start, assume=asm)
            for path, ref, diffs, res in joint:
                r["parts"] += 1
                if not diffs:
                    continue
                txt = "; ".join(show_atom(a, v) for a, v in path)[:600]
                if not atoms_ok(path) or (res[0] == "ok" and any(foreign_ops(leaf(res[1], p)) for p, _ in diffs if p)):
                    r["und"].append(f"{label}: unmodelled operation when {txt[:200]}")
                    continue
                for p, t in diffs[:3]:
                    r["bad"].append((" - ".join(map(str, p)), t, txt))
        except Exception as e:
            r["und"].append(f"{label}: {type(e).__name__} {str(e)[:160]}")
        out.append(r)
    return out, sorted(c.it.visited)


def leaf(d, p):
    for k in p:
        try:
            d = d[k]
        except (KeyError, TypeError, IndexError):
            return None
    return d


def parser_sites(root):
    """option type -> file:class of the registered parser, from the source."""
    f = "mimosa/common/config/utils/parsers.py"
    out = {"reference": "mimosa/common/config/parseconfig.py:parse_param_values", None: "mimosa/common/config/parseconfig.py:check_params"}
    try:
        with open(os.path.join(root, f), encoding="utf8") as fh:
            tree = ast.parse(fh.read())
    except (OSError, SyntaxError):
        return out
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "register_parser" and len(n.args) == 2 \
                and isinstance(n.args[0], ast.Constant) and isinstance(n.args[1], ast.Name):
            out[n.args[0].value] = f"{f}:{n.args[1].id}.parse"
    return out


def run(prop, tier, root=ROOT, workers=8):
    c = config(root)
    scen = SCEN[prop](c.schema)
    n = len(scen)
    chunks = [list(range(i, n, workers * 4)) for i in range(workers * 4)]
    sites = parser_sites(root)
    findings, und = [], []
    parts = done = 0
    funcs = set()
    with ProcessPoolExecutor(workers) as ex:
        for out, fs in ex.map(work, [(root, prop, ch) for ch in chunks if ch]):
            funcs |= set(fs)
            for r in out:
                parts += r["parts"]
                und += r["und"]
                if r["parts"] and not r["bad"] and not r["und"]:
                    done += 1
                for p, t, txt in r["bad"]:
                    what = f"option {p!r} {t}" if p else f"the configuration is {t}"
                    findings.append({"kind": "configuration", "prop": prop, "props": [prop], "key": f"{prop}|{r['label']}|{p}|{t[:80]}",
                                     "text": f"with {r['label']}: {what}", "where": sites.get(r["kind"], sites[None]),
                                     "scenario": r["label"], "path": txt})
    cov = {"explanation": "The constructor of the model is interpreted abstractly on user configurations with unconstrained values; the "
           "resulting settings are compared on every trace partition with the independent reference in spec/ref_config.py, driven by the "
           "shipped option template.", "obligations": n, "discharged": done, "trace partitions compared": parts,
           "options in the template": len(list(leaves(c.schema))), "functions analysed": sorted(funcs),
           "samples": [s[0] for s in scen[:: max(1, n // 12)]]}
    return {"findings": findings, "undecided": und, "coverage": cov, "assumptions": [
        "Library calls (float, int, str, pint parsing) are modelled by their documented outcome; whether pint can convert an unconstrained "
        "value is an unconstrained boolean.", "Texts with unconstrained content contain no braces; references are analysed on concrete texts."]}


# ------------------------------------------------- caller's data, history

def containers(x, out=None, seen=None):
    """id -> path of every mutable container reachable from x (the containers stay alive through x)."""
    from .interp import InstV
    out = {} if out is None else out

    def go(v, path):
        if isinstance(v, (dict, list)):
            if id(v) in out:
                return
            out[id(v)] = path
            for k, y in (v.items() if isinstance(v, dict) else enumerate(v)):
                go(y, path + (k,))
        elif isinstance(v, tuple):
            for i, y in enumerate(v):
                go(y, path + (i,))
        elif isinstance(v, InstV):
            if id(v) in out:
                return
            out[id(v)] = path
            for k, y in v.attrs.items():
                go(y, path + ("." + k,))
    go(x, ())
    return out


def poison(v):
    if isinstance(v, dict):
        for y in v.values():
            poison(y)
        v.clear()
        v["poisoned"] = "poisoned"
    elif isinstance(v, list):
        for y in v:
            poison(y)
        v[:] = ["poisoned"]


def histories(schema):
    """(label, steps): steps are ("new", user) | ("bad", user) | ("load",) | ("reload", user changes); the last one is compared."""
    full0, full1 = full_user(schema), full_user(schema, 1)
    ref = {}
    for p, n in leaves(schema):
        if n["type"] == "datasource":
            merge(ref, nested(p, {"variable": "a {SSP}", "unit": "u", "scenario": "{SSP}-{time - end}", "model": "m", "file": "f"}))
    out = [("nothing set", [("new", {})]), ("every option set", [("new", full0)]), ("references", [("new", ref)]),
           ("shipped configuration loaded and passed on", [("load", {})])]
    for p, n in leaves(schema):
        name = " - ".join(p)
        u = nested(p, sample(n))
        out.append((f"{name} set", [("new", u)]))
        d = n.get("default")
        if isinstance(d, (dict, list)) and d:
            out.append((f"{name} passed as its own default", [("new", nested(p, cc.copy_(d)))]))
        out.append((f"{name} changed in a loaded configuration", [("load", u)]))
        out.append((f"{name} set, then a run with nothing set", [("new", u), ("new", {})]))
        if n["type"] == "str_or_plain_dict" or (n["type"] == "dict" and "values" not in n):
            out.append((f"{name} = nested containers", [("new", nested(p, {"a": {"b": ["{SSP}", {"c": "{SSP}"}]}}))]))
    out += [("same settings twice", [("new", full0), ("again",)]), ("same loaded settings twice", [("load", {}), ("again",)]),
            ("same settings with references twice", [("new", ref), ("again",)]),
            ("every option set, then nothing", [("new", full0), ("new", {})]),
            ("nothing, then every option set", [("new", {}), ("new", full0)]),
            ("one set, then another", [("new", full0), ("new", full1)]),
            ("references, then other references", [("new", merge(cc.copy_(ref), {"SSP": "SSP5"})), ("new", merge(cc.copy_(ref), {"SSP": "SSP1"}))]),
            ("SSP5, then default", [("new", {"SSP": "SSP5"}), ("new", {})]),
            ("default, then SSP5", [("new", {}), ("new", {"SSP": "SSP5"})]),
            ("three runs", [("new", full0), ("new", ref), ("load", {})]),
            ("rejected, then default", [("bad", merge(cc.copy_(full0), {"unknown": 1})), ("new", {})]),
            ("rejected for a bound, then default", [("bad", {"economics": {"PRTP": -3}}), ("new", {})]),
            ("rejected, then every option set", [("bad", {"time": {"dt": "x"}}), ("new", full0)]),
            ("loaded and changed, then loaded again", [("load", full0), ("load", {})])]
    return out


def hwork(args):
    root, idx = args
    out = []
    for i in idx:
        c = cc.Config(root)  # fresh module state
        label, steps = histories(c.schema)[i]
        it = c.it
        r = {"label": label, "kind": None, "parts": 0, "bad": [], "und": []}
        it.load("mimosa.common.config.parseconfig")
        try:
            load = it.load("mimosa.common.config.parseconfig").env.vars["load_params"]
        except KeyError:
            r["und"].append("load_params not found")
            out.append(r)
            continue
        bad = r["bad"]

        def run():
            last = None
            inst = None
            for n, st in enumerate(steps):
                if st[0] == "load":
                    user = it.call(load, [], {})
                    if not isinstance(user, dict):
                        if user is None or isinstance(user, (str, int, float, tuple, list)):
                            raise cc.PyExc(TypeError, (f"load_params() gives {type(user).__name__}, not a configuration",))
                        raise Unsupported("load_params does not give a dictionary")
                    merge(user, cc.copy_(st[1]))
                elif st[0] == "again":
                    user = last[1]
                else:
                    user = cc.copy_(st[1])
                before = cc.copy_(user)
                shape = containers(user)
                if st[0] == "bad":
                    try:
                        it.call(c.cls, [user], {})
                        raise Unsupported("the configuration meant to be rejected is accepted")
                    except cc.PyExc:
                        pass
                else:
                    inst = it.call(c.cls, [user], {})
                if freeze(user) != freeze(before) or containers(user) != shape:
                    bad.append((f"step {n + 1}", f"changes the caller's settings ({first_diff(before, user)})", ""))
                if st[0] == "bad":
                    continue
                mine = containers(inst)
                shared = [(shape[k], mine[k]) for k in shape if k in mine]
                for a, b in shared[:2]:
                    bad.append((f"step {n + 1}", f"shares the caller's container {' - '.join(map(str, a)) or '(whole settings)'} "
                                f"as {' - '.join(map(str, b))}", ""))
                last = (inst, user, before)
                if n + 1 < len(steps) and steps[n + 1][0] != "again" and not shared:
                    poison(user)
                    poison(inst.attrs["params"])
            return last
        try:
            for res, path, stx, ev in list(it.explore(run)):
                r["parts"] += 1
                if res[0] != "ok":
                    bad.append(("", f"rejected ({str(res[1])[:160].strip()})", ""))
                    continue
                inst, user, before = res[1]
                want = it.explore(lambda: it.call(c.ref, [c.schema, before], {}))
                for r2, p2, st2, ev2 in want:
                    if r2[0] != "ok":
                        bad.append(("", "accepted but must be rejected", ""))
                        continue
                    diffs = []
                    c.diff(inst.attrs["params"], r2[1], st2, (), diffs)
                    for p, t in diffs[:3]:
                        bad.append((" - ".join(map(str, p)), t, ""))
        except Exception as e:
            r["und"].append(f"{label}: {type(e).__name__} {str(e)[:160]}")
        out.append(r)
    return out, sorted(c.it.visited) if idx else []


def first_diff(a, b, path=()):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + list(b):
            if k not in a or k not in b:
                return " - ".join(map(str, path + (k,))) + (" added" if k in b else " removed")
            if freeze(a[k]) != freeze(b[k]):
                return first_diff(a[k], b[k], path + (k,))
        return " - ".join(map(str, path)) + " reordered"
    return f"{' - '.join(map(str, path))}: {cc.show(a)[:60]} becomes {cc.show(b)[:60]}"


def run_history(prop, tier, root=ROOT, workers=8):
    c = config(root)
    hs = histories(c.schema)
    n = len(hs)
    chunks = [list(range(i, n, workers * 3)) for i in range(workers * 3)]
    findings, und, funcs = [], [], set()
    done = 0
    with ProcessPoolExecutor(workers) as ex:
        for out, fs in ex.map(hwork, [(root, ch) for ch in chunks if ch]):
            funcs |= set(fs)
            for r in out:
                und += r["und"]
                if r["parts"] and not r["bad"] and not r["und"]:
                    done += 1
                for p, t, txt in r["bad"]:
                    what = f"{p!r} {t}" if p else t
                    findings.append({"kind": "ownership", "prop": prop, "props": [prop], "key": f"{prop}|{r['label']}|{p}|{t[:80]}",
                                     "text": f"history {r['label']}: {what}", "where": "mimosa/common/config/parseconfig.py:check_params",
                                     "scenario": r["label"], "path": txt})
    cov = {"explanation": "Sequences of loading, changing, rejecting and constructing are interpreted on one module state; object identity "
           "of every container is tracked (aliasing with the caller's dictionaries), the caller's data are compared before and after, and "
           "after every step the caller's and the previous run's settings are overwritten before the next run.",
           "obligations": n, "discharged": done, "functions analysed": sorted(funcs), "samples": [h[0] for h in hs[:: max(1, n // 12)]]}
    return {"findings": findings, "undecided": und, "coverage": cov, "assumptions": [
        "Model building itself (instantiation, data store) is outside these histories; it is covered by the data properties."]}
