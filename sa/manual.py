"""E02: the hooks that write the parameter reference are interpreted, and what they write is compared with the option template."""
import ast
import os
import re
import sys
import tempfile

import yaml

from .root import ROOT
from .interp import PyExc, Unsupported
from .session import TooManyPaths
from . import terms as tm

HOOKS = "docs/scripts/mkdocs_hooks.py"
TEMPLATE = "mimosa/inputdata/config/config_default.yaml"
REFERENCE = "{params::reference}"


def leaves(node, path=()):
    for k, v in node.items():
        if isinstance(v, dict) and "type" in v:
            yield path + (str(k),), v
        elif isinstance(v, dict):
            yield from leaves(v, path + (str(k),))


def clean(s):
    return str(s).strip().strip("`*|").strip()


def same(text, value):
    """Whether a printed text denotes a value."""
    text = clean(text)
    if text == clean(str(value)):
        return True
    try:
        return not isinstance(value, (bool, str)) and float(text) == float(value)
    except (ValueError, TypeError):
        pass
    try:
        return ast.literal_eval(text) == value
    except (ValueError, SyntaxError, TypeError):
        return " ".join(text.split()) == " ".join(clean(str(value)).split())


def field(entry, label):
    """Texts printed after a label at the start of a line."""
    return [m.group(1) for m in re.finditer(r"(?im)^[^\w\n]*" + label + r"[^\w\n'\"\[{(.+-]*?[:|=][ \t*`|]*(.*)$", entry)]


def usage(entry):
    """(path, value node) of the assignments to params in the code of an entry."""
    out = []
    for m in re.finditer(r"^[ \t]*```[^\n]*\n(.*?)^[ \t]*```", entry, re.S | re.M):
        import textwrap
        try:
            tree = ast.parse(textwrap.dedent(m.group(1)))
        except SyntaxError:
            continue
        for st in tree.body:
            if isinstance(st, ast.Assign) and len(st.targets) == 1:
                t, path = st.targets[0], []
                while isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant):
                    path.insert(0, t.slice.value)
                    t = t.value
                if isinstance(t, ast.Name) and t.id == "params" and path:
                    out.append((tuple(path), st.value))
    return out


def entry_problems(path, node, entry):
    """What the reference entry of an option says wrongly or leaves out."""
    out = []
    t = node["type"]
    descr = " ".join(str(node.get("descr", "")).split())
    if descr and descr not in " ".join(entry.split()):
        out.append("lacks its description")

    def need(label, value, what):
        got = field(entry, label)
        if not got:
            out.append(f"does not tell its {what} ({value})")
        elif not any(same(g, value) for g in got):
            out.append(f"tells the {what} {got[0]!r}, it is {value!r}")
    need(r"type", t, "type")
    need(r"default(?: value)?", node.get("default"), "default")
    need(r"can (?:also )?be false", node.get("can_be_false", False), "off-value rule")
    if t in ("int", "float"):
        need(r"(?:min(?:imum)?|lower bound)", node.get("min", float("-inf")), "minimum")
        need(r"(?:max(?:imum)?|upper bound)", node.get("max", float("inf")), "maximum")
    if t == "quantity":
        need(r"unit", node["unit"], "unit")
    if t == "enum":
        m = re.search(r"(?im)^[^\w\n]*(?:allowed|possible)? ?values[^\n]*:[ \t]*\n((?:[ \t]*\n|[ \t]*[-*] [^\n]*\n?)*)", entry)
        got = [clean(re.sub(r"^[ \t]*[-*] ", "", x)) for x in m.group(1).split("\n") if x.strip()] if m else None
        if got is None:
            if not all(re.search(r"(?<!\w)" + re.escape(str(v)) + r"(?!\w)", entry) for v in node["values"]):
                out.append("does not list its allowed values")
        elif len(got) != len(node["values"]) or not all(same(g, v) for g, v in zip(sorted(got), sorted(map(str, node["values"])))):
            out.append(f"lists the allowed values {got}, they are {node['values']}")
    uses = [(p, v) for p, v in usage(entry)]
    if not uses:
        out.append("has no usage example that assigns an option")
    for p, v in uses:
        if p != path:
            out.append(f"has a usage example that sets {' - '.join(map(str, p))}")
            continue
        try:
            val = ast.literal_eval(v)
        except (ValueError, SyntaxError):
            out.append(f"has a usage example whose value is not a literal ({ast.unparse(v)})")
            continue
        if val != node.get("default") or isinstance(val, bool) != isinstance(node.get("default"), bool):
            out.append(f"has a usage example with the value {val!r}, the default is {node.get('default')!r}")
    return out


def references(root):
    """{source: [(reference text, name, option or None)]} in the documentation pages and docstrings."""
    from .examples import texts
    out = {}
    for rel, _, text in texts(root):
        for m in re.finditer(r"(?<![A-Za-z0-9_])(?:param::([a-zA-Z0-9_]+)|manualparam::([a-zA-Z0-9_ ]+)::([a-zA-Z0-9_.]+))", text):
            out.setdefault(rel, []).append((m.group(0), m.group(1) or m.group(2), m.group(3)))
    return out


PROGRAM = """
import mkdocs_hooks as hooks
reference = hooks.on_page_markdown("BEGIN {params::reference} END")
other = hooks.on_page_markdown("a page without the keyword")
pages = [hooks.on_page_content(text) for text in %s]
names = hooks.model
"""


def run(prop, tier, root=None):
    root = root or ROOT
    sys.setrecursionlimit(20000)
    from . import runprops
    fs, und, n, ok = [], [], 0, 0

    def bad(key, text, where):
        if not any(f["key"] == f"{prop}|{key}" for f in fs):
            fs.append({"kind": "manual", "prop": prop, "props": [prop], "key": f"{prop}|{key}", "text": text, "where": where, "scenario": key, "path": ""})
    with open(os.path.join(root, TEMPLATE), encoding="utf8") as fh:
        options = dict(leaves(yaml.safe_load(fh)))
    refs = references(root)
    s, host = runprops.real_session(root)
    host.halt = None
    s.it.extra_paths["mkdocs_hooks"] = os.path.join(root, HOOKS)
    texts = ["<p>" + " and ".join(f"{r[0]}," for r in rs) + "</p>" for rs in refs.values()]
    nodoc = "<p>an unknown param::no_such_parameter stays</p>"

    def program(it):
        prog = it.load("manual_program")
        model = prog.env.vars["names"]
        comps = {}
        for name, c in list(getattr(model, "comps", {}).items()):
            if getattr(c, "ctype", None) == "Param" and isinstance(c.kwargs.get("doc"), str):
                comps[name] = c.kwargs["doc"]
        hook = it.getattr(it.load("mkdocs_hooks"), "on_page_content")
        alone = {name: it.call(hook, [f"<p>x param::{name} y</p>"], {}) for name in comps}
        return prog.env.vars, comps, alone
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "manual_program.py")
        with open(path, "w", encoding="utf8") as fh:
            fh.write(PROGRAM % repr(texts + [nodoc]))
        s.it.extra_paths["manual_program"] = path
        try:
            for res, p, st, ev in s.run(program, ()):
                if res[0] == "raise":
                    n += 1
                    if all(x[0] == "cmp" for x, v in p):
                        bad(f"raises {str(res[1])[:80]}", f"writing the parameter reference raises {str(res[1])[:200]}", getattr(res[1], "where", "") or HOOKS)
                    else:
                        und.append(f"raises on an unmodelled condition: {str(res[1])[:160]}")
                    continue
                v, comps, alone = res[1]
                md = v["reference"]
                if not isinstance(md, str) or not all(isinstance(x, str) for x in v["pages"]):
                    und.append("the text of the reference is not known")
                    continue
                n += 2
                if not (md.startswith("BEGIN ") and md.endswith(" END")) or REFERENCE in md:
                    bad("frame", "the rest of the page around the reference is changed, or the keyword stays", HOOKS)
                else:
                    ok += 1
                if v["other"] != "a page without the keyword":
                    bad("other", "a page without the keyword is changed", HOOKS)
                else:
                    ok += 1
                # entries
                ids = [(m.group(1), m.start()) for m in re.finditer(r"\bid=[\"']([^\"']*)[\"']", md)]
                want = {".".join(p_): p_ for p_ in options}
                marks = sorted(pos for i, pos in ids if i in want) + [len(md)]
                for name, p_ in want.items():
                    n += 1
                    at = [pos for i, pos in ids if i == name]
                    if len(at) != 1:
                        bad(f"{name}|anchor", f"the option {name} has {len(at)} entries in the parameter reference", HOOKS)
                        continue
                    entry = md[at[0]: min(x for x in marks if x > at[0])]
                    probs = entry_problems(p_, options[p_], entry)
                    for t in probs:
                        bad(f"{name}|{t[:60]}", f"the reference entry of {name} {t}", f"{HOOKS} / mimosa/common/config/utils/parsers.py:to_markdown")
                    ok += not probs
                extra = [q for e in [md] for q, _ in usage(e) if q not in options]
                if extra:
                    bad(f"extra|{extra[0]}", f"the reference describes {' - '.join(map(str, extra[0]))}, which is not an option", HOOKS)
                # references from other pages
                for (src, rs), page in zip(refs.items(), v["pages"]):
                    for ref, name, key in rs:
                        n += 1
                        if re.search(re.escape(ref) + r"(?![A-Za-z0-9_.])", page):
                            bad(f"{src}|{ref}", f"the reference {ref} in {src} is not replaced", src.split(":")[0])
                        elif name not in page or (key and "#" + key not in page):
                            bad(f"{src}|{ref}", f"the reference {ref} in {src} is replaced by a text without its {'name' if name not in page else 'option'}", HOOKS)
                        else:
                            ok += 1
                n += 1
                if v["pages"][-1] != nodoc:
                    bad("unknown", "a reference to an unknown parameter is changed", HOOKS)
                else:
                    ok += 1
                for name, doc in comps.items():
                    m = re.match(r"::([\w .-]+)$", doc)
                    text = alone[name]
                    if not isinstance(text, str) or not m:
                        continue
                    n += 1
                    p_ = tuple(m.group(1).split("."))
                    node = options.get(p_)
                    if node is None:
                        und.append(f"parameter {name} names no option")
                        continue
                    flat = " ".join(text.split())
                    lacks = [w for w, x in (("the name", name), ("a link to the option", "#" + m.group(1)), ("the description", " ".join(str(node.get("descr", "")).split())),
                                            ("the default", str(node.get("default")))) if x and x not in flat]
                    if lacks or f"param::{name}" in text:
                        bad(f"param {name}", f"the reference param::{name} is replaced by a text without {lacks[0] if lacks else 'replacing it'}: {text[:100]}", HOOKS)
                    else:
                        ok += 1
        except (Unsupported, TooManyPaths, tm.Unnormalisable, RecursionError) as e:
            und.append(f"{type(e).__name__} {str(e)[:200]}")
        except Exception as e:
            und.append(f"internal {type(e).__name__} {str(e)[:200]}")
    cov = {"explanation": "The documentation hooks that write the parameter reference and expand references to parameters are interpreted abstractly with the shipped option template; "
           "what they write is compared, option by option, with the template itself, and every reference in the documentation must be expanded.",
           "obligations": max(n, 1), "discharged": ok, "functions analysed": sorted(s.it.visited), "options": len(options), "references": sum(map(len, refs.values()))}
    return {"findings": fs, "undecided": und, "coverage": cov, "assumptions": ["mkdocs calls on_page_markdown and on_page_content with the text of each page."]}
