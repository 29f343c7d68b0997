"""E01: the run scripts and the documented example programs are interpreted as clients of the package."""
import ast
import os
import re
import sys
import tempfile
import textwrap
from concurrent.futures import ProcessPoolExecutor

from .root import ROOT
from .interp import PyExc, Unsupported
from .session import TooManyPaths
from . import terms as tm

SCRIPT_DIRS = ("", "tests/runs")
HEADER = "from mimosa import MIMOSA, load_params\n"


def uses(tree, *names):
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in names for n in ast.walk(tree))


def own_part(src):
    """The statements of a script up to its first use of results on disk."""
    tree = ast.parse(src)
    cut = None
    for st in tree.body:
        if any(isinstance(n, ast.Attribute) and n.attr == "read_csv" for n in ast.walk(st)):
            cut = st.lineno
            break
    return src if cut is None else "\n".join(src.split("\n")[: cut - 1]) + "\n"


def texts(root):
    """(file, first line, text) of the documentation: its pages, and the docstrings which it includes."""
    for top, ext in (("docs", ".md"), ("mimosa", ".py")):
        for base, _, files in sorted(os.walk(os.path.join(root, top))):
            for f in sorted(files):
                if not f.endswith(ext):
                    continue
                path = os.path.join(base, f)
                rel = os.path.relpath(path, root)
                with open(path, encoding="utf8") as fh:
                    text = fh.read()
                if ext == ".md":
                    yield rel, 1, text
                    continue
                try:
                    tree = ast.parse(text)
                except SyntaxError:
                    continue
                for n in ast.walk(tree):
                    if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)):
                        d = ast.get_docstring(n, clean=True)
                        if d:
                            yield f"{rel}:{getattr(n, 'name', 'module')}", 1, d + "\n"


def programs(root):
    """[(name, where, source)]: scripts and complete documentation snippets; snippets that do not parse are skipped."""
    out, skipped = [], []
    for d in SCRIPT_DIRS:
        base = os.path.join(root, d)
        if not os.path.isdir(base):
            continue
        for f in sorted(os.listdir(base)):
            if f.startswith("run") and f.endswith(".py"):
                rel = os.path.join(d, f) if d else f
                with open(os.path.join(base, f), encoding="utf8") as fh:
                    src = fh.read()
                try:
                    if not uses(ast.parse(src), "MIMOSA"):
                        continue
                except SyntaxError as e:
                    skipped.append(f"{rel}: {e}")
                    continue
                out.append((rel, rel, own_part(src)))
    for rel, line0, text in texts(root):
        for m in re.finditer(r"^([ \t]*)```[ ]?python[^\n]*\n(.*?)^\1```", text, re.S | re.M):
            src = textwrap.dedent(m.group(2))
            line = line0 + text.count("\n", 0, m.start())
            if "--8<--" in src:
                continue
            try:
                tree = ast.parse(src)
            except SyntaxError:
                skipped.append(f"{rel}:{line}")
                continue
            if not uses(tree, "load_params"):
                continue
            src = src if any(isinstance(n, ast.ImportFrom) and n.module == "mimosa" for n in ast.walk(tree)) else HEADER + src
            if not uses(tree, "MIMOSA"):
                src += "\nMIMOSA(params)\n"
            out.append((f"{rel}:{line}", f"{rel}:{line}", src))
    return out, skipped


def calls(src):
    """Numbers of solve() and save() statements outside loops, None when they stand in a loop."""
    tree = ast.parse(src)
    loop = any(isinstance(n, (ast.For, ast.While, ast.FunctionDef, ast.If, ast.Try)) for n in ast.walk(tree))
    n = {k: sum(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == k for x in ast.walk(tree)) for k in ("solve", "save")}
    return None if loop else n


def job(a):
    name, where, src, root = a
    sys.setrecursionlimit(20000)
    from . import runprops
    s, host = runprops.real_session(root)
    host.halt = None
    out = {"name": name, "where": where, "bad": [], "und": [], "functions": [], "parts": 0}
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "documented_program.py")
        with open(path, "w", encoding="utf8") as fh:
            fh.write(src)
        s.it.extra_paths["documented_program"] = path
        try:
            for res, p, st, ev in s.run(lambda it: it.load("documented_program"), ()):
                out["parts"] += 1
                if res[0] == "raise":
                    if all(x[0] == "cmp" for x, v in p):
                        out["bad"].append((f"raises {str(res[1])[:200].strip()}", getattr(res[1], "where", "") or where))
                    else:
                        out["und"].append(f"{name}: raises on an unmodelled condition")
                    continue
                n = calls(src)
                got = sum(e[0] == "solve" for e in host.log)
                if n is not None and got != n["solve"]:
                    out["bad"].append((f"sends {got} models to the solver, has {n['solve']} solve statements", where))
        except (Unsupported, TooManyPaths, tm.Unnormalisable, RecursionError) as e:
            out["und"].append(f"{name}: {type(e).__name__} {str(e)[:200]}")
        except Exception as e:
            out["und"].append(f"{name}: internal {type(e).__name__} {str(e)[:200]}")
    out["functions"] = sorted(s.it.visited)
    return out


def run(prop, tier, root=None):
    root = root or ROOT
    progs, skipped = programs(root)
    fs, und, funcs, parts, ok = [], [], set(), 0, 0
    with ProcessPoolExecutor(min(8, os.cpu_count() or 1)) as ex:
        for r in ex.map(job, [p + (root,) for p in sorted(progs, key=lambda p: -len(p[2]))]):
            parts += r["parts"]
            funcs |= set(r["functions"])
            und += r["und"]
            for t, w in r["bad"]:
                fs.append({"kind": "example", "prop": prop, "props": [prop], "key": f"{prop}|{re.sub(r':[0-9]+$', '', r['name'])}|{t[:100]}",
                           "text": f"the program {r['name']} {t}", "where": w, "scenario": r["name"], "path": ""})
            if not r["bad"] and not r["und"]:
                ok += 1
    cov = {"explanation": "Every run script and every complete documented example is interpreted abstractly as a client of the package, with the shipped "
           "settings and data and the recording model of Pyomo, the solver and the file system; none may raise, and each solve statement must reach the solver once.",
           "obligations": len(progs), "discharged": ok, "trace partitions": parts, "functions analysed": sorted(funcs),
           "samples": [p[0] for p in progs], "skipped fragments": skipped}
    return {"findings": fs, "undecided": und, "coverage": cov,
            "assumptions": ["The solver reports success.", "Post-processing of saved files by a script is not part of the property."]}
