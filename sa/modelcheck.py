"""Model properties: both directions of the law comparison over scenarios."""
import ast
import itertools
import os
import time
import traceback
from concurrent.futures import ProcessPoolExecutor, as_completed

from .root import ROOT
from . import terms as tm
from .terms import T, Term, norm, p_add, p_scale
from fractions import Fraction
from .interp import Unsupported, PyExc, exc_name, freeze
from .scenario import Builder
from .laws import (CodeSide, SpecSide, Matcher, uncovered, show_path, show_idx, Rel, canon, same_zeros, make_rel,
                   linear_vars)
from . import spec as specmod
from . import laws as lawsmod


class F(dict):
    """A finding (plain dictionary so that it crosses process borders)."""


def finding(kind, prop, key, text, where="", scenario="", path="", props=()):
    return dict(kind=kind, prop=prop, key=key, text=text, where=where, scenario=scenario, path=path,
                props=sorted(set(props) | {prop}))


def configs(b):
    mv = b.module_values()
    return [dict(zip(mv, x)) for x in itertools.product(*mv.values())]


def covering(cfgs, k=3):
    """Greedy k-wise covering subset of the module combinations, deterministic."""
    keys = list(cfgs[0])
    pairs = lambda c: {tuple((x, c[x]) for x in xs) for xs in itertools.combinations(keys, k)}
    todo = set().union(*[pairs(c) for c in cfgs])
    out = []
    while todo:
        best = max(cfgs, key=lambda c: (len(pairs(c) & todo), -cfgs.index(c)))
        out.append(best)
        todo -= pairs(best)
    return out


def cfg_name(m):
    return "/".join(m.values())


_B = None


BASE = (3, 3)


def source_numbers(root):
    """Whole numbers in the model's source that can select periods or regions
    (compared, sliced, counted; not factors of an equation)."""
    out = set()
    files = [os.path.join(root, "mimosa/abstract_model.py"), os.path.join(root, "mimosa/common/pyomo_utils.py"),
             os.path.join(root, "mimosa/concrete_model/instantiate_params.py")]
    for d, _, fs in os.walk(os.path.join(root, "mimosa/components")):
        files += [os.path.join(d, f) for f in fs if f.endswith(".py")]
    for f in files:
        try:
            with open(f, encoding="utf8") as fh:
                tree = ast.parse(fh.read())
        except (OSError, SyntaxError):
            continue
        skip = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mult, ast.Div, ast.Pow)):
                skip |= {id(n.left), id(n.right)}
            elif isinstance(n, ast.keyword) and n.arg in ("initialize", "bounds", "default", "scale"):
                skip |= {id(x) for x in ast.walk(n.value)}
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and type(n.value) is int and 4 <= n.value <= 40 and id(n) not in skip:
                out.add(n.value)
    return sorted(out)


def worlds(tier, root):
    """(periods after the first, regions, module coverage) beyond the base world."""
    out = [(3, 1, 1), (6, 2, 1)]
    if tier == "thorough":
        out += [(1, 2, 2), (2, 6, 1), (12, 1, 2), (26, 1, 1)]
    nums = source_numbers(root)
    if nums:
        # small enough for every number to have a period and a region beyond it
        for c in sorted({min(nums), nums[len(nums) // 2], max(nums)}):
            c = min(c, 26) + 1
            out += [(c, 1, 1), (2, c, 1)]
    return sorted(set(out))


def builder(world=BASE):
    global _B
    if _B is None:
        _B = Builder(horizon=world[0], regions=tuple(f"R{i + 1}" for i in range(world[1])), extra_paths=specmod.paths())
        _B.laws = specmod.load_laws(_B)
        _B.objective = _B.it.load("spec.welfare").env.vars["OBJECTIVE"]
    return _B


def exc_text(e):
    return str(e)


def analyse(mods, prop, deadline, world=BASE):
    """All findings of one module combination relevant to ``prop``."""
    global _B
    _B = None  # a fresh interpreter per configuration bounds its memory
    t0 = time.time()
    name = cfg_name(mods) + (f" ({world[0] + 1} periods, {world[1]} region{'s' * (world[1] > 1)})" if world != BASE else "")
    out = {"findings": [], "undecided": [], "stats": {}, "config": name, "functions": []}
    st = out["stats"]

    def bump(k, n=1):
        st[k] = st.get(k, 0) + n
    try:
        b = builder(world)
        scs = b.scenarios(mods)
    except PyExc as e:
        out["findings"].append(finding("raise", "M18", f"M18|build|{exc_text(e)}",
                                       f"building the model raises {exc_text(e)}", e.where or "", cfg_name(mods)))
        return out
    except (Unsupported, tm.Unnormalisable, RecursionError) as e:
        out["undecided"].append(f"{cfg_name(mods)}: {e}")
        return out
    for sc in scs:
        bump("scenarios")
        if sc.binding_error is not None:
            e = sc.binding_error
            out["findings"].append(finding("raise", "M18", f"M18|bind|{exc_text(e)}",
                                           f"binding the parameters raises {exc_text(e)}", e.where or "", sc.label,
                                           show_path(sc.assume)))
            continue
        try:
            one(b, sc, prop, out, bump, deadline)
        except (Unsupported, tm.Unnormalisable, RecursionError) as e:
            out["undecided"].append(f"{sc.label}: {e}")
    out["functions"] = sorted(b.it.visited_names())
    out["wall"] = time.time() - t0
    return out


def excluded(path, mods):
    """Documented precondition: per-capita convergence needs emission trading."""
    if mods["trade"] == "emissiontrade":
        return False
    for a, v in path:
        s = lawsmod.show_atom(a, v)
        if v and "effort sharing.regime" in s and "'per_cap_convergence'" in s:
            return True
    return False


def one(b, sc, prop, out, bump, deadline):
    it = b.it
    code = CodeSide(b, sc).extract()
    bump("rules", code.nrules)
    bump("code relations", len(code.items))
    want_laws = [l for l in b.laws]
    spec = SpecSide(b, sc, want_laws)
    bump("law instances", spec.n)
    mt = Matcher(b, sc, code, spec)
    mt.deadline = deadline
    lab = sc.label
    add = out["findings"].append
    # redeclared components
    for kind, name, site in sc.model.log:
        if kind == "redeclared":
            add(finding("redeclared", "M18", f"M18|redeclared|{name}", f"model component {name!r} is declared twice", str(site), lab))
    seen = set()
    for c, idx, path, e in code.raises:
        if excluded(path, sc.modules):
            bump("partitions excluded by documented preconditions")
            continue
        k = f"M18|{c.name}|{exc_text(e)}"
        if k in seen:
            continue
        seen.add(k)
        add(finding("raise", "M18", k, f"{c.name}{show_idx(idx)} cannot be built: {exc_text(e)}", e.where or c.where, lab, show_path(path)))
    unknown_comps = set()
    for c, idx, why in code.unknown:
        unknown_comps.add(c.name)
        u = f"{lab}: {c.name}{show_idx(idx)}: {why}"
        if len(out["undecided"]) < 200:
            out["undecided"].append(u)
    for law, idx, why in spec.errors:
        out["undecided"].append(f"{lab}: law {law.name}{show_idx(idx)}: {why}")
    # required laws
    allprops = prop in ("M17", "ALL")
    bad = set()
    for law, idx, path, msg in spec.missing:
        if prop not in (law.prop, "ALL"):
            continue
        k = f"{law.prop}|{law.name}|{msg}"
        if k in bad:
            continue
        bad.add(k)
        add(finding("missing", law.prop, k, f"law '{law.name}'{show_idx(idx)}: {msg}", "", lab, show_path(path)))
    for i in spec.items:
        if prop not in (i.law.prop, "ALL"):
            continue
        bump("obligations")
        if mt.trivially_true(i.rel):
            bump("discharged")
            bump("identities")
            continue
        lk = (i.law.prop, i.law.name)
        if lk in bad:
            continue
        if time.time() > deadline:
            out["undecided"].append(f"{lab}: time budget exhausted")
            break
        res = mt.cover(i, code.items)
        if not res:
            bump("discharged")
            if i.status == "undecided":
                out["undecided"].append(f"{lab}: law {i.label()} undecided")
            continue
        # explained by one rule that cannot be evaluated there?
        by = {}
        for c, _i, p, e in code.raises:
            by.setdefault((c.name, exc_text(e)), []).append(p)
        left, why = [], set()
        for p, s in res:
            hit = None
            for who, pths in sorted(by.items()):
                if not uncovered(it, sc.assume, p, pths):
                    hit = who
                    break
            if hit is None:
                left.append((p, s))
            else:
                why.add(f"{hit[0]}: {hit[1]}")
        if not left:
            if excluded(i.path, sc.modules):
                bump("discharged")
                continue
            k = f"{i.law.prop}|{i.law.name}|rule cannot be evaluated: " + "; ".join(sorted(why))
            if k not in bad:
                bad.add(k)
                add(finding("raise", i.law.prop, k, f"law '{i.law.name}'{show_idx(i.idx)} has no constraint: "
                            + "; ".join(sorted(why))[:200], "", lab, show_path(res[0][0])))
            continue
        if unknown_comps:
            out["undecided"].append(f"{lab}: law {i.label()} not found, but {sorted(unknown_comps)[:3]} could not be analysed")
            continue
        bad.add(lk)
        near = nearest(i, code.items)
        add(finding("law", i.law.prop, f"{i.law.prop}|{i.law.name}",
                    f"law '{i.law.name}'{show_idx(i.idx)} is not imposed: {i.rel.text[:400]}"
                    + (f"; closest construct {near.src}{show_idx(near.idx)} ({near.where}): {near.rel.text[:400]}" if near else ""),
                    near.where if near else "", lab, show_path(left[0][0])))
    # closed world
    known_vars = {v.args[0] for i in spec.items for v in i.rel.vars}
    fresh_defs = set()
    badc = set()
    for i in code.items:
        if mt.trivially_true(i.rel):
            continue
        if i.src in badc:
            continue
        if time.time() > deadline:
            out["undecided"].append(f"{lab}: time budget exhausted")
            break
        bump("closed-world obligations")
        res = mt.cover(i, spec.items)
        if not res:
            bump("closed-world discharged")
            continue
        fresh = [v for v in i.rel.vars if v.args[0] not in known_vars]
        if i.rel.kind == "eq" and fresh:
            lin = [v for v in linear_vars(i.rel.p) if v in fresh and v not in fresh_defs]
            if lin:
                fresh_defs.add(lin[0])
                bump("definitions of auxiliary quantities")
                continue
        if i.rel.kind == "le" and i.rel.vars and all(v in fresh for v in i.rel.vars) and len(i.rel.vars) == 1:
            bump("bounds of auxiliary quantities")
            continue
        if fresh and any(c for c in unknown_comps):
            out["undecided"].append(f"{lab}: {i.label()} not explained")
            continue
        if spec.errors:
            out["undecided"].append(f"{lab}: {i.label()} not explained, but some laws could not be evaluated")
            continue
        badc.add(i.src)
        props = attribute(i, spec.items, code.items, mt)
        add(finding("extra", "M17", f"M17|{i.src}", f"{i.src}{show_idx(i.idx)} imposes a relation no law allows: {i.rel.text[:400]}",
                    i.where, lab, show_path(res[0][0]), props))
    # objective
    if prop in ("M16", "ALL"):
        objective(b, sc, code, out, bump, mt)
    for k, v in mt.stats.items():
        bump(k, v)


def objective(b, sc, code, out, bump, mt):
    it = b.it
    add = out["findings"].append
    from .laws import SpecModel
    s = SpecModel(b, sc)
    want = []
    for res, path, st, ev in it.explore(lambda: it.call(b.objective, [s], {}), assume=sc.assume):
        if res[0] == "ok":
            want.append((path, res[1]))
    comps = {id(o[1]) for o in code.objective}
    if len(comps) != 1:
        add(finding("objective", "M16", "M16|objective count", f"the model has {len(comps)} objectives", "", sc.label))
        return
    for wp, (sense, term) in want:
        for path, c, t, cs in code.objective:
            bump("obligations")
            got = "min"
            if cs is not None:
                n = tm.show(freeze(cs)).split(".")[-1]
                if n in ("maximize", "-1", "max"):
                    got = "max"
                elif n in ("minimize", "1", "min"):
                    got = "min"
                else:
                    out["undecided"].append(f"{sc.label}: sense {n}")
                    continue
            g, w = norm(t), norm(it.scalar(term))
            if got != sense:
                g = p_scale(g, Fraction(-1))
            d = p_add(g, w, Fraction(-1))
            if not d:
                bump("discharged")
                continue
            # an affine positive rescaling leaves the optimum unchanged
            if not any(x.op == "var" for x in _atoms(d)) or _rescaled(g, w):
                bump("discharged")
                continue
            add(finding("objective", "M16", "M16|objective",
                        f"the objective is {got} {tm.show(t)[:200]} instead of {sense} {tm.show(term)[:200]}", c.where, sc.label, show_path(path)))


def _atoms(p):
    return lawsmod.poly_atoms(p)


def _rescaled(g, w):
    if set(g) != set(w) or not g:
        return False
    rs = {g[k] / w[k] for k in g}
    return len(rs) == 1 and next(iter(rs)) > 0


def sig(rel):
    return {v.args[0] for v in rel.vars} | {("src",) + x.args[:1] for x in lawsmod.poly_atoms(rel.p) if x.op == "par"} \
        | {("cfg", x.args[1]) for x in lawsmod.poly_atoms(rel.p) if x.op == "sym" and x.args[0] == "cfg"}


def nearest(item, others):
    best, bs = None, -1
    s = sig(item.rel)
    for o in others:
        t = sig(o.rel)
        u = len(s | t) or 1
        sc = len(s & t) / u + (0.2 if o.idx == item.idx else 0) + (0.1 if o.rel.kind == item.rel.kind else 0)
        if sc > bs:
            best, bs = o, sc
    return best


def attribute(item, laws, codes, mt):
    """Laws the component of an unexplained relation otherwise serves."""
    props = set()
    keys = {}
    for l in laws:
        keys.setdefault(canon(l.rel, mt.it.domain_of), set()).add(l.law.prop)
    for c in codes:
        if c.src == item.src:
            props |= keys.get(canon(c.rel, mt.it.domain_of), set())
    s = sig(item.rel)
    best, bp = 0, set()
    for l in laws:
        t = sig(l.rel)
        v = len(s & t) / (len(s | t) or 1)
        if v > best + 1e-9:
            best, bp = v, {l.law.prop}
        elif abs(v - best) < 1e-9 and v > 0:
            bp.add(l.law.prop)
    return props | bp


def run(prop, tier, budget, jobs=None):
    """Findings of a model property over the scenarios of the tier."""
    b = builder()
    cf = configs(b)
    sel = [(m, BASE) for m in (cf if tier == "thorough" else covering(cf))]
    for h, r, k in worlds(tier, ROOT):
        sel += [(m, (h, r)) for m in covering(cf, k)]
    deadline = time.time() + budget
    jobs = jobs or min(8, os.cpu_count() or 1, len(sel))
    outs = []
    # the largest ones first
    order = sorted(range(len(sel)), key=lambda i: -sel[i][1][0] * (1 + sel[i][1][1]))
    with ProcessPoolExecutor(jobs) as ex:
        futs = {ex.submit(_safe, sel[i], prop, deadline): i for i in order}
        res = {}
        for f in as_completed(futs):
            res[futs[f]] = f.result()
    outs = [res[i] for i in sorted(res)]
    return outs, sel, cf


def _safe(job, prop, deadline):
    m, world = job
    try:
        return analyse(m, prop, deadline, world)
    except Exception:
        return {"findings": [], "undecided": [f"{cfg_name(m)}: internal: {traceback.format_exc()[-600:]}"], "stats": {},
                "config": cfg_name(m), "functions": [], "internal": True}
