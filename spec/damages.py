"""M05 climate damages, M06 heat mortality."""
from spec.common import softmax


def logistic(s, x, b1, b2, b3):
    return b1 / (1 + b2 * s.exp(softmax(s, -b3 * x, 10, 0.1))) - b1 / (1 + b2)


def curve(s, form, x, b1, b2, b3):
    if "Linear" in form:
        return b1 * x
    if "Quadratic" in form:
        return b1 * x + b2 * x * x
    if "Logistic" in form:
        return logistic(s, x, b1, b2, b3)
    return None


def combined(s):
    return s.cfg("economics.damages.coacch_combined_slr_nonslr_damages")


def adapt(s):
    return "Ad" if s.cfg("economics.damages.coacch_slr_withadapt") else "NoAd"


def non_slr(s, t, r):
    if s.module("damage") != "COACCH":
        return None
    q = s.cfg("economics.damages.quantile")
    x, x0 = s.V("temperature", t) - 0.6, s.cfg("temperature.initial") - 0.6
    if combined(s):
        b1 = s.reg("COACCH", f"combined_b1_{adapt(s)}-q{q}", r)
        b2 = s.reg("COACCH", f"combined_b2_{adapt(s)}-q{q}", r)
        now, then, a = b1 * x + b2 * x ** 2, b1 * x0 + b2 * x0 ** 2, 1
    else:
        form = s.reg("COACCH", "NoSLR_form", r)
        b = [s.reg("COACCH", f"NoSLR_b{i}", r) for i in (1, 2, 3)]
        a = s.reg("COACCH", f"NoSLR_a (q={q})", r)
        now, then = curve(s, form, x, *b), curve(s, form, x0, *b)
    return s.eq(s.V("damage_costs_non_slr", t, r),
                s.cfg("economics.damages.scale factor") * a * (now - then) / 100)


def slr(s, t, r):
    if s.module("damage") != "COACCH":
        return None
    if combined(s):
        return s.eq(s.V("damage_costs_slr", t, r), 0)
    q = s.cfg("economics.damages.quantile")
    pre = f"SLR-{adapt(s)}_"
    form = s.reg("COACCH", f"{pre}form", r)
    b = [s.reg("COACCH", f"{pre}b{i}", r) for i in (1, 2, 3)]
    a = s.reg("COACCH", f"{pre}a (q={q})", r)
    now = curve(s, form, s.V("total_SLR", t), *b)
    then = curve(s, form, s.V("total_SLR", 0), *b)
    return s.eq(s.V("damage_costs_slr", t, r),
                s.cfg("economics.damages.scale factor") * a * (now - then) / 100)


def total(s, t, r):
    if s.module("damage") != "COACCH":
        return s.eq(s.V("damage_costs", t, r), 0)
    return s.eq(s.V("damage_costs", t, r), s.V("damage_costs_non_slr", t, r) + s.V("damage_costs_slr", t, r))


def slr_range(s, t, r):
    if s.module("damage") != "COACCH":
        return None
    v = s.V("damage_costs_slr", t, r)
    return [s.ge(v, -0.5), s.le(v, 0.7)]


def mortality(s, t, r):
    if s.module("damage") != "COACCH":
        return None
    T = s.V("temperature", t)
    out = []
    for group in ("oldest", "older", "young"):
        a, b, c = [s.reg("mortality", f"{group}_{k}", r) for k in "abc"]
        out.append(s.eq(s.V(f"mortality_{group}", t, r), a + b * T + c * T ** 2))
    return out


def mortality_cost(s, t, r):
    if s.module("damage") != "COACCH":
        return None
    return s.eq(s.V("mortality_cost_oldest", t, r),
                1.3 * 10000 * s.data("population", t, r) * s.V("mortality_oldest", t, r))


LAWS = [
    ("M05", "temperature damages", "tr", non_slr),
    ("M05", "sea-level-rise damages", "tr", slr),
    ("M05", "total damages", "tr", total),
    ("M05", "range of sea-level-rise damages", "tr", slr_range),
    ("M06", "heat mortality", "tr", mortality),
    ("M06", "mortality costs", "tr", mortality_cost),
]
