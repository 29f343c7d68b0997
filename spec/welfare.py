"""M15 welfare, M16 objective."""
from spec.common import softmin


def utility_fn(s, c, pop):
    e = s.cfg("economics.elasmu")
    return (softmin(s, c / pop) ** (1 - e) - 1) / (1 - e)


def utility(s, t, r):
    c, pop, u = s.V("consumption", t, r), s.data("population", t, r), s.V("utility", t, r)
    w = s.module("welfare")
    if w == "welfare_loss_minimising":
        return s.eq(u, utility_fn(s, c, pop))
    if w == "cost_minimising":
        return s.eq(u, c / pop)
    return s.eq(u, pop * softmin(s, c / pop) ** (1 - s.cfg("economics.inequal_aversion")))


def welfare(s, t):
    w = s.module("welfare")
    pops = s.sum(s.data("population", t, r) for r in s.regions)
    y = s.V("yearly_welfare", t)
    if w == "welfare_loss_minimising":
        return s.eq(y, s.sum(s.data("population", t, r) * s.V("utility", t, r) for r in s.regions))
    if w == "cost_minimising":
        return s.eq(y, pops * utility_fn(s, s.sum(s.V("consumption", t, r) for r in s.regions), pops))
    e, g = s.cfg("economics.elasmu"), s.cfg("economics.inequal_aversion")
    total = s.sum(s.V("utility", t, r) for r in s.regions)
    return s.eq(y, pops * softmin(s, total / pops) ** ((1 - e) / (1 - g)) / (1 - e))


def npv(s, t):
    v = s.V("NPV", t)
    if t == 0:
        return s.eq(v, 0)
    discount = s.exp(-s.cfg("economics.PRTP") * (s.year(t) - s.start))
    if s.module("objective") == "utility":
        gain = s.V("yearly_welfare", t)
    else:
        gain = s.sum(s.V("mitigation_costs", t, r) + s.V("damage_costs", t, r) * s.V("GDP_gross", t, r) for r in s.regions)
    return s.eq(v, s.V("NPV", t - 1) + s.dt * discount * gain)


def objective(s):
    return ("max" if s.module("objective") == "utility" else "min", s.V("NPV", s.last))


LAWS = [
    ("M15", "utility", "tr", utility),
    ("M15", "yearly welfare", "t", welfare),
    ("M16", "net present value", "t", npv),
]
OBJECTIVE = objective
