"""M07 abatement costs, M08 technological learning."""
from spec.common import softmin


def scaling(s, r):
    return s.reg("MAC", f"{s.cfg('economics.MAC.regional calibration factor')}", r)


def price(s, t, r):
    p = s.V("carbonprice", t, r)
    a = s.V("relative_abatement", t, r)
    return s.eq(p, s.V("learning_factor", t) * scaling(s, r) * s.cfg("economics.MAC.gamma") * a ** s.cfg("economics.MAC.beta"))


def price_start(s, r):
    return s.eq(s.V("carbonprice", 0, r), 0)


def price_range(s, t, r):
    p = s.V("carbonprice", t, r)
    return [s.ge(p, 0), s.le(p, 2 * s.cfg("economics.MAC.gamma"))]


def area(s, t, r):
    beta = s.cfg("economics.MAC.beta")
    a = s.V("relative_abatement", t, r)
    return (s.V("learning_factor", t) * scaling(s, r) * s.cfg("economics.MAC.gamma") * a ** (beta + 1) / (beta + 1)
            * s.V("baseline", t, r))


def area_under_mac(s, t, r):
    return s.eq(s.V("area_under_MAC", t, r), area(s, t, r))


def costs(s, t, r):
    return s.eq(s.V("mitigation_costs", t, r), area(s, t, r) + s.V("import_export_mitigation_cost_balance", t, r))


def relative(s, t, r):
    return s.eq(s.V("rel_mitigation_costs", t, r), s.V("mitigation_costs", t, r) / s.V("GDP_gross", t, r))


def relative_min(s, t, r):
    level = s.cfg("economics.MAC.rel_mitigation_costs_min_level") if t > 0 else 0
    return s.ge(s.V("rel_mitigation_costs", t, r), level)


def relative_global(s, t):
    return s.eq(s.V("global_rel_mitigation_costs", t),
                s.sum(s.V("mitigation_costs", t, r) for r in s.regions)
                / s.sum(s.V("GDP_gross", t, r) for r in s.regions))


def reporting(s, t):
    if t == 0:
        return None
    red = s.sum(s.V("regional_emission_reduction", t, r) for r in s.regions)
    cost = s.sum(s.V("mitigation_costs", t, r) for r in s.regions)
    return [s.eq(s.V("global_emission_reduction_per_cost_unit", t), red / softmin(s, cost)),
            s.eq(s.V("global_cost_per_emission_reduction_unit", t), cost / softmin(s, red))]


def cum_baseline(s, t):
    total = 0
    for k in range(t):
        for r in s.regions:
            total = total + s.dt * (s.data("emissions", k, r) + s.data("emissions", k + 1, r)) / 2
    return total


def by_doing(s, t):
    rate = s.log(s.cfg("economics.MAC.LBD_rate")) / s.log(2)
    x = (cum_baseline(s, t) - s.V("cumulative_emissions", t)) / s.cfg("economics.MAC.LBD_scaling") + 1
    return s.eq(s.V("LBD_factor", t), softmin(s, x) ** rate)


def over_time(s, t):
    return s.eq(s.V("LOT_factor", t) * (1 + s.cfg("economics.MAC.LOT_rate")) ** t, 1)


def learning(s, t):
    return s.eq(s.V("learning_factor", t), s.V("LBD_factor", t) * s.V("LOT_factor", t))


LAWS = [
    ("M07", "carbon price on the regional MAC curve", "tr", price),
    ("M07", "carbon price starts at zero", "r", price_start),
    ("M07", "carbon price range", "tr", price_range),
    ("M07", "area under the MAC curve", "tr", area_under_mac),
    ("M07", "mitigation costs", "tr", costs),
    ("M07", "relative mitigation costs", "tr", relative),
    ("M07", "minimum of relative mitigation costs", "tr", relative_min),
    ("M07", "global relative mitigation costs", "t", relative_global),
    ("M07", "reduction per cost and cost per reduction", "t", reporting),
    ("M08", "learning by doing", "t", by_doing),
    ("M08", "learning over time", "t", over_time),
    ("M08", "total learning factor", "t", learning),
]
