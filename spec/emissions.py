"""M01 emissions accounting, M02 temperature, M03 emission restrictions."""


def base0(s, r):
    return s.data("emissions", 0, r)


def baseline(s, t, r):
    if s.cfg("emissions.baseline carbon intensity"):
        return s.eq(s.V("baseline", t, r), s.data("emissions", t, r) / s.data("GDP", t, r) * s.V("GDP_net", t, r))
    return s.eq(s.V("baseline", t, r), s.data("emissions", t, r))


def regional(s, t, r):
    if t == 0:
        return s.eq(s.V("regional_emissions", 0, r), base0(s, r))
    if s.cfg("emissions.baseline carbon intensity"):
        base = s.V("baseline", t, r)
    else:
        base = s.data("emissions", t, r)
    return s.eq(s.V("regional_emissions", t, r), (1 - s.V("relative_abatement", t, r)) * base)


def reduction(s, t, r):
    return s.eq(s.V("regional_emission_reduction", t, r), s.V("baseline", t, r) - s.V("regional_emissions", t, r))


def global_(s, t):
    if t == 0:
        return s.eq(s.V("global_emissions", 0), s.sum(base0(s, r) for r in s.regions))
    return s.eq(s.V("global_emissions", t), s.sum(s.V("regional_emissions", t, r) for r in s.regions))


def cumulative(s, t):
    if t == 0:
        return s.eq(s.V("cumulative_emissions", 0), 0)
    before = s.V("cumulative_emissions", t - 1)
    if s.cfg("emissions.cumulative_emissions_trapz"):
        step = s.dt * (s.V("global_emissions", t - 1) + s.V("global_emissions", t)) / 2
    else:
        step = s.dt * s.V("global_emissions", t)
    return s.eq(s.V("cumulative_emissions", t), before + step)


def cum_baseline(s, t, r):
    total = 0
    for k in range(t):
        total = total + s.dt * (s.data("emissions", k, r) + s.data("emissions", k + 1, r)) / 2
    return total


def relative_cumulative(s, t):
    v = s.V("emission_relative_cumulative", t)
    if t == 0:
        return s.eq(v, 1)
    return s.eq(v, s.V("cumulative_emissions", t) / s.sum(cum_baseline(s, t, r) for r in s.regions))


def abatement_range(s, t, r):
    a = s.V("relative_abatement", t, r)
    return [s.ge(a, 0), s.le(a, 2.5)]


def cumulative_nonneg(s, t):
    return s.ge(s.V("cumulative_emissions", t), 0)


# -- temperature --------------------------------------------------------------


def temperature(s, t):
    return s.eq(s.V("temperature", t),
                s.cfg("temperature.initial") + s.cfg("temperature.TCRE") * s.V("cumulative_emissions", t))


def temperature_start(s):
    return s.eq(s.V("temperature", 0), s.cfg("temperature.initial"))


def target(s, t):
    if s.cfg("temperature.target") is not False and s.year(t) >= 2100:
        return s.le(s.V("temperature", t), s.cfg("temperature.target"))
    return None


# -- restrictions ---------------------------------------------------------------


def budget(s, t):
    b = s.cfg("emissions.carbonbudget")
    if b is False or s.year(t) < 2100:
        return None
    return s.le(s.V("cumulative_emissions", t), b)


def inertia_global(s, t):
    i = s.cfg("emissions.inertia.global")
    if i is False or t == 0:
        return None
    change = s.V("global_emissions", t) - s.V("global_emissions", t - 1)
    return s.ge(change, s.dt * i * s.sum(base0(s, r) for r in s.regions))


def inertia_regional(s, t, r):
    i = s.cfg("emissions.inertia.regional")
    if i is False or t == 0:
        return None
    change = s.V("regional_emissions", t, r) - s.V("regional_emissions", t - 1, r)
    return s.ge(change, s.dt * i * base0(s, r))


def min_global(s, t):
    v = s.cfg("emissions.global min level")
    if v is False:
        return None
    return s.ge(s.V("global_emissions", t), v)


def min_regional(s, t, r):
    v = s.cfg("emissions.regional min level")
    if v is False:
        return None
    return s.ge(s.V("regional_emissions", t, r), v)


def non_increasing(s, t, r):
    if t == 0:
        if s.cfg("emissions.non increasing emissions after 2100") and s.year(-1) > 2100:
            # no previous period to compare with
            return None
        return None
    if s.cfg("emissions.non increasing emissions after 2100") and s.year(t - 1) > 2100:
        return s.le(s.V("regional_emissions", t, r), s.V("regional_emissions", t - 1, r))
    return None


def net_zero_after_budget_year(s, t):
    if s.cfg("emissions.carbonbudget") is False:
        return None
    if s.cfg("emissions.not positive after budget year") and s.year(t) >= 2100:
        return s.le(s.V("global_emissions", t), 0)
    return None


LAWS = [
    ("M01", "baseline emissions", "tr", baseline),
    ("M01", "regional emissions", "tr", regional),
    ("M01", "regional emission reduction", "tr", reduction),
    ("M01", "global emissions", "t", global_),
    ("M01", "cumulative emissions", "t", cumulative),
    ("M01", "cumulative emissions relative to baseline", "t", relative_cumulative),
    ("M01", "abatement range", "tr", abatement_range),
    ("M02", "temperature response", "t", temperature),
    ("M02", "initial temperature", "", temperature_start),
    ("M02", "temperature target", "t", target),
    ("M03", "carbon budget", "t", budget),
    ("M03", "cumulative emissions stay non-negative", "t", cumulative_nonneg),
    ("M03", "global inertia", "t", inertia_global),
    ("M03", "regional inertia", "tr", inertia_regional),
    ("M03", "global minimum level", "t", min_global),
    ("M03", "regional minimum level", "tr", min_regional),
    ("M03", "no growth after 2100", "tr", non_increasing),
    ("M03", "no positive emissions after the budget year", "t", net_zero_after_budget_year),
]
