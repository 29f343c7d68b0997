"""M11 emission trading, M12 financial transfers, M13 effort sharing, M14 per-capita convergence."""
from spec.common import softmin


def zero_sum(s, t):
    mod = s.module("trade")
    if mod == "emissiontrade":
        return s.eq(s.sum(s.V("import_export_mitigation_cost_balance", t, r) for r in s.regions), 0)
    if mod == "globalcostpool":
        return s.eq(s.sum(s.V("mitigation_costs", t, r) for r in s.regions),
                    s.sum(s.V("area_under_MAC", t, r) for r in s.regions))
    return None


def no_trade(s, t, r):
    if s.module("trade") != "notrade":
        return None
    return [s.eq(s.V("import_export_mitigation_cost_balance", t, r), 0),
            s.eq(s.V("import_export_emission_reduction_balance", t, r), 0)]


def world_price(s, t):
    if s.module("trade") != "emissiontrade":
        return None
    pop = s.sum(s.data("population", t, r) for r in s.regions)
    return s.eq(s.V("global_carbonprice", t) * pop,
                s.sum(s.V("carbonprice", t, r) * s.data("population", t, r) for r in s.regions))


def emission_balance(s, t, r):
    if t == 0:
        return None
    if s.module("trade") == "emissiontrade":
        return s.eq(s.V("import_export_emission_reduction_balance", t, r),
                    s.V("import_export_mitigation_cost_balance", t, r) / softmin(s, s.V("global_carbonprice", t)))
    if s.module("trade") == "globalcostpool":
        return s.eq(s.V("import_export_emission_reduction_balance", t, r),
                    s.V("paid_for_emission_reductions", t, r) - s.V("regional_emission_reduction", t, r))
    return None


def paid_for(s, t, r):
    if t == 0:
        return None
    if s.module("trade") == "emissiontrade":
        return s.eq(s.V("paid_for_emission_reductions", t, r),
                    s.V("regional_emission_reduction", t, r) + s.V("import_export_emission_reduction_balance", t, r))
    if s.module("trade") == "globalcostpool":
        return s.eq(s.V("paid_for_emission_reductions", t, r),
                    s.V("mitigation_costs", t, r) * s.V("global_emission_reduction_per_cost_unit", t))
    return None


def allowances(s, t, r):
    if t == 0 or s.module("trade") != "emissiontrade":
        return None
    return s.eq(s.V("regional_emission_allowances", t, r),
                s.V("baseline", t, r) - s.V("paid_for_emission_reductions", t, r))


# -- transfers ------------------------------------------------------------------


def transfer_zero(s, t, r):
    if s.module("transfer") == "notransfer":
        return [s.eq(s.V("financial_transfer", t, r), 0), s.eq(s.V("rel_financial_transfer", t, r), 0)]
    if t == 0:
        return s.eq(s.V("financial_transfer", 0, r), 0)
    return None


def transfer_zero_sum(s, t):
    if s.module("transfer") != "globaldamagepool" or t == 0:
        return None
    return s.eq(s.sum(s.V("financial_transfer", t, r) for r in s.regions), 0)


def transfer_cap(s, t, r):
    if s.module("transfer") != "globaldamagepool":
        return None
    return s.ge(s.V("financial_transfer", t, r) + s.V("damage_costs", t, r) * s.V("GDP_gross", t, r), 0)


def transfer_relative(s, t, r):
    if s.module("transfer") != "globaldamagepool":
        return None
    return s.eq(s.V("rel_financial_transfer", t, r) * s.V("GDP_gross", t, r), s.V("financial_transfer", t, r))


# -- effort sharing ---------------------------------------------------------------


def near(s, left, right):
    return [s.le(left, 1.005 * right), s.ge(left, 0.995 * right)]


def equal_mitigation(s, t, r):
    if s.cfg("effort sharing.regime") != "equal_mitigation_costs":
        return None
    return near(s, s.V("rel_mitigation_costs", t, r), s.V("effort_sharing_common_level", t))


def equal_total(s, t, r):
    if s.cfg("effort sharing.regime") != "equal_total_costs":
        return None
    if s.year(t) > 2100:
        return None
    return near(s, s.V("rel_mitigation_costs", t, r) + s.V("damage_costs", t, r) + s.V("rel_financial_transfer", t, r),
                s.V("effort_sharing_common_level", t))


def share(s, t, r):
    year = s.cfg("effort sharing.percapconv_year")
    gf = s.data("emissions", 0, r) / s.sum(s.data("emissions", 0, q) for q in s.regions)
    epc = s.data("population", t, r) / s.sum(s.data("population", t, q) for q in s.regions)
    if year is False:
        return gf
    if year == s.start:
        return epc
    done = (s.year(t) - s.start) / (year - s.start)
    return s.imin(done, 1) * epc + s.imax(1 - done, 0) * gf


def convergence(s, t, r):
    if s.module("trade") != "emissiontrade":
        return None
    if s.cfg("effort sharing.regime") != "per_cap_convergence" or t == 0:
        return None
    due = share(s, t, r) * s.V("global_emissions", t)
    has = s.V("regional_emission_allowances", t, r)
    return [s.le(due, has + 0.001), s.ge(due, has - 0.001)]


LAWS = [
    ("M11", "emission trade is zero-sum", "t", zero_sum),
    ("M11", "no flows without emission trade", "tr", no_trade),
    ("M11", "global carbon price", "t", world_price),
    ("M11", "traded emission reductions", "tr", emission_balance),
    ("M11", "reductions paid for", "tr", paid_for),
    ("M11", "emission allowances", "tr", allowances),
    ("M12", "no transfers", "tr", transfer_zero),
    ("M12", "transfers are zero-sum", "t", transfer_zero_sum),
    ("M12", "received transfers capped by own damages", "tr", transfer_cap),
    ("M12", "transfers relative to GDP", "tr", transfer_relative),
    ("M13", "equal mitigation costs", "tr", equal_mitigation),
    ("M13", "equal total costs", "tr", equal_total),
    ("M14", "per-capita convergence", "tr", convergence),
]
