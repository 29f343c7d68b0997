"""M09 production economy, M10 calibration to the baseline."""
from spec.common import softmin


def start_capital(s, r):
    return s.reg("economics", "init_capital_factor", r) * s.data("GDP", 0, r)


def growth(s, capital, invest):
    dk = s.cfg("economics.GDP.depreciation of capital")
    return capital + s.dt * (((1 - dk) ** s.dt - 1) / s.dt * capital + invest)


def baseline_capital(s, t, r):
    """Capital along the baseline GDP path."""
    k = start_capital(s, r)
    for u in range(t):
        k = growth(s, k, s.cfg("economics.GDP.savings rate") * s.data("GDP", u, r))
    return k


def output(s, tfp, labour, capital):
    a = s.cfg("economics.GDP.alpha")
    return tfp * labour ** (1 - a) * capital ** a


def tfp(s, t, r):
    return s.data("GDP", t, r) / output(s, 1, s.data("population", t, r), baseline_capital(s, t, r))


def gross(s, t, r):
    v = s.V("GDP_gross", t, r)
    if t == 0:
        return s.eq(v, s.data("GDP", 0, r))
    return s.eq(v, output(s, tfp(s, t, r), s.data("population", t, r), softmin(s, s.V("capital_stock", t, r), 10)))


def net(s, t, r):
    g = s.V("GDP_gross", t, r)
    damage = 0
    if not s.cfg("economics.damages.ignore damages"):
        damage = s.V("damage_costs", t, r) * g
    return s.eq(s.V("GDP_net", t, r), g - damage - s.V("mitigation_costs", t, r) - s.V("financial_transfer", t, r))


def split(s, t, r):
    sr = s.cfg("economics.GDP.savings rate")
    return [s.eq(s.V("investments", t, r), sr * s.V("GDP_net", t, r)),
            s.eq(s.V("consumption", t, r), (1 - sr) * s.V("GDP_net", t, r))]


def capital(s, t, r):
    v = s.V("capital_stock", t, r)
    if t == 0:
        return s.eq(v, start_capital(s, r))
    dk = s.cfg("economics.GDP.depreciation of capital")
    change = ((1 - dk) ** s.dt - 1) / s.dt * v + s.V("investments", t, r)
    return s.eq(v, s.V("capital_stock", t - 1, r) + s.dt * change)


def calibration(s, t, r):
    """Total factor productivity reproduces the baseline GDP on the baseline capital path."""
    return s.eq(output(s, s.V("TFP", t, r), s.data("population", t, r), baseline_capital(s, t, r)), s.data("GDP", t, r))


LAWS = [
    ("M09", "gross GDP", "tr", gross),
    ("M09", "net GDP", "tr", net),
    ("M09", "investments and consumption", "tr", split),
    ("M09", "capital stock", "tr", capital),
    ("M10", "productivity reproduces baseline GDP", "tr", calibration),
]
