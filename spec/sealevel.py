"""M04 sea-level rise."""

ADJUST = 0.024076141150722
THERMAL_START = 0.0920666936642


def thermal(s, t):
    v = s.V("slr_thermal", t)
    if t == 0:
        return s.eq(v, THERMAL_START + ADJUST * (0.5 * s.cfg("temperature.initial") - THERMAL_START))
    decades = s.dt / 10
    return s.eq(v, s.V("slr_thermal", t - 1) * (1 - ADJUST) ** decades
                + s.V("temperature", t - 1) * ADJUST * decades * 0.5)


def glaciers(s, t):
    v = s.V("slr_cumgsic", t)
    if t == 0:
        return s.eq(v, 0.015)
    prev = s.V("slr_cumgsic", t - 1)
    return s.eq(v, prev + 0.0008 * s.dt * (0.26 - prev) / 0.26 * (s.V("temperature", t - 1) + 1))


def greenland(s, t):
    v = s.V("slr_cumgis", t)
    if t == 0:
        return s.eq(v, 0.006)
    prev = s.V("slr_cumgis", t - 1)
    melt = 1.11860082 * s.V("temperature", t - 1) + 0.6
    return s.eq(v, prev + s.dt / 10 * melt / 100 * (1 - prev / 7.3))


def total(s, t):
    return s.eq(s.V("total_SLR", t), s.V("slr_thermal", t) + s.V("slr_cumgsic", t) + s.V("slr_cumgis", t))


def nonneg(s, t):
    return [s.ge(s.V(n, t), 0) for n in ("slr_thermal", "slr_cumgsic", "slr_cumgis", "total_SLR")]


LAWS = [
    ("M04", "thermal expansion", "t", thermal),
    ("M04", "glaciers and small ice caps", "t", glaciers),
    ("M04", "Greenland ice sheet", "t", greenland),
    ("M04", "total sea-level rise", "t", total),
    ("M04", "sea-level rise non-negative", "t", nonneg),
]
