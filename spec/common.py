"""Smooth stand-ins used by the documented equations."""

PI = 3.141592653589793


def step(s, x, scale=1.0):
    return s.atan(25.0 / scale * x) / PI + 0.5


def softmin(s, x, scale=1.0):
    return step(s, x, scale) * x + scale / (25.0 * PI)


def softmax(s, x, cap, scale=1.0):
    return cap - softmin(s, cap - x, scale)
