"""P35: polar coordinates are exact, for any real numbers of any type."""

import math

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Property, array, require, sut

PROP = Property(
    "P35",
    "cases are pairs of real numbers or arrays that broadcast (8 to 64 bit integers, single and double precision; lists; "
    "over all magnitudes, zeros of both signs, axes and diagonals), compared with the standard library's hypot and atan2 one "
    "by one; non-trivial: both coordinates have a value other than zero",
    ["the angle is that from the x axis towards the y axis, in -pi to pi; y is the first argument, as for arctan2"],
)  # fmt: skip

TYPES = ("float64", "float64", "float64", "float32", "int8", "uint8", "int16", "uint16", "int32", "int64", "bool")


@st.composite
def cases(draw):
    shape = draw(st.lists(st.integers(1, 5), min_size=0, max_size=3))
    keep = draw(st.lists(st.booleans(), min_size=len(shape), max_size=len(shape)))
    shapes = [shape, [n if k else 1 for n, k in zip(shape, keep)][draw(st.integers(0, len(shape))):]]
    if draw(st.booleans()):
        shapes = shapes[::-1]
    return dict(
        shapes=shapes, types=[draw(st.sampled_from(TYPES)) for _ in "yx"], seed=draw(gen.seeds), e=[draw(st.sampled_from((0, 0, 0, 3, -3, 12, -12, 120, -120))) for _ in "yx"],
        special=draw(st.sampled_from((0, 0.3, 0.9))), form=draw(st.sampled_from(("array", "array", "list", "scalar"))),
    )  # fmt: skip


def make(c, i):
    g = np.random.default_rng([c["seed"], i])
    t, shape = np.dtype(c["types"][i]), tuple(c["shapes"][i])
    if t.kind == "f":
        # (a scalar takes the precision, and range, of a single precision array)
        e = c["e"][i] if "float32" not in c["types"] else max(-15, min(c["e"][i], 15))
        a = g.standard_normal(shape) * 10.0**e
        special = g.choice([0.0, -0.0, 1.0, -1.0, 2.0, -2.0], shape)
        return np.where(g.random(shape) < c["special"], special, a).astype(t)
    if t.kind == "b":
        return g.random(shape) < 0.5
    info = np.iinfo(t)
    top = min(info.max, 2**50)
    a = g.integers(max(info.min, -top), top, shape, endpoint=True)
    special = g.integers(0 if info.min == 0 else -2, 2, shape, endpoint=True)
    return np.where(g.random(shape) < c["special"], special, a).astype(t)


@PROP.law("cart2pol", cases(), 2500)
def cart2pol_law(c):
    from pyotf.utils import cart2pol

    y, x = make(c, 0), make(c, 1)
    shape = np.broadcast_shapes(y.shape, x.shape)
    args = [y, x]
    eps = 1e-15
    if c["form"] == "list":
        args = [y.tolist(), x.tolist()]
    elif c["form"] == "scalar" and y.shape == x.shape == ():
        args = [y.item(), x.item()]
    if args[0] is y and "float32" in c["types"]:
        eps = 1e-6
    with sut("cart2pol"):
        out = cart2pol(*args)
    require(len(out) == 2, "doesn't return radius and angle")
    rho, theta = array(out[0], "radius", shape, "f"), array(out[1], "angle", shape, "f")
    yy, xx = np.broadcast_to(y, shape), np.broadcast_to(x, shape)
    for at in np.ndindex(*shape):
        b, a = float(yy[at]), float(xx[at])
        r, t = math.hypot(a, b), math.atan2(b, a)
        require(abs(rho[at] - r) <= 2 * eps * r + 1e-44 * (eps > 1e-10), f"radius of x={a!r}, y={b!r} is {rho[at]!r}, not {r!r}")
        if a == b == 0:
            # any angle will do at the origin
            require(abs(theta[at]) <= np.pi * (1 + eps), f"angle of the origin is {theta[at]!r}")
            continue
        off = abs(theta[at] - t)
        if b == 0 and a < 0:
            off = abs(abs(theta[at]) - np.pi)  # pi and -pi are the same
        require(off <= 4 * eps, f"angle of x={a!r}, y={b!r} is {theta[at]!r}, not {t!r}")
    return bool(y.any() and x.any()), [f"{c['types'][0]}, {c['types'][1]}", c["form"]]


@st.composite
def large_cases(draw):
    c = draw(cases())
    n = draw(st.integers(200, 20000))
    m = draw(st.integers(1, 40))
    c["shapes"] = draw(st.sampled_from(([[n], [n]], [[n // m + 1, 1], [m]], [[n // m + 1, m], [n // m + 1, m]], [[], [n]])))
    return c


@PROP.law("large arrays", large_cases(), 40)
def large(c):
    return cart2pol_law(c)
