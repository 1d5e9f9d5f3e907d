"""P18: the radial profile is the mean and standard deviation over rings of pixels."""

import math
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Property, array, close, require, sut
from .p31 import LAYOUTS, lay

PROP = Property(
    "P18",
    "cases are random images (real, complex, small and large integers, constant) with default, integer or fractional "
    "centres, inside or outside, ring widths, and layouts in memory; non-trivial: some ring holds at least two different values",
    ["cases with a pixel within 1e-6 of the border of two rings are skipped, unless it's exactly there in exact arithmetic",
     "rings without pixels have no value (NaN), the deviation's square is compared to 1e-11 of the largest value's"],
)  # fmt: skip


@st.composite
def cases(draw):
    shape = [draw(st.integers(1, 15)), draw(st.integers(1, 15))]
    if draw(st.integers(0, 9)) == 0:
        shape[draw(st.integers(0, 1))] = draw(st.integers(15, 48))
    if draw(st.booleans()):
        shape[1] = shape[0]
    center = draw(
        st.one_of(
            st.none(), st.none(), st.lists(st.integers(-2, 16), min_size=2, max_size=2),
            st.lists(gen.frac(-2, 16), min_size=2, max_size=2),
        )
    )  # fmt: skip
    return dict(
        shape=shape, center=center, binsize=draw(st.one_of(st.none(), st.sampled_from((1.0, 1, 2, 2, 2.0, 3, 4, 0.5)), gen.frac(0.4, 5))),
        kind=draw(st.sampled_from(("real", "complex", "uint8", "int16", "offset", "constant", "radial", "bool"))),
        seed=draw(gen.seeds), how=draw(st.sampled_from(("list", "tuple", "array"))),
        layout=draw(st.sampled_from(("plain", "plain") + LAYOUTS)), scale=draw(st.sampled_from((1.0, 1.0, 1e-9, 1e6))),
    )  # fmt: skip


def make(c):
    a = values(c)
    return a * c["scale"] if a.dtype.kind in "fc" and "scale" in c else a


def values(c):
    g = np.random.default_rng(c["seed"])
    shape = tuple(c["shape"])
    k = c["kind"]
    if k == "uint8":
        return g.integers(0, 256, shape).astype(np.uint8)
    if k == "int16":
        return g.integers(-30000, 30000, shape).astype(np.int16)
    if k == "bool":
        return g.random(shape) < 0.5
    if k == "offset":
        return 100 + g.random(shape)
    if k == "constant":
        return np.full(shape, g.standard_normal())
    if k == "radial":
        y, x = [np.arange(n) - n // 2 for n in shape]
        return np.exp(-np.rint(np.hypot(y[:, None], x[None])))
    return gen.rng_array(c["seed"], shape, "complex" if k == "complex" else "normal")


def reference(data, center, binsize):
    if center is None:
        center = [n // 2 for n in data.shape]
    rings = {}
    for i, j in np.ndindex(*data.shape):
        r2 = (i - center[0]) ** 2 + (j - center[1]) ** 2
        r = np.sqrt(r2) / binsize
        if abs(r % 1 - 0.5) < 1e-6:
            if not (float(r2).is_integer() and math.isqrt(int(r2)) ** 2 == r2 and float(2 * binsize).is_integer()):
                return None
            # exactly between two rings: the even one
            r = round(Fraction(math.isqrt(int(r2))) / Fraction(binsize))
        rings.setdefault(int(np.floor(r + 0.5)), []).append(data[i, j])
    n = max(rings) + 1
    mean, std = np.full(n, np.nan, dtype=complex), np.full(n, np.nan)
    for k, v in rings.items():
        v = np.array(v).astype(complex)
        mean[k] = v.mean()
        std[k] = np.sqrt((np.abs(v - v.mean()) ** 2).mean())
    return mean, std, any(len(set(v)) > 1 for v in rings.values())


@PROP.law("profile", cases(), 2500)
def profile(c):
    from pyotf.utils import radial_profile

    data = lay(make(c), c["layout"])
    keep = data.copy()
    want = reference(data, c["center"], 1.0 if c["binsize"] is None else c["binsize"])
    if want is None:
        return False, ["borderline"]
    mean, std, varied = want
    kw = {}
    if c["center"] is not None:
        kw["center"] = {"list": list, "tuple": tuple, "array": np.array}[c["how"]](c["center"])
    if c["binsize"] is not None:
        kw["binsize"] = c["binsize"]
    with sut("radial_profile"):
        got = radial_profile(data, **kw)
    require(len(got) == 2, "isn't a pair")
    top = np.abs(data.astype(complex)).max() or 1.0
    # (deviations by way of their squares: that's where round off is uniform)
    for g, w, name, tol in ((got[0], mean, "mean", 1e-10), (got[1], std, "standard deviation", 1e-11)):
        g = array(g, name, w.shape)
        empty = np.isnan(w)
        require(np.array_equal(np.isnan(g), empty), f"{name}: NaN in rings {np.flatnonzero(np.isnan(g)).tolist()}")
        if name != "mean":
            require(np.isrealobj(g) and (g[~empty] >= 0).all(), "the standard deviation isn't a positive number")
            g, w = g**2, w**2
        close(np.where(empty, 0, g), np.where(empty, 0, w), name, tol=tol, scale=top if name == "mean" else top**2)
    require(np.array_equal(keep, data), "the caller's data was changed")
    return varied, [c["kind"], "default centre" if c["center"] is None else "centre given"]


@st.composite
def large_cases(draw):
    c = draw(cases())
    a, b = draw(st.integers(60, 260)), draw(st.integers(1, 260))
    if a * b < 4000:
        a = draw(st.integers(300, 700))
    c["shape"] = [a, b] if draw(st.booleans()) else [b, a]
    if c["center"] is not None:
        c["center"] = [v * n / 16 for v, n in zip(c["center"], c["shape"])]
        if draw(st.booleans()):
            c["center"] = [round(v) for v in c["center"]]
    if c["binsize"] not in (None, 1.0) and draw(st.booleans()):
        c["binsize"] = c["binsize"] * draw(gen.logfrac(1, 20))
    return c


@PROP.law("large images", large_cases(), 48)
def large(c):
    return profile(c)


@PROP.law("ring averages keep the total", cases(), 500)
def total(c):
    from pyotf.utils import radial_profile

    data = make(c)
    with sut("radial_profile"):
        mean = radial_profile(data)[0]
        count = radial_profile(np.ones(data.shape))[0]
    y, x = [np.arange(n) - n // 2 for n in data.shape]
    n = np.bincount(np.rint(np.hypot(y[:, None], x[None])).astype(int).ravel())
    close(np.where(n > 0, count, 1), np.ones(len(n)), "profile of ones", tol=1e-12)
    total = data.astype(complex).sum()
    close((np.where(n > 0, mean, 0) * n).sum(), total, "sum over rings", tol=1e-9, scale=np.abs(data.astype(complex)).sum() + 1)
    return data.size > 4, [c["kind"]]
