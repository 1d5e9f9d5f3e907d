"""Hypothesis strategies for the cases: everything they build is JSON-able and reproducible."""

import math

import numpy as np
from hypothesis import strategies as st

GRAIN = 1 << 20


def frac(lo, hi):
    """A number in [lo, hi] on a fine grid; shrinks to lo, and is rarely a round number."""
    return st.integers(0, GRAIN).map(lambda i: lo + (hi - lo) * (i / GRAIN))


def logfrac(lo, hi):
    return frac(math.log(lo), math.log(hi)).map(math.exp)


def whole(value):
    """The value, or sometimes the integer below it, if it's large enough for that."""
    return st.sampled_from((value, value, value, value, int(value))) if 20 < value < 1e15 else st.just(value)


VEC = ("none", "x", "y", "z", "total")
COND = ("none", "sine", "herschel")

#: tiny ones, even and odd, prime and 5-smooth
SIZES = (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 21, 24, 25, 27, 31, 32, 33)
BIG = (48, 53, 64, 65)
LARGE = (80, 96, 97, 100, 127, 128, 129, 144, 160, 200, 256)

sizes = st.sampled_from(3 * SIZES[3:] + SIZES[:3] + 5 * BIG)
large_sizes = st.sampled_from(BIG + LARGE[:9])
small_sizes = st.sampled_from([n for n in 2 * SIZES[3:] + SIZES[:3] if n <= 21])


def _clear_of_edge(na, wl, ks, rel=1e-7):
    """Nudge NA so that no grid frequency is on the edge of the pupil to within round off."""
    for _ in range(200):
        lim = na / wl
        if np.min(np.abs(ks - lim)) > rel * lim:
            return na
        na = na * (1 + 7.3e-6)
    raise RuntimeError("couldn't clear the edge of the pupil")


def _grazing(na, ni, wl, res, size, d, f):
    """NA and pixel size such that light enters almost at a right angle to the axis: d of ni short of it."""
    inside = [k for k in radii(size, res) if 0 < k < na / wl]
    if not inside:
        return na, res
    res2 = res * max(inside) * wl * (1 + d) / ni
    na2 = ni / (1 + d) * (1 + d * f)
    if not (na2 < ni and res2 < 0.999 * wl / (2 * na2)):
        return na, res
    na3 = _clear_of_edge(na2, wl, radii(size, res2))
    return (float(na3), res2) if na3 < ni * (1 - d * 1e-3) else (na, res)


def radii(size, res):
    k = (np.arange(size) - size // 2) / (size * res)
    return np.unique(np.hypot(k[:, None], k[None]))


@st.composite
def optics(draw, sizes=sizes, max_frac=0.98, min_frac=0.15, max_sin=0.99, min_sin=0.05, min_pupil=3.0):
    """Valid wl, na, ni, res, size: na < ni, pixels below the Abbe limit, any consistent unit.

    Three quarters have a pupil with a radius of at least min_pupil frequencies, if the size allows.
    """
    unit = draw(st.sampled_from(("nm", "nm", "um", "int nm", "odd")))
    wl = draw(frac(350, 800))
    if unit == "um":
        wl = wl / 1000
    elif unit == "int nm":
        wl = int(round(wl))
    elif unit == "odd":
        wl = wl * draw(st.sampled_from((1e-9, 1e-6, 1e-3 / 7, 0.01, 37.0, 1e3)))
    ni = draw(st.sampled_from((1, 1.0, 1.33, 1.4, 1.515, 1.518))) if draw(st.booleans()) else draw(frac(1.0, 1.7))
    sin = draw(frac(min_sin, max_sin))
    na = ni * sin
    size = draw(sizes)
    lo = min_frac
    if draw(st.integers(0, 3)):
        lo = max(min_frac, min(0.9 * max_frac, 2.0 * min_pupil / size))
    res = draw(frac(lo, max_frac)) * wl / (2 * na)
    if draw(st.integers(0, 4)) == 0 and res > 20:
        res = int(res)
    na = float(_clear_of_edge(na, wl, radii(size, res)))
    if max_sin > 0.9 and draw(st.integers(0, 9)) == 0:
        na, res = _grazing(na, ni, wl, res, size, draw(logfrac(1e-4, 1e-2)), draw(frac(0.02, 0.9)))
    if not (na < ni and res < wl / (2 * na)):
        na, res = na * 0.99, res * 0.99
        na = float(_clear_of_edge(na, wl, radii(size, res)))
    if na > 1 and draw(st.integers(0, 5)) == 0:
        na = whole_na(na, wl, size, res)
    return dict(wl=wl, na=na, ni=ni, res=res, size=size)


def whole_na(na, wl, size, res):
    """An NA of 1, the number being an integer, if no frequency is on the edge of its pupil."""
    return 1 if na > 1 and np.min(np.abs(radii(size, res) * wl - 1)) > 1e-7 else na


@st.composite
def on_edge(draw):
    """Optics with frequencies exactly on the edge of the pupil, in numbers without any round off."""
    n = draw(st.sampled_from((8, 16, 16, 32)))
    per_wl = draw(st.sampled_from((2, 4, 4, 8)))
    # the edge is m frequencies from the centre
    m = draw(st.integers(2, n // 2 - 1))
    unit = 2.0 ** draw(st.integers(-4, 8))
    na = per_wl * m / n
    ni = draw(st.sampled_from((1.25, 1.5, 2.0))) * na if na < 0.9 or draw(st.booleans()) else na + draw(frac(0.02, 0.5))
    if draw(st.integers(0, 2)) == 0:
        # frequencies on the edge of the Ewald sphere, too
        ni = per_wl * draw(st.integers(m + 1, n)) / n
    return dict(wl=per_wl * unit, na=na, ni=ni, res=unit, size=n)


@st.composite
def zplanes(draw, wl, na, ni, max_planes=6, uniform=False):
    """A z range in units of the wavelength: any order, spacing, sign, repeats."""
    n = draw(st.integers(1, max_planes))
    vals = draw(st.lists(frac(-12, 12), min_size=n, max_size=n))
    if draw(st.integers(0, 3)) == 0:
        vals[draw(st.integers(0, n - 1))] = 0
    return [v * wl for v in vals]


@st.composite
def deep(draw, wl):
    """Many planes: evenly spaced or not, in any order, symmetric about the focus or not."""
    n = draw(st.integers(64, 320))
    g = np.random.default_rng(draw(seeds))
    kind = draw(st.sampled_from(("even", "even", "centred", "uneven", "two steps", "shuffled", "ends alike")))
    z = np.arange(n) - (n // 2 if kind == "centred" else g.integers(0, n))
    z = z * 10 ** g.uniform(-2, -0.3)
    if kind == "uneven":
        z = z + g.standard_normal(n) * 0.1
    elif kind == "two steps":
        i = g.integers(n)
        z[i:] = z[i] + 3 * (z[i:] - z[i])
    elif kind == "shuffled":
        g.shuffle(z)
    elif kind == "ends alike":
        z[1:-1] = z[0] + (z[-1] - z[0]) * g.random(n - 2)
    return (z * wl).tolist()


@st.composite
def deep_hanser(draw, **kw):
    """Models of small planes, but many of them."""
    p = draw(hanser(**({"sizes": st.sampled_from((4, 5, 6, 7, 8, 9)), "max_planes": 1, "min_pupil": 1.7} | kw)))
    for k in ("zrange", "zres", "zsize"):
        p.pop(k, None)
    if draw(st.integers(0, 2)):
        p["zrange"] = draw(deep(p["wl"]))
    else:
        p["zres"] = draw(frac(0.02, 0.5)) * p["wl"]
        p["zsize"] = draw(st.integers(64, 320))
    return p


@st.composite
def hanser(draw, vec=VEC, cond=COND, max_planes=6, edge=False, **kw):
    p = draw(on_edge() if edge else optics(**kw))
    p["vec_corr"] = draw(st.sampled_from(vec))
    p["condition"] = draw(st.sampled_from(cond))
    if max_planes >= 4 and p["size"] <= 17 and draw(st.integers(0, 9)) == 0:
        max_planes = 75
    if draw(st.booleans()):
        p["zrange"] = draw(zplanes(p["wl"], p["na"], p["ni"], max_planes))
    else:
        p["zres"] = draw(whole(draw(frac(0.05, 3)) * p["wl"]))
        p["zsize"] = draw(st.integers(1, max_planes + 4))
    return p


@st.composite
def sheppard(draw, vec=VEC, cond=COND, dual=(False, False, False, True), max_z=33, min_z=1, **kw):
    rich = draw(st.integers(0, 3)) > 0
    if rich:
        kw = dict(kw, min_sin=0.7)
        min_z = max(min_z, min(15, max_z - 4))
    p = draw(optics(**kw))
    p["vec_corr"] = draw(st.sampled_from(vec))
    p["condition"] = draw(st.sampled_from(cond))
    p["zsize"] = draw(st.sampled_from([n for n in SIZES[:3] + 2 * SIZES[3:] + 2 * BIG if min_z <= n <= max_z]))
    p["zres"] = draw(whole(draw(frac(0.5 if rich else 0.1, 0.97)) * p["wl"] / (2 * p["ni"])))
    p["dual"] = draw(st.sampled_from(dual))
    return p


def psf_model(p):
    """Build the model of a case with the code under test."""
    from pyotf.otf import HanserPSF, SheppardPSF

    p = dict(p)
    cls = SheppardPSF if "dual" in p else HanserPSF
    return cls(**p)


def pupil_points(p):
    """How many frequencies of the grid are inside of the pupil."""
    k = (np.arange(p["size"]) - p["size"] // 2) / (p["size"] * p["res"])
    return int((np.hypot(k[:, None], k[None]) < p["na"] / p["wl"]).sum())


def rng_array(seed, shape, kind="normal"):
    """Deterministic pseudo-random data from a drawn seed."""
    g = np.random.default_rng(seed)
    if kind == "normal":
        return g.standard_normal(shape)
    if kind == "uniform":
        return g.random(shape)
    if kind == "complex":
        return g.standard_normal(shape) + 1j * g.standard_normal(shape)
    raise ValueError(kind)


seeds = st.integers(0, 2**32 - 1)
