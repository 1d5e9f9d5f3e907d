"""P33: extents of real and Fourier space grids, and the axial squeeze by an index mismatch."""

import math

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Property, close, require, sut

PROP = Property(
    "P33",
    "cases are numbers of samples and steps of any scale, and pairs and triples of refractive indices with an NA; "
    "non-trivial: every distinct case with at least 2 samples, or two different indices",
    ["na is at most the smaller index for the paraxial limit and the monotony; beyond, the focus is at 90 degrees"],
)  # fmt: skip


@st.composite
def grids(draw):
    n = draw(st.one_of(st.integers(1, 40), st.integers(1, 5000)))
    return dict(n=n, d=draw(gen.logfrac(1e-9, 1e9)), whole=draw(st.booleans()))


@PROP.law("extents", grids(), 3000)
def extents(c):
    """First and last coordinate of the centred grid, and of that of its centred transform."""
    from pyotf.display import fft_max_min, max_min

    n, d = c["n"], c["d"]
    if c["whole"]:
        d = max(1, round(d))
    x, k = ref.centred(n) * d, ref.freqs(n, d)
    for fn, grid in ((max_min, x), (fft_max_min, k)):
        with sut(fn.__name__):
            got = fn(n, d)
            lo, hi = got
        close(np.array([lo, hi], float), grid[[0, -1]], f"{fn.__name__}({n}, {d})", tol=1e-12, scale=max(abs(grid[0]), abs(grid[-1])) or 1 / d)
    f = np.fft.fftshift(np.fft.fftfreq(n, d))
    with sut("fft_max_min"):
        close(np.array(fft_max_min(n, d)), f[[0, -1]], f"fft_max_min({n}, {d})", tol=1e-12, scale=abs(f).max() or 1 / d)
    return n > 1, ["odd" if n % 2 else "even"]


@st.composite
def media(draw):
    n = [draw(gen.frac(1.0, 2.5)) for _ in range(3)]
    na = draw(st.one_of(gen.frac(0.02, 1.0), gen.frac(0.02, 1.0), gen.logfrac(1e-5, 0.02))) * draw(st.sampled_from((min(n), min(n), n[0], max(n))))
    return dict(n=n, na=na)


def depth(n, na):
    """Distance of n(1 - cos) for the marginal ray, without cancellation."""
    if na >= n:
        return n
    return na * na / (n + math.sqrt((n - na) * (n + na)))


@PROP.law("z_squeeze", media(), 3000)
def squeeze(c):
    from pyotf.display import z_squeeze

    (a, b, d), na = c["n"], c["na"]

    def f(x, y):
        with sut(f"z_squeeze({x}, {y}, {na})"):
            v = z_squeeze(x, y, na)
            require(np.ndim(v) == 0 and np.isfinite(v), f"z_squeeze({x}, {y}, {na}) is {v!r}")
            return float(v)

    require(f(a, a) == 1, f"z_squeeze({a}, {a}, {na}) is {f(a, a)!r}")
    tol = 1e-13 / (na / max(a, b, d)) ** 2 + 1e-12
    want = depth(a, na) / depth(b, na)
    close(f(a, b), want, f"z_squeeze({a}, {b}, {na})", tol=tol)
    close(f(a, b) * f(b, a), 1, "squeeze there and back", tol=2 * tol)
    close(f(a, b) * f(b, d), f(a, d), "squeeze through a third medium", tol=2 * tol)
    if na <= min(a, b):
        # a denser medium takes the focus further
        if a > b * (1 + 1e-6):
            require(f(a, b) <= 1 + tol, f"squeeze from {a} to {b} with NA {na} is {f(a, b)}")
    small = 1e-3 * min(a, b)
    with sut("z_squeeze"):
        close(float(z_squeeze(a, b, small)), b / a, "squeeze at low NA", tol=1e-5)
    return a != b, ["na beyond an index" if na > min(c["n"]) else "na below the indices"]
