"""P16: preparing data for phase retrieval: background out, size as asked for, centred if cropped, never negative."""

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Property, array, close, must_raise, require, sut
from .p15 import expected_pad

PROP = Property(
    "P16",
    "cases are random image stacks of 8 to 64 bit integers with a background level that is the mode, a bright spot "
    "anywhere and maybe noise, of square and oblong planes, prepared for a smaller, equal, larger or in-between size; "
    "non-trivial: the mode isn't zero and something stays above the background",
    ["floating point data isn't generated for the background: the code only has a mode for counts"],
)

DTYPES = ("uint8", "uint16", "int16", "int32", "int64", "uint32")


@st.composite
def stacks(draw, nd=3):
    shape = draw(st.lists(st.integers(1, 14), min_size=nd, max_size=nd))
    if draw(st.booleans()) and nd > 1:
        shape[-1] = shape[-2]
    return dict(
        shape=shape, seed=draw(gen.seeds), bg=draw(st.integers(0, 60)), noise=draw(st.sampled_from((0, 0, 3, 40))),
        dtype=draw(st.sampled_from(DTYPES)), spot=draw(st.one_of(st.integers(0, 190), st.integers(0, 190), st.integers(0, 300_000))),
    )  # fmt: skip


def make(c):
    g = np.random.default_rng(c["seed"])
    a = np.full(c["shape"], c["bg"])
    if c["noise"]:
        a = a + g.integers(0, c["noise"], a.shape) * (g.random(a.shape) < 0.6)
    a[tuple(g.integers(n) for n in a.shape)] += c["spot"]
    return np.minimum(a, min(np.iinfo(c["dtype"]).max, 10**6)).astype(c["dtype"])


def mode_of(a):
    values, counts = np.unique(a, return_counts=True)
    return int(values[counts.argmax()])  # the smallest of the most frequent


multipliers = st.one_of(st.just(None), st.sampled_from((0, 1, 1.5, 2)), gen.frac(0, 3))


@st.composite
def with_multiplier(draw, nd=None):
    return dict(draw(stacks(nd or draw(st.integers(1, 3)))), mult=draw(multipliers))


@PROP.law("remove_bg", with_multiplier(), 1500)
def remove_bg_law(c):
    """Subtracts multiplier (1.5 by default) times the most frequent value, without wrapping around."""
    from pyotf.utils import remove_bg

    data = make(c)
    keep = data.copy()
    mult = 1.5 if c["mult"] is None else c["mult"]
    with sut("remove_bg"):
        got = remove_bg(data) if c["mult"] is None else remove_bg(data, c["mult"])
    close(got, data.astype(float) - mult * mode_of(data), "remove_bg", tol=1e-12, scale=max(data.max(), 1e4))
    require(np.array_equal(keep, data), "the caller's data was changed")
    return mode_of(data) > 0 and mult > 0, [c["dtype"], f"{data.ndim}-d"]


@PROP.law("center_data", with_multiplier(), 1500)
def center(c):
    """A periodic shift which brings the (first) maximum to n // 2 along every axis."""
    from pyotf.utils import center_data

    data = make(c)
    if c["seed"] % 3 == 0:
        data = data - 10.5
    keep = data.copy()
    at = np.argwhere(data == data.max())[0]
    want = np.empty_like(data)
    for idx in np.ndindex(*data.shape):
        want[tuple((i - a + n // 2) % n for i, a, n in zip(idx, at, data.shape))] = data[idx]
    with sut("center_data"):
        got = center_data(data)
        again = center_data(got)
    array(got, "center_data", data.shape)
    require(got.dtype == data.dtype, f"dtype {got.dtype}")
    require(np.array_equal(got, want), f"isn't the data with {at.tolist()} moved to the centre")
    require(not np.shares_memory(got, data), "shares memory with the caller's data")
    if (data == data.max()).sum() == 1:
        require(np.array_equal(again, got), "centred data isn't left as is")
    require(np.array_equal(keep, data), "the caller's data was changed")
    return data.size > 1 and bool(np.ptp(data)), [c["dtype"], f"{data.ndim}-d"]


@PROP.law("psqrt", with_multiplier(), 400)
def psqrt_law(c):
    from pyotf.utils import psqrt

    data = make(c)
    if c["seed"] % 2:
        data = data.astype(float) - 30.5
    with sut("psqrt"):
        got = psqrt(data)
    close(got, np.sqrt(np.where(data > 0, data, 0).astype(float)), "psqrt", tol=1e-12)
    return bool((data < 0).any() and (data > 0).any()) or data.dtype.kind != "f", [str(data.dtype)]


@st.composite
def preps(draw):
    c = draw(with_multiplier(3))
    ny, nx = c["shape"][1:]
    c["size"] = draw(st.one_of(st.none(), st.integers(1, 24), st.sampled_from((ny, nx, max(ny, nx), min(ny, nx)))))
    return c


@PROP.law("prep_data_for_PR", preps(), 2500)
def prep(c):
    from pyotf.utils import prep_data_for_PR

    data = make(c)
    keep = data.copy()
    nz, ny, nx = data.shape
    mult = 1.5 if c["mult"] is None else c["mult"]
    size = c["size"]
    args = {} if size is None else dict(xysize=size)
    if c["mult"] is not None:
        args["multiplier"] = mult
    with sut("prep_data_for_PR"):
        got = prep_data_for_PR(data, **args)
    full = max(ny, nx) if size is None else size
    array(got, "prepared data", (nz, full, full))
    require(np.isfinite(got).all() and (got >= 0).all(), "has negative or non-finite values")
    sub = data.astype(float) - mult * mode_of(data)
    label = "kept"
    if not full == ny == nx:
        if full >= max(ny, nx):
            label = "padded"
            sub = expected_pad(sub, (nz, full, full), mode="constant")
        else:
            label = "cropped" if full < min(ny, nx) else "cropped and padded"
            at = np.unravel_index(sub.argmax(), sub.shape)
            sub = np.roll(sub, [n // 2 - a for a, n in zip(at, sub.shape)], axis=(0, 1, 2))
            cut = [slice(None)]
            for n in (ny, nx):
                lo = max(n // 2 - full // 2, 0)
                cut.append(slice(lo, min(n // 2 - full // 2 + full, n)))
            sub = expected_pad(sub[tuple(cut)], (nz, full, full), mode="constant")
            if label == "cropped":
                require(got[nz // 2, full // 2, full // 2] == got.max(), "the maximum isn't at the centre")
    close(got, np.maximum(sub, 0), f"prepared data ({label})", tol=1e-12, scale=max(sub.max(), 1))
    require(np.array_equal(keep, data), "the caller's data was changed")
    return mode_of(data) > 0 and bool(got.any()), [label, c["dtype"], "oblong" if ny != nx else "square"]


@st.composite
def large_preps(draw):
    shape = [draw(st.integers(1, 12)), draw(st.integers(40, 160)), draw(st.integers(40, 160))]
    if draw(st.booleans()):
        shape[2] = shape[1]
    c = draw(preps())
    return c | dict(shape=shape, size=draw(st.one_of(st.none(), st.integers(20, 200), st.sampled_from((64, 128)))))


@PROP.law("large stacks", large_preps(), 64)
def large(c):
    return prep(c)


@st.composite
def huge_stacks(draw):
    n = draw(st.integers(240, 520))
    return dict(
        shape=[draw(st.integers(-(-(1 << 19) // n**2), 2 + (1 << 20) // n**2)), n, draw(st.integers(n - 20, n))], seed=draw(gen.seeds),
        spread=draw(st.sampled_from((3, 40, 400, 60000))), dtype=draw(st.sampled_from(("uint16", "int32", "int64", "uint32"))),
        mult=draw(multipliers), period=draw(st.sampled_from((1, 2, 3, 7, 8, 10, 16, 64, 100))),
    )  # fmt: skip


@PROP.law("background of huge stacks", huge_stacks(), 8)
def huge(c):
    """Every voxel counts: the most frequent value is so by a narrow margin, and maybe not in every part of the stack."""
    from pyotf.utils import prep_data_for_PR, remove_bg

    g = np.random.default_rng(c["seed"])
    data = g.integers(0, c["spread"], c["shape"])
    # a value that is frequent in some places only
    part = data.reshape(-1)[g.integers(c["period"]) :: c["period"]]
    part[: 4 + int(1.2 * data.size / c["spread"])][g.random(len(part[: 4 + int(1.2 * data.size / c["spread"])])) < 0.5] = c["spread"] // 2
    data = data.astype(c["dtype"])
    mult = 1.5 if c["mult"] is None else c["mult"]
    want = data.astype(float) - mult * mode_of(data)
    with sut("remove_bg"):
        got = remove_bg(data, mult)
        ready = prep_data_for_PR(data, max(data.shape[1:]), mult)
    close(got, want, "remove_bg", tol=1e-12, scale=1e4)
    close(ready, np.maximum(expected_pad(want, ready.shape, mode="constant"), 0), "prepared data", tol=1e-12, scale=1e4)
    return mode_of(data) > 0 and mult > 0, [f"{c['spread']} values"]
