"""P17: binning sums or averages whole bins, along every axis, and drops only what doesn't fill a bin."""

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Property, array, close, must_raise, require, sut

PROP = Property(
    "P17",
    "cases are random arrays of 1 to 4 dimensions and bins, one for all axes or one each, given as sizes (also "
    "not dividing the array) or as the new shape, summed or averaged; non-trivial: some bin holds more than one value",
    ["a new shape has to divide the old one: others aren't generated"],
)


@st.composite
def cases(draw):
    nd = draw(st.integers(1, 4))
    bins = draw(st.lists(st.integers(1, 5), min_size=nd, max_size=nd))
    new = draw(st.lists(st.integers(1, 5), min_size=nd, max_size=nd))
    if nd <= 2 and draw(st.integers(0, 3)) == 0:
        bins[0], new[-1] = draw(st.integers(1, 24)), draw(st.integers(1, 24))
    how = draw(st.sampled_from(("one size", "list", "tuple", "array", "new shape", "new shape tuple")))
    if how == "one size":
        bins = bins[:1] * nd
    rest = [0] * nd if "new" in how else [draw(st.integers(0, b - 1)) for b in bins]
    shape = [n * b + r for n, b, r in zip(new, bins, rest)]
    return dict(
        shape=shape, bins=bins, new=new, how=how, op=draw(st.sampled_from((None, "sum", "mean", "SUM", "Mean"))),
        kind=draw(st.sampled_from(("real", "complex", "int", "uint8", "bool", "transposed", "high"))), seed=draw(gen.seeds),
        scale=draw(st.sampled_from((1.0, 1.0, 1e-40, 1e30))),
    )  # fmt: skip


def make(c):
    g = np.random.default_rng(c["seed"])
    shape = tuple(c["shape"])
    k = c["kind"]
    if k == "int":
        return g.integers(-1000, 1000, shape)
    if k == "uint8":
        return g.integers(0, 256, shape).astype(np.uint8)
    if k == "bool":
        return g.random(shape) < 0.5
    if k == "high":
        # integers of any size, close to the largest one
        t = np.dtype(("int8", "uint16", "int16", "uint32", "int32", "int64", "uint64", "uint32")[c["seed"] % 8])
        # (of 64 bits as large as their sum can be)
        top = min(np.iinfo(t).max, 2**52 // int(np.prod(shape)))
        return (top - g.integers(0, max(top // 100, 1), shape, dtype=np.int64)).astype(t)
    if k == "transposed":
        return g.standard_normal(shape[::-1]).T
    return gen.rng_array(c["seed"], shape, "complex" if k == "complex" else "normal") * c.get("scale", 1.0)


@PROP.law("bins", cases(), 3000)
def bins_law(c):
    from pyotf.utils import bin_ndarray

    data = make(c)
    keep = data.copy()
    mean = (c["op"] or "sum").lower() == "mean"
    want = np.empty(c["new"], dtype=complex if c["kind"] == "complex" else float)
    for idx in np.ndindex(*c["new"]):
        block = data[tuple(slice(i * b, (i + 1) * b) for i, b in zip(idx, c["bins"]))]
        block = block.astype(want.dtype)
        want[idx] = block.sum() / (block.size if mean else 1)
    kw = {} if c["op"] is None else dict(operation=c["op"])
    conv = {"tuple": tuple, "new shape tuple": tuple, "array": np.array}.get(c["how"], list)
    if "new" in c["how"]:
        kw["new_shape"] = conv(c["new"])
    else:
        kw["bin_size"] = c["bins"][0] if c["how"] == "one size" else conv(c["bins"])
    with sut(f"bin_ndarray of {data.shape} with {kw}"):
        got = bin_ndarray(data, **kw)
    close(got, want, "binned data", tol=1e-12, scale=max(np.abs(want).max(), np.abs(data.astype(want.dtype)).max()) or 1)
    require(np.array_equal(keep, data), "the caller's data was changed")
    full = list(data.shape) == [n * b for n, b in zip(c["new"], c["bins"])]
    if full and not mean:
        close(got.astype(want.dtype).sum(), data.astype(want.dtype).sum(), "total", tol=1e-10, scale=np.abs(data.astype(want.dtype)).sum() or 1)
    return any(b > 1 for b in c["bins"]), [c["how"], c["kind"], "whole" if full else "with remainder"]


@st.composite
def large_cases(draw):
    """Large arrays, or large bins."""
    nd = draw(st.integers(1, 3))
    c = draw(cases())
    n = (3000, 200, 40)[nd - 1]
    c["bins"], c["new"] = [], []
    for _ in range(nd):
        a, b = draw(st.integers(1, 9)), draw(st.integers(n // 16, n // 9))
        if draw(st.booleans()):
            a, b = b, a
        c["bins"].append(a)
        c["new"].append(b)
    if draw(st.booleans()):
        c["kind"] = "high"
    if c["how"] == "one size":
        c["bins"] = c["bins"][:1] * nd
    rest = [0] * nd if "new" in c["how"] else [draw(st.integers(0, b - 1)) for b in c["bins"]]
    c["shape"] = [n * b + r for n, b, r in zip(c["new"], c["bins"], rest)]
    if np.prod([float(n) for n in c["shape"]]) > 3e5:
        c["shape"], c["bins"], c["new"] = c["shape"][:1], c["bins"][:1], c["new"][:1]
    return c


@PROP.law("large arrays", large_cases(), 160)
def large(c):
    return bins_law(c)


@st.composite
def nests(draw):
    nd = draw(st.integers(1, 3))
    a, b, n = [draw(st.lists(st.integers(1, 3), min_size=nd, max_size=nd)) for _ in range(3)]
    return dict(a=a, b=b, n=n, op=draw(st.sampled_from(("sum", "mean"))), seed=draw(gen.seeds))


@PROP.law("bins of bins", nests(), 500)
def nested(c):
    """Binning twice is binning once by the product."""
    from pyotf.utils import bin_ndarray

    shape = [a * b * n for a, b, n in zip(c["a"], c["b"], c["n"])]
    data = gen.rng_array(c["seed"], shape)
    with sut("bin_ndarray"):
        twice = bin_ndarray(bin_ndarray(data, bin_size=c["a"], operation=c["op"]), bin_size=c["b"], operation=c["op"])
        once = bin_ndarray(data, bin_size=[a * b for a, b in zip(c["a"], c["b"])], operation=c["op"])
    close(twice, array(once, "binned data", c["n"]), "binned twice", tol=1e-11, scale=np.abs(data).sum())
    return any(a > 1 for a in c["a"]) and any(b > 1 for b in c["b"]), [c["op"]]


@PROP.law("refusals", st.tuples(cases(), st.sampled_from(("median", "max", "", "std")), st.integers(0, 2)).map(list), 200)
def refusals(c):
    """Neither shape nor size, another number of dimensions, another operation."""
    from pyotf.utils import bin_ndarray

    c, op, kind = c
    data = make(c)
    if kind == 0:
        must_raise(f"operation {op!r}", ValueError, lambda: bin_ndarray(data, bin_size=1, operation=op))
    elif kind == 1:
        must_raise("neither new_shape nor bin_size", ValueError, lambda: bin_ndarray(data))
    else:
        new = c["new"] + [1]
        must_raise(f"{data.shape} to {new}", ValueError, lambda: bin_ndarray(data, new_shape=new))
    return True, [("operation", "nothing", "dimensions")[kind]]
