"""P15: fft_pad and slice_maker cut and pad about the centre."""

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Property, array, must_raise, require, sut

PROP = Property(
    "P15",
    "cases are random arrays of 1 to 3 dimensions and target shapes that grow, shrink or keep each axis, given as "
    "integers, sequences, with None for unchanged axes, or left out; windows of any centre and width, also across the "
    "borders; non-trivial: at least one axis changes, or the window isn't the whole array",
    ["fft_pad takes sample ceil(n / 2) for the origin, as its documentation shows; np.pad is trusted for what it pads with"],
)

MODES = ("median", "constant", "edge", "reflect", "symmetric", "wrap", "mean", "maximum", "linear_ramp")


def smooth(n):
    """Smallest number not below n without prime factors above 5."""
    while True:
        k = n
        for p in (2, 3, 5):
            while k % p == 0:
                k //= p
        if k == 1:
            return n
        n += 1


@st.composite
def pads(draw):
    nd = draw(st.integers(1, 3))
    shape = draw(st.lists(st.integers(1, 14), min_size=nd, max_size=nd))
    how = draw(st.sampled_from(("int", "numpy int", "list", "tuple", "array", "none", "some None")))
    if "int" in how:
        new = draw(st.integers(1, 30))
    elif how == "none":
        new = None
        shape = draw(st.lists(st.integers(1, 50), min_size=1, max_size=2))
    else:
        new = draw(st.lists(st.integers(1, 30), min_size=nd, max_size=nd))
        if how == "some None":
            new[draw(st.integers(0, nd - 1))] = None
    mode = draw(st.sampled_from((None,) + MODES + ("constant",) * 3))
    if mode == "constant" and isinstance(new, list) and draw(st.integers(0, 9)) == 0:
        # nothing is left of an axis
        new[draw(st.integers(0, nd - 1))] = 0
    return dict(
        shape=shape, new=new, how=how, mode=mode, fill=draw(st.sampled_from((None, 7))), seed=draw(gen.seeds),
        dtype=draw(st.sampled_from(("float64", "int32", "uint16", "complex128"))),
    )  # fmt: skip


def half(n):
    return -(-n // 2)


def expected_pad(data, new, **kw):
    """Crop or pad every axis so that sample ceil(n / 2) stays what it was."""
    pad, cut = [], []
    for n, m in zip(data.shape, new):
        lo = half(m) - half(n)
        hi = (m - half(m)) - (n - half(n))
        cut.append(slice(max(-lo, 0), n - max(-hi, 0)))
        pad.append((max(lo, 0), max(hi, 0)))
    return np.pad(data[tuple(cut)], pad, **kw)


def make(c):
    g = np.random.default_rng(c["seed"])
    a = g.integers(0, 1000, tuple(c["shape"])).astype(c["dtype"])
    return a + 1j * g.random(a.shape) if c["dtype"].startswith("c") else a


@PROP.law("fft_pad", pads(), 3000)
def fft_pad_law(c):
    from pyotf.utils import fft_pad

    if c["mode"] in (None, "median", "maximum") and c["dtype"].startswith("c"):
        c["dtype"] = "float64"
    data = make(c)
    keep = data.copy()
    kw = {} if c["mode"] is None else dict(mode=c["mode"])
    if c["mode"] == "constant" and c["fill"]:
        kw["constant_values"] = c["fill"]
    new = c["new"]
    if c["how"] == "numpy int":
        given = np.int64(new)
    else:
        given = {"tuple": tuple, "array": np.array}.get(c["how"], lambda x: x)(new)
    if new is None:
        full = [smooth(n) for n in data.shape]
    elif isinstance(new, int):
        full = [new] * data.ndim
    else:
        full = [n if m is None else m for n, m in zip(data.shape, new)]
    want = expected_pad(data, full, **({"mode": "median"} | kw))
    with sut(f"fft_pad of {data.shape} to {given!r}"):
        got = fft_pad(data, **kw) if new is None and c["seed"] % 2 else fft_pad(data, given, **kw)
    array(got, "fft_pad", tuple(full))
    require(got.dtype == data.dtype, f"dtype {got.dtype} instead of {data.dtype}")
    require(np.array_equal(got, want), f"fft_pad of {data.shape} to {full}: wrong values")
    require(np.array_equal(data, keep), "the caller's data was changed")
    return tuple(full) != data.shape, [c["how"], f"mode {c['mode']}"]


@st.composite
def large_pads(draw):
    c = draw(pads())
    nd = draw(st.integers(1, 3))
    top = (2000, 300, 60)[nd - 1]
    c["shape"] = draw(st.lists(st.integers(top // 8, top), min_size=nd, max_size=nd))
    new = st.integers(1, top)
    if "int" in c["how"]:
        c["new"] = draw(new)
    elif c["how"] != "none":
        c["new"] = draw(st.lists(st.one_of(new, st.none()) if c["how"] == "some None" else new, min_size=nd, max_size=nd))
    return c


@PROP.law("large arrays", large_pads(), 100)
def large(c):
    return fft_pad_law(c)


@st.composite
def trips(draw):
    c = draw(pads().filter(lambda c: c["how"] in ("list", "tuple")))
    c["grow"] = [draw(st.integers(0, 12)) for _ in c["shape"]]
    c["via"] = [draw(st.integers(0, 12)) for _ in c["shape"]]
    return c


@PROP.law("pad and crop back", trips(), 800)
def trip(c):
    """Padding and cropping back gives the original; padding twice is the same as padding once."""
    from pyotf.utils import fft_pad

    data = make(c)
    mid = [n + g for n, g in zip(data.shape, c["grow"])]
    far = [n + g for n, g in zip(mid, c["via"])]
    with sut("fft_pad"):
        once = fft_pad(data, far, mode="constant")
        twice = fft_pad(fft_pad(data, mid, mode="constant"), far, mode="constant")
        back = fft_pad(once, data.shape, mode="constant")
    require(np.array_equal(once, twice), f"{data.shape} to {mid} to {far} isn't {data.shape} to {far}")
    require(np.array_equal(back, data), f"{data.shape} to {far} and back isn't the original")
    # nothing is lost and the rest is zero
    require(np.isclose(once.sum(), data.sum()), "the sum has changed")
    return far != list(data.shape), []


@PROP.law("origin", trips(), 500)
def origin(c):
    from pyotf.utils import fft_pad

    new = c["new"]
    data = np.zeros(c["shape"])
    if any(half(n) >= n for n in data.shape) or any(half(m) >= m for m in new):
        return False, ["no such sample"]
    data[tuple(half(n) for n in data.shape)] = 1
    with sut("fft_pad"):
        got = fft_pad(data, new, mode="constant")
    where = tuple(np.argwhere(got)[0].tolist()) if got.any() else None
    require(where == tuple(half(m) for m in new), f"{data.shape} to {new}: the origin went to {where}")
    return new != c["shape"], []


@PROP.law("fft_pad refusals", st.tuples(gen.frac(1, 30), st.lists(st.integers(1, 6), min_size=1, max_size=3)).map(list), 60)
def pad_refusals(c):
    from pyotf.utils import fft_pad

    must_raise(f"new shape {c[0]}", (ValueError, TypeError), lambda: fft_pad(np.zeros(c[1]), c[0]))
    return True, []


@st.composite
def windows(draw):
    nd = draw(st.integers(1, 4))
    shape = draw(st.lists(st.integers(1, 20), min_size=nd, max_size=nd))
    near = st.one_of(st.integers(-3, 23), st.integers(-60, 80))
    xs = draw(st.lists(near, min_size=nd, max_size=nd))
    ws = draw(st.one_of(st.integers(0, 30), st.lists(st.integers(0, 30), min_size=nd, max_size=nd)))
    jig = gen.frac(-0.45, 0.45)
    # numbers that aren't integer are rounded
    if draw(st.integers(0, 2)) == 0:
        xs = [x + draw(jig) for x in xs]
    if draw(st.integers(0, 2)) == 0:
        ws = [abs(w + draw(jig)) for w in ws] if isinstance(ws, list) else abs(ws + draw(jig))
    return dict(shape=shape, xs=xs, ws=ws, how=draw(st.sampled_from(("list", "tuple", "array"))))


@PROP.law("slice_maker", windows(), 2500)
def slices(c):
    """The window of width w about x starts at x - w // 2, and is cut off at the borders."""
    from pyotf.utils import slice_maker

    conv = {"list": list, "tuple": tuple, "array": np.array}[c["how"]]
    ws = conv(c["ws"]) if isinstance(c["ws"], list) else c["ws"]
    with sut(f"slice_maker({c['xs']}, {c['ws']})"):
        got = slice_maker(conv(c["xs"]), ws)
    require(isinstance(got, tuple) and len(got) == len(c["xs"]), f"isn't a tuple of {len(c['xs'])} slices: {got}")
    widths = c["ws"] if isinstance(c["ws"], list) else [c["ws"]] * len(c["xs"])
    whole = True
    for s, x, w, n in zip(got, c["xs"], widths, c["shape"]):
        x, w = round(x), round(w)
        want = [i for i in range(x - w // 2, x - w // 2 + w) if 0 <= i < n]
        picked = list(range(n))[s]
        require(picked == want, f"x = {x}, w = {w}: {s} picks {picked} instead of {want} of {n}")
        if 0 <= x - w // 2 and w > 0:
            require((s.start, s.stop) == (x - w // 2, x - w // 2 + w) and s.step in (None, 1), f"x = {x}, w = {w}: {s}")
        whole &= len(want) == n
    return not whole, ["one width" if not isinstance(c["ws"], list) else "widths"]


@PROP.law("slice_maker refusals", st.tuples(st.integers(1, 3), st.integers(0, 2), st.integers(1, 9), st.booleans()).map(list), 80)  # fmt: skip
def slice_refusals(c):
    from pyotf.utils import slice_maker

    nd, at, w, real = c
    ws = [w] * nd
    if real:
        ws[at % nd] = -w
        must_raise(f"widths {ws}", ValueError, lambda: slice_maker([5] * nd, ws))
    else:
        must_raise("a complex centre", TypeError, lambda: slice_maker([5 + 1j] * nd, [w] * nd))
    return True, []
