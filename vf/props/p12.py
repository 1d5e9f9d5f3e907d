"""P12: Noll indices, degrees and names of modes are in one to one correspondence."""

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Property, array, close, must_raise, require, sut

PROP = Property(
    "P12",
    "cases are scalars, lists and arrays of Noll indices 1 to 120 and of degrees, in any order, with repeats, in all "
    "integer types, and invalid ones; every index is also tried on its own; non-trivial: at least one index above 1",
    ["the reference is Noll's rule, not a table"],
)  # fmt: skip

TYPES = ("int", "list", "int8", "int16", "int32", "int64", "2-d")


def shaped(values, how):
    if how == "int":
        return values[0], values[:1]
    if how == "list":
        return list(values), values
    if how == "2-d":
        values = (values * 2)[: 2 * len(values)]
        return np.array(values).reshape(2, -1), values
    return np.array(values, dtype=how), values


@st.composite
def cases(draw):
    return dict(j=draw(st.lists(st.integers(1, 120), min_size=1, max_size=12)), how=draw(st.sampled_from(TYPES)))


@PROP.law("bijection", cases(), 2500, explicit=[dict(j=[j], how="int") for j in range(1, 121)])
def bijection(c):
    from pyotf.zernike import degrees2noll, noll2degrees

    given, js = shaped(c["j"], c["how"])
    want = np.array([ref.noll_to_nm(j) for j in js]).T
    keep = np.array(given)
    with sut("noll2degrees"):
        n, m = noll2degrees(given)
    for got, w, name in ((n, want[0], "n"), (m, want[1], "m")):
        array(got, name, np.shape(given))
        require(np.asarray(got).dtype.kind == "i", f"{name} isn't integer")
        require(np.array_equal(np.ravel(got), w), f"{name} of {js} is {np.ravel(got).tolist()} instead of {w.tolist()}")
    require(np.array_equal(keep, given), "the caller's indices were changed")
    # and back, from the library's own degrees and from other types
    nm = [shaped([ref.noll_to_nm(j)[i] for j in c["j"]], c["how"])[0] for i in (0, 1)]
    for a, b in ((n, m), nm):
        with sut("degrees2noll"):
            back = degrees2noll(a, b)
        require(np.shape(back) == np.shape(given), f"degrees2noll has shape {np.shape(back)}")
        require(np.array_equal(np.ravel(back), js), f"degrees2noll({a}, {b}) is {np.ravel(back).tolist()}, not {js}")
    return any(j > 1 for j in js), [c["how"]]


@st.composite
def wrong(draw):
    kind = draw(st.sampled_from(("low", "float", "parity", "range", "int8 range", "float degrees", "beyond")))
    js = draw(st.lists(st.integers(1, 100), min_size=0, max_size=4))
    return dict(
        kind=kind, js=js, at=draw(st.integers(0, 4)), k=draw(st.integers(0, 50)), n=draw(st.integers(0, 12)),
        sign=draw(st.sampled_from((-1, 1))), which=draw(st.booleans()),
    )  # fmt: skip


@PROP.law("refusals", wrong(), 1200)
def refusals(c):
    from pyotf.zernike import degrees2noll, noll2degrees

    js, at, k, n, kind = c["js"], min(c["at"], len(c["js"])), c["k"], c["n"], c["kind"]
    nm = [list(ref.noll_to_nm(j)) for j in js]

    def put(value, where):
        out = list(where)
        out.insert(at, value)
        return out if where else value

    if kind == "low":
        j = put(-k, js)
        must_raise(f"noll2degrees({j})", ValueError, lambda: noll2degrees(j))
    elif kind == "float":
        j = np.array(put(k + 1.0, js))
        must_raise(f"noll2degrees({j})", ValueError, lambda: noll2degrees(j))
    elif kind == "beyond":
        # the mapping is tabulated up to 120: either right or refused
        j = put(121 + k, js)
        try:
            got = noll2degrees(j)
        except (IndexError, ValueError):
            return True, [kind]
        want = np.array([ref.noll_to_nm(x) for x in np.ravel(j)]).T
        require(np.array_equal(np.array(got).reshape(2, -1), want), f"noll2degrees({j}) is wrong: {got}")
    else:
        if kind == "parity":
            bad = [n + 1, c["sign"] * (n - 2 * (k % (n + 1)))] if n else [1, 0]
            bad[1] = max(-bad[0] + 1, min(bad[0] - 1, bad[1]))
        elif kind == "range":
            bad = [n, c["sign"] * (n + 2 + 2 * (k % 5))]
        elif kind == "int8 range":
            # the type's own limits are no exception
            bad = [2 * n, c["sign"] * (128 - 2 * (c["sign"] > 0) - 2 * (k % 5) * (k % 2))]
        else:
            bad = [n, n]
        pairs = nm[:at] + [bad] + nm[at:]
        dtype = np.int8 if kind == "int8 range" else None
        nn, mm = [np.array(v, dtype=dtype) if len(pairs) > 1 or dtype else v[0] for v in zip(*pairs)]
        if kind == "float degrees":
            if c["which"]:
                nn = np.asarray(nn) * 1.0
            else:
                mm = np.asarray(mm) * 1.0
        must_raise(f"degrees2noll({nn}, {mm})", ValueError, lambda: degrees2noll(nn, mm))
    return True, [kind]


@PROP.law("names", st.integers(1, 15), 60, thorough=60, explicit=list(range(1, 16)))
def names(j):
    """The classical names of modes 1 to 15, both ways, and nothing else."""
    from pyotf.zernike import name2noll, noll2name

    require(noll2name.get(j) == ref.NAMES[j - 1], f"name of {j} is {noll2name.get(j)!r}")
    require(name2noll.get(ref.NAMES[j - 1]) == j, f"index of {ref.NAMES[j - 1]!r} is {name2noll.get(ref.NAMES[j - 1])}")
    require(len(noll2name) == len(name2noll) == 15, "there aren't 15 names")
    return j > 1, []
