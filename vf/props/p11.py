"""P11: the Zernike polynomials are the standard, orthonormal ones, whatever the way of asking for them."""

from functools import lru_cache

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Property, array, close, must_raise, require, sut

PROP = Property(
    "P11",
    "cases are random radii (inside, outside, on the edge, at the origin) and angles as scalars, vectors or images, and "
    "modes by Noll index (up to 120) or degrees (up to n = 30), one or many, in every style of call; non-trivial: a "
    "mode other than piston at a radius strictly inside of the disk",
    ["the reference is the radial polynomial by its three term recursion (itself compared with exact rational "
     "arithmetic), tolerance 1e-9 (1e-5 above n = 14) of the mode's largest value",
     "orthonormality is integrated exactly (Gauss-Legendre in radius squared, trapezoidal in angle)"],
)  # fmt: skip

MAXN = 30


@st.composite
def degrees(draw, odd=False):
    n = draw(st.one_of(st.integers(0, 8), st.integers(0, MAXN)))
    m = n - 2 * draw(st.integers(0, n))
    if odd and n and draw(st.integers(0, 7)) == 0:
        m = min(m + 1, n - 1)
    return [n, m]


@st.composite
def points(draw):
    shape = draw(st.sampled_from(((), (2,), (3,), (7,), (2, 2), (3, 4), (2, 5))))
    k = int(np.prod(shape))
    edge = st.sampled_from((0.0, 1.0, 1, 0, float(np.nextafter(1, 2)), float(np.nextafter(1, 0)), 1.25, 1e-300))
    r = draw(st.lists(st.one_of(gen.frac(0, 1), gen.frac(0, 1), gen.frac(0, 1), gen.frac(1, 3), edge), min_size=k, max_size=k))
    t = draw(st.lists(gen.frac(-7, 7), min_size=k, max_size=k))
    return dict(shape=list(shape), r=r, t=t)


def grid(c, key):
    a = np.array(c[key])
    return a.reshape(c["shape"]) if c["shape"] else a.reshape(())[()]


STYLES = ("noll", "noll list", "noll tuple", "noll array", "n, m", "n, m lists", "n, m tuples", "pair", "pairs", "pair of tuples")


@st.composite
def cases(draw):
    c = draw(points())
    style = c["style"] = draw(st.sampled_from(STYLES))
    k = 1 if style in ("noll", "n, m", "pair") else draw(st.integers(1, 6))
    if "noll" in style:
        c["modes"] = [list(ref.noll_to_nm(j)) for j in draw(st.lists(st.integers(1, 120), min_size=k, max_size=k))]
    else:
        c["modes"] = draw(st.lists(degrees(odd=True), min_size=k, max_size=k))
    c["norm"] = draw(st.sampled_from((None, True, False)))
    return c


def precision(modes):
    """Sums with alternating signs, a legitimate way to do it, lose digits at high degrees."""
    return 1e-9 if max(n for n, _ in modes) <= 14 else 1e-5


def ask(c, zernike):
    r, t = grid(c, "r"), grid(c, "t")
    kw = {} if c["norm"] is None else dict(norm=c["norm"])
    n, m = [list(x) for x in zip(*c["modes"])]
    s = c["style"]
    if "noll" in s:
        j = [ref.nm_to_noll(*x) for x in c["modes"]]
        j = j[0] if s == "noll" else {"noll list": list, "noll tuple": tuple, "noll array": np.array}[s](j)
        return zernike(r, t, j, **kw)
    if s == "n, m":
        return zernike(r, t, n[0], m[0], **kw)
    if s == "n, m lists":
        return zernike(r, t, n, m, **kw)
    if s == "n, m tuples":
        return zernike(r, t, tuple(n), tuple(m), **kw)
    if s == "pair of tuples":
        return zernike(r, t, (tuple(n), tuple(m)), **kw)
    if s == "pair":
        return zernike(r, t, ([n[0]], [m[0]]), **kw)
    return zernike(r, t, np.array([n, m]), **kw)


@PROP.law("values", cases(), 4000)
def values(c):
    from pyotf.zernike import zernike

    r, t = np.asarray(grid(c, "r"), float), np.asarray(grid(c, "t"), float)
    norm = c["norm"] is not False
    want = np.array([ref.zernike_nm(r, t, n, m, norm) for n, m in c["modes"]])
    with sut(f"zernike ({c['style']})"):
        keep = grid(c, "r"), grid(c, "t")
        got = ask(c, zernike)
    if len(c["modes"]) == 1:
        want = want[0]
    # (a grid of a single row or mode loses that axis)
    require(np.shape(got) == want.squeeze().shape, f"shape {np.shape(got)} instead of {want.shape}")
    top = max(np.sqrt(2 * (n + 1)) if norm else 1 for n, m in c["modes"])
    close(got, want.squeeze(), "values", scale=top, kind="f", tol=precision(c["modes"]))
    outside = (r > 1).reshape(r.shape)
    for g in np.asarray(got).reshape((-1,) + r.shape):
        require(not np.any(g[outside]), "values outside of the unit disk aren't zero")
    inside = ((r > 0) & (r < 1)).any() and any(n for n, _ in c["modes"])
    return bool(inside), [c["style"], f"norm {c['norm']}", f"{r.ndim}-d"]


@st.composite
def images(draw):
    """Large grids of points, made from a seed."""
    c = dict(shape=draw(st.sampled_from(([3000], [64, 64], [97, 101], [128, 40], [1, 500], [256, 256], [11], [5, 6]))), seed=draw(gen.seeds))
    c["style"] = draw(st.sampled_from(("noll list", "noll array", "n, m lists", "pairs")))
    k = draw(st.one_of(st.integers(1, 6), st.integers(1, 40), st.integers(1, 120)))
    if "noll" in c["style"]:
        first = draw(st.integers(1, 121 - k))
        c["modes"] = [list(ref.noll_to_nm(j)) for j in range(first, first + k)]
    else:
        c["modes"] = draw(st.lists(degrees(), min_size=k, max_size=k))
    c["norm"] = draw(st.sampled_from((None, True, False)))
    return c


@PROP.law("images", images(), 90)
def images_law(c):
    g = np.random.default_rng(c["seed"])
    n = int(np.prod(c["shape"]))
    return values(c | dict(r=1.2 * g.random(n), t=7 * g.standard_normal(n)))


@st.composite
def rows(draw):
    """The same modes on several grids that have much in common."""
    c = draw(cases().filter(lambda c: len(c["r"]) > 1))
    n = len(c["r"])
    moves = []
    for _ in range(draw(st.integers(1, 4))):
        how = draw(st.sampled_from(("reverse r", "reverse t", "reverse both", "permute r", "permute t", "swap", "one r", "one t", "in place", "norm", "mode")))
        moves.append([how, draw(st.permutations(range(n))) if "permute" in how else draw(st.integers(0, n - 1))])
    return dict(c, moves=moves)


@PROP.law("several grids in a row", rows(), 900)
def several(c):
    from pyotf.zernike import zernike

    one = {k: v for k, v in c.items() if k != "moves"}
    if values(one) is None:
        return False, []
    r, t = np.array(c["r"], float), np.array(c["t"], float)
    bufs = r.reshape(c["shape"]).copy(), t.reshape(c["shape"]).copy()
    for how, k in c["moves"]:
        if how == "reverse r":
            r = r[::-1]
        elif how == "reverse t":
            t = t[::-1]
        elif how == "reverse both":
            r, t = r[::-1], t[::-1]
        elif how == "permute r":
            r = r[k]
        elif how == "permute t":
            t = t[k]
        elif how == "swap":
            r, t = r.copy(), t.copy()
            r[[0, k]], t[[0, k]] = r[[k, 0]], t[[k, 0]]
        elif how == "one r":
            r = r.copy()
            r[k] = r[k] / 2
        elif how == "one t":
            t = t.copy()
            t[k] = t[k] + 0.5
        elif how == "norm":
            one = dict(one, norm=one["norm"] is False)
        elif how == "mode":
            one = dict(one, modes=one["modes"][::-1] if len(one["modes"]) > 1 else [[one["modes"][0][0], -one["modes"][0][1]]])
        if how == "in place":
            # arrays of the caller which get new values
            bufs[0][...], bufs[1][...] = r.reshape(c["shape"]), t.reshape(c["shape"])
            n, m = [list(x) for x in zip(*one["modes"])]
            norm = one["norm"] is not False
            with sut("zernike of arrays changed in place"):
                got = zernike(*bufs, n, m, norm=norm)
            want = np.array([ref.zernike_nm(*bufs, nn, mm, norm) for nn, mm in one["modes"]]).squeeze()
            close(got, want, "values of arrays changed in place", scale=np.sqrt(2 * (max(n) + 1)), tol=precision(one["modes"]))
        else:
            values(dict(one, r=r.tolist(), t=t.tolist()))
    return True, [h for h, _ in c["moves"]]


@PROP.law("exact values", st.tuples(degrees(), gen.frac(0, 1)).map(list), 800)
def exact(c):
    """Against rational arithmetic: this judges the reference, too."""
    from pyotf.zernike import zernike

    (n, m), r = c
    want = ref.radial_exact(n, m, r)
    close(ref.radial(n, m, r), want, "the reference itself", scale=1, tol=1e-10)
    angle = np.pi / 2 / abs(m) if m < 0 else 0.0  # where the azimuthal part is 1
    with sut("zernike"):
        got = zernike(r, angle, n, m, norm=False)
    close(got, want, f"R_{n}^{abs(m)}({r})", scale=1, tol=precision([c[0]]))
    return n > 0 and r > 0, [f"n {'up to 8' if n <= 8 else 'above 8'}"]


@lru_cache(None)
def quadrature():
    x, w = np.polynomial.legendre.leggauss(34)  # exact up to degree 67 in r^2
    u = (x + 1) / 2
    t = np.arange(64) * 2 * np.pi / 64  # exact up to order 63
    r, theta = np.meshgrid(np.sqrt(u), t, indexing="ij")
    return r, theta, np.repeat(w[:, None] / 2 / 64, 64, axis=1)


@PROP.law("orthonormal", st.tuples(degrees(), degrees(), st.booleans()).map(list), 1200)
def orthonormal(c):
    """The mean over the unit disk of the product of two modes is 1 if they are the same, and 0 if they aren't."""
    from pyotf.zernike import zernike

    a, b, same = c
    b = a if same else b
    r, t, w = quadrature()
    with sut("zernike"):
        za, zb = zernike(r, t, *a, norm=True), zernike(r, t, *b, norm=True)
    close((za * zb * w).sum(), float(a == b), f"mean of Z{a} Z{b}", scale=1, tol=precision([a, b]))
    return a != [0, 0] and b != [0, 0], ["same" if a == b else "different"]


@st.composite
def wrong(draw):
    kind = draw(st.sampled_from(("radius", "degrees", "noll", "float", "dims", "lengths", "count")))
    c = dict(draw(points()), kind=kind, n=draw(st.integers(0, 20)), more=draw(st.integers(1, 9)), neg=draw(gen.logfrac(1e-9, 9)))
    c["at"] = draw(st.integers(0, 99))
    return c


@PROP.law("refusals", wrong(), 500)
def refusals(c):
    """Negative radii, |m| > n, indices below 1 or not integer, more than 2 dimensions."""
    from pyotf.zernike import zernike

    r, t = grid(c, "r"), grid(c, "t")
    n, k, kind = c["n"], c["more"], c["kind"]
    if kind == "radius":
        r = np.array(r, float)
        r.flat[c["at"] % r.size] = -c["neg"]
        call, what = (lambda: zernike(r, t, n, n)), f"radii {r}"
    elif kind == "degrees":
        m = (n + 2 * k) * (-1) ** k
        call, what = (lambda: zernike(r, t, [n + 1, n], [n + 1, m])), f"n = {n}, m = {m}"
    elif kind == "noll":
        call, what = (lambda: zernike(r, t, [1, 1 - k])), f"index {1 - k}"
    elif kind == "float":
        call, what = (lambda: zernike(r, t, float(k))), f"index {float(k)}"
    elif kind == "dims":
        rr = np.ones((2, 2, k)) * 0.5
        call, what = (lambda: zernike(rr, rr, n, n)), "3-d radii"
    elif kind == "lengths":
        call, what = (lambda: zernike(r, t, list(range(k)), list(range(k + 1)))), "more m than n"
    else:
        call, what = (lambda: zernike(r, t, n, n, n)), "three degrees"
    must_raise(what, ValueError, call)
    return True, [kind]
