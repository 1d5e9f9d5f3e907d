"""P10: aberrations are sums of Zernike modes of the pupil's phase and magnitude, applied to a new model."""

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Property, array, close, must_raise, require, sut

PROP = Property(
    "P10",
    "cases are random Hanser models, maybe with a history of reads, parameter changes or a custom pupil, and random "
    "Zernike coefficients for phase, magnitude, both or neither, or random sets of named aberrations; non-trivial: at "
    "least 9 frequencies inside of the pupil and a non-zero coefficient other than piston",
    ["the reference is the Zernike sum in closed form followed by a direct (matrix) Fourier sum, tolerance 1e-9"],
)  # fmt: skip


def pupil_of(p, mcoefs, pcoefs):
    """(1 + sum of magnitudes) exp(i sum of phases) inside of NA."""
    kr, phi, _, mask = ref.hanser_geometry(p)
    r = kr * p["wl"] / p["na"]
    zs = lambda coefs: sum((c * ref.zernike_j(r, phi, j + 1) for j, c in enumerate(coefs)), np.zeros(r.shape))
    mag = mask + zs(mcoefs)
    return np.where(mask, mag * np.exp(1j * zs(pcoefs)), 0)


#: whole and half waves, in either unit
TURNS = [k * u for k in (-2, -1, -0.5, 0.25, 0.5, 1, 2) for u in (1.0, 2 * np.pi)]


def coefs(draw, n, scale):
    kind = draw(st.sampled_from(("dense", "dense", "one", "ints")))
    if kind == "one":
        out = [0.0] * n
        out[draw(st.integers(0, n - 1))] = draw(st.one_of(gen.frac(-scale, scale), st.sampled_from(TURNS)))
        return out
    if kind == "ints":
        return draw(st.lists(st.integers(-2, 2), min_size=n, max_size=n))
    out = [v * scale for v in gen.rng_array(draw(gen.seeds), n).tolist()]
    if draw(st.integers(0, 3)) == 0:
        # tiny ones after a few others
        first = draw(st.integers(0, n))
        out[first:] = [v * 1e-7 for v in out[first:]]
    return out


@st.composite
def cases(draw, sizes=gen.small_sizes, max_planes=4, most=36):
    p = draw(gen.hanser(sizes=sizes, max_planes=max_planes))
    n = draw(st.one_of(st.integers(1, 15), st.integers(1, most)))
    which = draw(st.sampled_from(("phase", "phase", "magnitude", "both", "both", "neither")))
    m = coefs(draw, n, 0.4) if which in ("magnitude", "both") else None
    c = coefs(draw, n, 1.0) if which in ("phase", "both") else None
    return dict(p=p, m=m, c=c, which=which, before=draw(st.integers(0, 5)), seed=draw(gen.seeds))


def prepare(p, before, seed, n=15):
    """A model with some history, and what its PSFa is."""
    from pyotf.otf import apply_aberration

    if before == 5:
        # aberrated by as many modes, with other optics, which are changed afterwards
        key = ("na", "wl", "size", "res")[seed % 4]
        other = {"na": 0.9 * p["na"], "wl": 1.13 * p["wl"], "size": p["size"] + 1, "res": 0.9 * p["res"]}[key]
        model = apply_aberration(gen.psf_model(p | {key: other}), None, gen.rng_array(seed, n))
        model.PSFi
        setattr(model, key, p[key])
        return model
    model = gen.psf_model(p)
    if before == 1:
        model.PSFa, model.OTFi
    elif before == 2:
        model.apply_pupil(gen.rng_array(seed, (p["size"],) * 2, "complex"))
    elif before == 3:
        na = model.na
        model.na = 0.8 * na
        model.PSFi
        model.na = na
    elif before == 4:
        model.OTFa
        model.vec_corr = "x" if p["vec_corr"] != "x" else "y"
        model.PSFi
        model.vec_corr = p["vec_corr"]
    return model


def modes_of(c):
    return len(c.get("c") or c.get("m") or range(15))


def arrays(m, c):
    return [None if v is None else np.array(v) for v in (m, c)]


def compare(model, p, expected, original, keep, before):
    tol = ref.precision(p)
    close(model.PSFa, expected, "PSFa of the aberrated model", kind="c", tol=tol)
    close(model.PSFi, ref.intensity(expected), "PSFi of the aberrated model", kind="f", tol=tol)
    close(model.OTFi, ref.dft(ref.intensity(expected), (0, 1, 2)), "OTFi of the aberrated model", tol=tol)
    for k, v in p.items():
        if k != "zrange":
            require(getattr(model, k) == v, f"{k} of the aberrated model is {getattr(model, k)!r}, not {v!r}")
    close(model.zrange, ref.zrange_of(p), "zrange of the aberrated model", tol=1e-12)
    require(model is not original, "the model itself was returned")
    close(original.PSFa, keep, "PSFa of the original model, afterwards", tol=1e-12)


def keep_of(c):
    """What the original has to show: from a model of its own."""
    other = prepare(c["p"], c["before"], c["seed"], modes_of(c))
    return np.array(other.PSFa)


@PROP.law("coefficients", cases(), 1200)
def coefficients(c):
    from pyotf.otf import apply_aberration

    p = c["p"]
    expected = ref.hanser_psfa(p, pupil_of(p, c["m"] or [], c["c"] or []))
    if c["which"] == "neither" and c["before"] == 2:
        expected = ref.hanser_psfa(p, ref.recentre(gen.rng_array(c["seed"], (p["size"],) * 2, "complex")))
    with sut("apply_aberration"):
        keep = keep_of(c)
        original = prepare(p, c["before"], c["seed"], modes_of(c))
        m, q = arrays(c["m"], c["c"])
        model = apply_aberration(original, m, q)
        compare(model, p, expected, original, keep, c["before"])
    for a, b in zip((m, q), arrays(c["m"], c["c"])):
        require(a is None or np.array_equal(a, b), "the caller's coefficients were changed")
    used = any(v for coef in (c["m"], c["c"]) if coef for v in coef[1:])
    return gen.pupil_points(p) >= 9 and used, [c["which"], f"history {c['before']}"]


@PROP.law("large grids", cases(gen.large_sizes, 2, 120), 40)
def large(c):
    return coefficients(c)


@st.composite
def edge_cases(draw):
    c = draw(cases())
    c["p"] = draw(gen.hanser(edge=True, max_planes=3))
    c["m"], c["which"] = None, "phase"
    c["c"] = coefs(draw, draw(st.integers(1, 36)), 1.0)
    return c


@PROP.law("frequencies on the edge", edge_cases(), 80)
def on_edge(c):
    return coefficients(c)


@PROP.law("many modes", cases(most=120), 120)
def many_modes(c):
    return coefficients(c)


@st.composite
def named(draw):
    p = draw(gen.hanser(sizes=gen.small_sizes, max_planes=3))
    names = draw(st.lists(st.sampled_from(ref.NAMES), max_size=5, unique=True))
    return dict(
        p=p, ab=[[n, draw(st.one_of(gen.frac(-2, 2), gen.frac(-2, 2), st.integers(-2, 2), st.sampled_from(TURNS)))] for n in names],
        before=draw(st.integers(0, 5)), seed=draw(gen.seeds), many=draw(st.booleans()),
    )  # fmt: skip


@PROP.law("names", named(), 900)
def names(c):
    from pyotf.otf import apply_named_aberration, apply_named_aberrations, named_aberration_to_pcoefs

    p = c["p"]
    ab = c["ab"] if c["many"] else c["ab"][:1] or [["defocus", 0.5]]
    q = [0.0] * 15
    for name, v in ab:
        q[ref.NAMES.index(name)] += v
    expected = ref.hanser_psfa(p, pupil_of(p, [], q))
    with sut("apply_named_aberrations"):
        keep = keep_of(c)
        original = prepare(p, c["before"], c["seed"], modes_of(c))
        if c["many"]:
            given = dict(ab)
            model = apply_named_aberrations(original, given)
            require(given == dict(ab), "the caller's dictionary was changed")
        else:
            close(named_aberration_to_pcoefs(*ab[0]), np.array(q), "named_aberration_to_pcoefs", tol=1e-12)
            model = apply_named_aberration(original, *ab[0])
        compare(model, p, expected, original, keep, c["before"])
        # phase only: light is redistributed in the plane, not lost, and the peak isn't higher
        plain = gen.psf_model(p)
        close(model.PSFi.sum((1, 2)), plain.PSFi.sum((1, 2)), "light in every plane")
    return gen.pupil_points(p) >= 9 and any(q[1:]), ["many" if c["many"] else "one", f"{len(ab)} names"]


@st.composite
def followup(draw):
    c = draw(cases())
    p = c["p"]
    c["change"] = draw(st.sampled_from(("na", "wl", "vec_corr", "zrange", "pupil", "zrange in place", "results in place")))
    c["who"] = draw(st.sampled_from(("original", "aberrated")))
    c["z"] = draw(gen.zplanes(p["wl"], p["na"], p["ni"], 3))
    return c


@PROP.law("independence", followup(), 500)
def independence(c):
    """After the call, changes of the original and of the aberrated model don't touch one another."""
    from pyotf.otf import apply_aberration

    p = c["p"]
    n = p["size"]
    with sut("apply_aberration"):
        keep = keep_of(c)
        original = prepare(p, c["before"], c["seed"], modes_of(c))
        ab = apply_aberration(original, *arrays(c["m"], c["c"]))
        keep2 = np.array(ab.PSFa)
        one, other, want = (original, ab, keep2) if c["who"] == "original" else (ab, original, keep)
        if c["change"] == "na":
            one.na = 0.9 * p["na"]
        elif c["change"] == "wl":
            one.wl = p["wl"] * 1.1
        elif c["change"] == "vec_corr":
            one.vec_corr = "total" if p["vec_corr"] != "total" else "x"
        elif c["change"] == "zrange":
            one.zrange = c["z"]
        elif c["change"] == "zrange in place":
            one.zrange += one.zrange + 1
        elif c["change"] == "results in place":
            other.PSFi
            one.PSFa[...] = 1
            one.PSFi /= 2
            one.zrange[...] = 7
        else:
            one.apply_pupil(np.ones((n, n), complex))
        one.PSFi, one.OTFi
        close(other.PSFa, want, f"PSFa of the other model after {c['change']} of the {c['who']} one", tol=1e-12)
        close(other.PSFi, ref.intensity(want), "PSFi of the other model")
        close(other.zrange, ref.zrange_of(p), "zrange of the other model", tol=1e-12)
    return gen.pupil_points(p) >= 9, [c["change"], c["who"]]


@st.composite
def wrong(draw):
    kind = draw(st.sampled_from(("name", "names", "lengths", "sheppard")))
    text = st.text(alphabet="abcdefghijklmnopqrstuvwxyz TIPL0123", max_size=22)
    near = st.sampled_from([n.title() for n in ref.NAMES] + [n + " " for n in ref.NAMES] + ["spherical", "coma", "4"])
    return dict(
        kind=kind, name=draw(st.one_of(text, near).filter(lambda s: s not in ref.NAMES)),
        good=draw(st.sampled_from(ref.NAMES)), n=draw(st.integers(1, 9)), k=draw(st.integers(1, 5)),
    )  # fmt: skip


@PROP.law("refusals", wrong(), 300)
def refusals(c):
    """Unknown names, coefficients of different lengths and other kinds of models."""
    import pyotf.otf as otf

    base = dict(wl=520.0, na=0.8, ni=1.0, res=100.0, size=6, zres=200.0, zsize=4)
    model = otf.HanserPSF(**base)
    if c["kind"] == "name":
        must_raise(f"aberration {c['name']!r}", KeyError, lambda: otf.apply_named_aberration(model, c["name"], 1))
        must_raise(f"aberration {c['name']!r}", KeyError, lambda: otf.named_aberration_to_pcoefs(c["name"], 1))
    elif c["kind"] == "names":
        ab = {c["good"]: 1.0, c["name"]: 0.5}
        must_raise(f"aberrations {ab!r}", KeyError, lambda: otf.apply_named_aberrations(model, ab))
    elif c["kind"] == "lengths":
        a, b = np.ones(c["n"]), np.ones(c["n"] + c["k"])
        for m, q in ((a, b), (b, a)):
            must_raise(f"{len(m)} and {len(q)} coefficients", (AssertionError, ValueError), lambda: otf.apply_aberration(model, m, q))
    else:
        other = otf.SheppardPSF(**base)
        must_raise("a SheppardPSF", (AssertionError, TypeError), lambda: otf.apply_aberration(other, None, np.ones(c["n"])))
    return True, [c["kind"]]
