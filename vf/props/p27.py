"""P27: the PSF of a structured illumination microscope is the detection PSF times its illumination patterns."""

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref, scopes
from ..core import Property, array, close, require, sut

PROP = Property(
    "P27",
    "cases are random 2D, 3D, lattice and general SIM microscopes: either model, random optics, oversampling, excitation "
    "NA and wavelength (given or not), one to five orientations at any angles, all of coherent, dc, dc_suppress, and "
    "the Wiener parameter None, 0 or positive; non-trivial: at least 9 frequencies inside of the pupil and 2 planes",
    [
        "cases with grid points on the rim of the pupil, or with OTF values on the package's threshold of 1e-16 when "
        "wiener is 0, are skipped",
        "cases where the effective PSF has nearly no total intensity left are skipped (it's normalized to its sum)",
    ],
)  # fmt: skip


def labels(p):
    w = p["wiener"]
    return scopes.labels(p) + [
        p["kind"],
        "wiener " + ("none" if w is None else "0" if w == 0 else "> 0"),
        "na_exc " + ("default" if p["na_exc"] is None else "given"),
        "dc suppressed" if p["dc_suppress"] else "dc",
        "zrange" if "zrange" in p else "zsize",
    ]


def check(p):
    try:
        want = scopes.reference(p)
    except scopes.Skip:
        return False, ["skipped"]
    with sut(p["kind"]):
        scope = scopes.build(p)
        # deconvolution amplifies round off
        tol = 1e-9 if not p["wiener"] or p["wiener"] > 0.05 else 1e-7
        close(scope.PSF, want, "PSF", tol=tol, kind="f")
        close(scope.OTF, ref.dft(want, (0, 1, 2)), "OTF", tol=tol, scale=np.abs(want).sum(), kind="c")
    return scopes.nontrivial(p), labels(p)


@PROP.law("2D SIM", scopes.sims(kinds=("SIM2D",), max_fine=39, zranges=True), 500)
def sim2d(p):
    return check(p)


@PROP.law("3D SIM", scopes.sims(kinds=("SIM3D",), max_fine=39, zranges=True), 500)
def sim3d(p):
    return check(p)


@PROP.law("lattice SIM", scopes.sims(kinds=("LatticeSIM",), max_fine=39, zranges=True), 400)
def lattice(p):
    return check(p)


@PROP.law("any SIM", scopes.sims(kinds=("BaseSIM",), max_fine=39, zranges=True), 600)
def any_sim(p):
    return check(p)


@PROP.law("large fields", scopes.sims(max_fine=105, max_planes=4, max_of=15), 48)
def large(p):
    return check(p)


@st.composite
def relations(draw):
    how = draw(st.sampled_from(("opposite", "order", "single", "split", "units")))
    kinds = ("BaseSIM",) if how == "single" else ("SIM2D", "SIM3D", "BaseSIM")
    p = draw(scopes.sims(kinds=kinds, max_fine=27, zranges=True))
    if how in ("single", "split"):
        p["dc_suppress"] = False
        if how == "single":
            p["orientations"] = p["orientations"][:1]
        elif p["kind"] == "BaseSIM":
            p["coherent"] = False
    return dict(p=p, how=how, order=draw(st.randoms(use_true_random=False).map(lambda r: r.getrandbits(30))))


@PROP.law("relations", relations(), 500)
def relate(c):
    """Directions have no sign, their order doesn't matter, and patterns add up."""
    p, how = dict(c["p"]), c["how"]
    q = dict(p)
    o = p["orientations"]
    try:
        if not scopes.model_psfi(p).any():  # (a Sheppard model whose cap has no voxels)
            return False, ["no light"]
    except scopes.Skip:
        return False, ["skipped"]
    with sut(p["kind"]):
        a = scopes.build(p)
        mine = array(a.model_psf, "model_psf", kind="f")
        if how == "opposite":
            q["orientations"] = [v + np.pi for v in o]
            other = scopes.build(q).model_psf
        elif how == "order":
            q["orientations"] = [o[i] for i in np.random.default_rng(c["order"]).permutation(len(o))]
            other = scopes.build(q).model_psf
        elif how == "single":
            # a single pattern has nothing else to interfere with
            q["coherent"] = not p["coherent"]
            other = scopes.build(q).model_psf
        elif how == "split":
            other = sum(np.array(scopes.build(p | dict(orientations=[v])).model_psf) for v in o)
        else:
            unit = 2.0 ** (c["order"] % 21 - 10)
            for k in ("pixel_size", "zres", "wl", "wl_exc", "zrange"):
                if q.get(k) is not None:
                    q[k] = (np.array(q[k]) * unit).tolist()
            other = scopes.build(q).model_psf
    close(other, mine, f"model_psf, {how}", tol=1e-9)
    return scopes.nontrivial(p), [how]


@st.composite
def frequencies(draw):
    p = draw(scopes.sims(kinds=("SIM2D",), max_fine=33, models=("hanser",)))
    p["wiener"], p["dc_suppress"] = None, True
    p["orientations"] = [0] if draw(st.booleans()) else [np.pi / 2]
    p["oversample_factor"] = 1
    # with a whole number of periods in the field, 2 na_exc / wl_exc is on the grid
    p["size"] = max(3, p["size"])
    cycles = draw(st.integers(1, (p["size"] - 1) // 2))
    res = p["pixel_size"] = draw(gen.frac(0.4, 0.9)) * p["wl"] / 2 / p["na"]
    p["na"] = float(gen._clear_of_edge(p["na"], p["wl"], gen.radii(p["size"], res)))
    p["wl_exc"] = p["wl"] * draw(gen.frac(0.8, 1.0))
    p["na_exc"] = cycles / (p["size"] * res) * p["wl_exc"] / 2
    return dict(p=p, cycles=cycles)


@PROP.law("pattern frequency", frequencies(), 300)
def pattern(c):
    """The OTF of 2D SIM: copies shifted by the pattern's frequency, 2 na_exc / wl_exc, with half of the weight each."""
    p = c["p"]
    if p["na_exc"] >= p["ni"]:
        return False, ["n/a"]
    try:
        psf = scopes.model_psfi(p)
    except scopes.Skip:
        return False, ["skipped"]
    otf = ref.dft(psf, (0, 1, 2))
    axis = 2 if p["orientations"] == [0] else 1
    want = otf + np.roll(otf, c["cycles"], axis) + np.roll(otf, -c["cycles"], axis)
    with sut("SIM2D"):
        got = ref.dft(scopes.build(p).model_psf, (0, 1, 2))
    close(got, want, "transform of model_psf", tol=1e-9)
    return scopes.nontrivial(p), [f"axis {axis}"]
