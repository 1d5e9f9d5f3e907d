"""P26: the confocal PSF is the excitation's times the emission's as seen through the pinhole."""

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref, scopes
from ..core import Property, array, close, require, sut

PROP = Property(
    "P26",
    "cases are random confocal microscopes: either model, random optics, oversampling, excitation wavelength and pinhole "
    "(none, sub-pixel, around 1.5 pixels, up to beyond the whole field); non-trivial: at least 9 frequencies inside of "
    "the pupil, 2 planes, and a pinhole of more than 1.5 pixels in radius or a different excitation wavelength",
    [
        "a pinhole with a radius of at most 1.5 pixels of the fine grid is a point, by the package's design",
        "cases with grid points on the rim of the pinhole or of a pupil to within 1e-9 are skipped",
    ],
)  # fmt: skip


def nontrivial(p):
    return scopes.nontrivial(p) and (scopes.pinhole_radius(p) > 1.5 or p["wl_exc"] != p["wl"])


def size_label(p):
    r = scopes.pinhole_radius(p)
    n = p["size"] * p["oversample_factor"]
    return "point" if r <= 1.5 else "disk" if r < n / 2 else "disk as large as the field"


@PROP.law("PSF", scopes.confocals(max_fine=45, zranges=True), 1200)
def psf_law(p):
    try:
        want = scopes.reference(p)
    except scopes.Skip:
        return False, ["skipped"]
    with sut("ConfocalMicroscope"):
        scope = scopes.build(p)
        close(scope.PSF, want, "PSF", kind="f")
        close(scope.OTF, ref.dft(want, (0, 1, 2)), "OTF", kind="c")
        require(scope.wl_exc == p["wl_exc"], f"wl_exc is {scope.wl_exc!r}")
        require(scope.pinhole_size == p["pinhole_size"], f"pinhole_size is {scope.pinhole_size!r}")
    return nontrivial(p), scopes.labels(p) + [size_label(p)]


@PROP.law("PSF of large fields", scopes.confocals(max_fine=128, max_planes=4, max_of=15), 48)
def large(p):
    return psf_law(p)


@PROP.law("factors", scopes.confocals(max_fine=33), 500)
def factors(p):
    """model_psf: emission PSF through the pinhole times excitation PSF, both of the same objective."""
    p = {k: v for k, v in p.items()}
    try:
        want = scopes.confocal(p)
    except scopes.Skip:
        return False, ["skipped"]
    with sut("ConfocalMicroscope"):
        scope = scopes.build(p)
        got = scope.model_psf
        close(got, want, "model_psf", kind="f")
        require(scope.model.wl == p["wl"], "the emission wavelength changed")
    return nontrivial(p), [size_label(p)]


@st.composite
def pinholes(draw):
    p = draw(scopes.confocals(max_fine=33, models=("hanser",)))
    p["zsize"] = max(3, p.get("zsize", p["size"]))
    return dict(p=p, a=draw(gen.frac(0, 3)), b=draw(gen.frac(0, 3)))


@PROP.law("limits", pinholes(), 300)
def limits(c):
    """No pinhole diameter: product of the PSFs. One beyond the field: only the excitation sections."""
    p = c["p"]
    try:
        em, ex = scopes.model_psfi(p), scopes.model_psfi(p, scopes.fine(p) | dict(wl=p["wl_exc"]))
        closed = scopes.pixelate(p, em * ex)
        opened = scopes.pixelate(p, ex)
    except scopes.Skip:
        return False, ["skipped"]
    with sut("ConfocalMicroscope"):
        scope = scopes.build(p | dict(pinhole_size=0))
        close(scope.PSF, closed, "PSF without a pinhole")
        n = p["size"] * p["oversample_factor"]
        per_pixel = scopes.pinhole_radius(p | dict(pinhole_size=1.0))
        scope.pinhole_size = 1.6 * n / per_pixel
        close(scope.PSF, opened, "PSF with the pinhole open")
    return scopes.nontrivial(p), [f"x{p['oversample_factor']}"]
