"""P28: the Apotome's PSF is the wide field's with each plane weighted by its response at half of the cut-off."""

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref, scopes
from ..core import Property, array, close, require, sut

PROP = Property(
    "P28",
    "cases are random Apotome microscopes: either model, random optics, units, sizes, planes and oversampling; "
    "non-trivial: at least 9 frequencies inside of the pupil and 2 planes",
    [
        "the response is read off at the grid frequency nearest to the cut-off, halved and rounded down, as the package "
        "does; cases with a tie are skipped",
        "it's the average over the ring of that radius, one frequency wide",
    ],
)  # fmt: skip


@PROP.law("PSF", scopes.apotomes(zranges=True), 1200)
def psf_law(p):
    try:
        want = scopes.reference(p)
    except scopes.Skip:
        return False, ["skipped"]
    with sut("ApotomeMicroscope"):
        scope = scopes.build(p)
        close(scope.PSF, want, "PSF", kind="f")
        close(scope.OTF, ref.dft(want, (0, 1, 2)), "OTF", kind="c")
    return scopes.nontrivial(p), scopes.labels(p)


@PROP.law("PSF of large fields", scopes.apotomes(max_fine=128, max_planes=4, max_of=15), 48)
def large(p):
    return psf_law(p)


@PROP.law("sections", scopes.apotomes(max_fine=45, models=("hanser",)), 400)
def sections(p):
    """Every plane is the wide field's plane, times a number, for scalar light one of at most that of the focal plane."""
    try:
        scopes.apotome(p)
    except scopes.Skip:
        return False, ["skipped"]
    with sut("microscopes"):
        psf = array(scopes.build(p).PSF, "PSF", kind="f")
        wide = array(scopes.build(p | dict(kind="Widefield")).PSF, "PSF", kind="f")
    require(psf.shape == wide.shape, f"PSF has the shape {psf.shape}")
    require(np.isfinite(psf).all(), "the PSF isn't finite")
    w = (psf * wide).sum((1, 2)) / (wide**2).sum((1, 2))
    close(psf, w[:, None, None] * wide, "planes, in terms of the wide field's")
    focus = len(w) // 2
    require((w >= 0).all(), "a plane has a negative weight")
    if p.get("vec_corr", "none") == "none":
        # where all amplitudes are positive in focus
        require((w <= w[focus] * (1 + 1e-9)).all(), f"the weights {w.tolist()} aren't largest in focus")
    # in and out of focus are alike on both sides
    m = min(focus, len(w) - 1 - focus)
    close(w[focus - m : focus + m + 1][::-1], w[focus - m : focus + m + 1], "weights mirrored in z", scale=w.max())
    return scopes.nontrivial(p), scopes.labels(p)
