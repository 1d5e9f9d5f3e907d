"""P25: the wide field microscope's PSF is the model's, summed over centred camera pixels, with unit sum."""

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref, scopes
from ..core import Property, array, close, must_raise, require, sut

PROP = Property(
    "P25",
    "cases are random wide field microscopes: either model, random optics and units, even and odd sizes, oversampling "
    "by 1, 3, 5 or 7, with or without zres, zsize, vec_corr and condition, fine grids of up to 105 pixels; "
    "non-trivial: at least 9 frequencies inside of the pupil and 2 planes",
    ["oversampling is odd, as the package demands", "cases on the edge of the pupil or shell to within 1e-9 are skipped"],
)  # fmt: skip


@PROP.law("PSF", scopes.widefields(zranges=True), 1200)
def psf_law(p):
    try:
        want = scopes.reference(p)
    except scopes.Skip:
        return False, ["skipped"]
    with sut("WidefieldMicroscope"):
        scope = scopes.build(p)
        close(scope.PSF, want, "PSF", kind="f")
        close(scope.OTF, ref.dft(want, (0, 1, 2)), "OTF", kind="c")
    return scopes.nontrivial(p), scopes.labels(p)


@PROP.law("PSF of large fields", scopes.widefields(max_fine=150, max_planes=5, max_of=15), 120)
def large(p):
    return psf_law(p)


@PROP.law("model PSF", scopes.widefields(), 300)
def model_psf(p):
    """model_psf is the model's intensity on the fine grid."""
    try:
        want = scopes.model_psfi(p)
        binned = scopes.pixelate(p, want)
    except scopes.Skip:
        return False, ["skipped"]
    with sut("WidefieldMicroscope"):
        scope = scopes.build(p)
        close(scope.model_psf, want, "model_psf", kind="f")
        scope.OTF
        close(scope.model_psf, want, "model_psf after PSF and OTF were calculated", kind="f")
        close(scope.model.PSFi, want, "the model's PSFi after PSF and OTF were calculated", kind="f")
        close(scope.PSF, binned, "PSF after model_psf", kind="f")
    return scopes.nontrivial(p), scopes.labels(p)


@PROP.law("OTF", scopes.any_scope(max_fine=33), 500)
def otf_law(p):
    """The OTF is the centred transform of the PSF: 1 at the origin, Hermitian; and the PSF has unit sum."""
    with sut(p["kind"]):
        scope = scopes.build(p)
        psf = array(scope.PSF, "PSF", kind="f")
        if np.isnan(psf).all():
            return False, ["dark"]
        otf = scope.OTF
    q = scopes.fine(p)
    require(psf.shape == (q["zsize"], p["size"], p["size"]), f"PSF has the shape {psf.shape}")
    scale = np.abs(psf).sum()
    require(abs(psf.sum() - 1) < 1e-9 * scale, f"the PSF's sum is {psf.sum()!r}")
    close(otf, ref.dft(psf, (0, 1, 2)), "OTF", scale=scale, kind="c")
    centre = tuple(n // 2 for n in psf.shape)
    require(abs(otf[centre] - 1) < 1e-9 * scale, f"the OTF at zero frequency is {otf[centre]!r}")
    return scopes.nontrivial(p), [p["kind"]]


@st.composite
def wrong(draw):
    p = draw(scopes.any_scope(max_fine=15, max_planes=3))
    name = draw(st.sampled_from(("gaussian", "", "hanserpsf", "hanse", " hanser", "Sheppard3D", "gibson", "scalar")))
    return dict(p=p, name=name, of=draw(st.sampled_from((2, 4, 6, -1, -3))))


@PROP.law("choice of the model", wrong(), 150)
def choice(c):
    p = c["p"]
    must_raise(f"model={c['name']!r}", ValueError, lambda: scopes.build(p | dict(model=c["name"])))
    must_raise(
        f"oversample_factor={c['of']}", (ValueError, AssertionError),
        lambda: scopes.build(p | dict(oversample_factor=c["of"])),
    )  # fmt: skip
    with sut("microscope"):
        a, b = scopes.build(p), scopes.build(p | dict(model=p["model"].swapcase()))
        same = np.array_equal(a.PSF, b.PSF, equal_nan=True)
    require(same, "the case of the model's name makes a difference")
    return True, [p["kind"]]


@st.composite
def finer(draw):
    p = draw(scopes.widefields(max_fine=21, max_of=1, models=("hanser",)))
    p["size"] = draw(st.sampled_from((5, 6, 7, 8, 9, 10, 11)))
    p["oversample_factor"] = draw(st.sampled_from((3, 5, 7)))
    p["pixel_size"] *= draw(st.sampled_from((1, p["oversample_factor"])))
    return p


@PROP.law("mirror symmetry", finer(), 250)
def symmetry(p):
    """However sampled, the PSF is centred: mirror images about pixel size // 2 are the same (except for an even edge)."""
    with sut("WidefieldMicroscope"):
        psf = array(scopes.build(p).PSF, "PSF")
    if np.isnan(psf).all():
        return False, ["dark"]
    m = 1 - p["size"] % 2
    inner = psf[:, m:, m:]
    close(inner[:, ::-1], inner, "mirror image in y", scale=psf.max())
    close(inner[:, :, ::-1], inner, "mirror image in x", scale=psf.max())
    return scopes.nontrivial(p), scopes.labels(p)
