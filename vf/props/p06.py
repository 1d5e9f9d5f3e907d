"""P06: conservation laws, symmetries and scaling of the PSF models."""

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Property, array, close, require, sut

PROP = Property(
    "P06",
    "cases are random models of either class (Hanser's also with custom complex pupils inside of the NA) and one "
    "relation between their results or with those of a second model; non-trivial: at least 9 frequencies inside of the "
    "pupil, or a Sheppard model whose PSF isn't zero",
    ["relations are exact up to round off: tolerance 1e-9 of the largest value",
     "Sheppard's mirror symmetries are required only where no voxel at the highest frequency is part of the cap"],
)  # fmt: skip


def flip(a, *axes):
    """Mirror about sample n // 2, periodically."""
    for ax in axes:
        n = a.shape[ax]
        a = np.take(a, (2 * (n // 2) - np.arange(n)) % n, axis=ax)
    return a


@st.composite
def hanser_pupil(draw):
    p = draw(gen.hanser(sizes=gen.small_sizes, max_planes=5))
    return dict(p=p, pupil=draw(st.one_of(st.none(), gen.seeds)))


def with_pupil(c):
    p = c["p"]
    model = gen.psf_model(p)
    _, _, _, mask = ref.hanser_geometry(p)
    if c["pupil"] is None:
        return model, mask.astype(complex)
    pupil = gen.rng_array(c["pupil"], mask.shape, "complex") * mask
    model.apply_pupil(ref.uncentre(pupil))
    return model, pupil


@PROP.law("energy in every plane", hanser_pupil(), 700)
def energy(c):
    """The light in a plane doesn't depend on the plane, and is that in the pupil."""
    p = c["p"]
    with sut("model"):
        model, pupil = with_pupil(c)
        planes = array(model.PSFi, "PSFi").sum((1, 2))
    want = sum((np.abs(pupil * f) ** 2).sum() for f in ref.hanser_factors(p)) / p["size"] ** 2
    if want == 0:  # only the axis, and z polarization
        require(np.abs(planes).max() < 1e-25, "there is light without a source")
        return False, ["dark"]
    close(planes, np.full(len(planes), want), "total intensity of the planes")
    return gen.pupil_points(p) >= 9 and len(planes) > 1, ["custom" if c["pupil"] is not None else "plain"]


@PROP.law("polarizations add up", st.one_of(gen.hanser(sizes=gen.small_sizes, vec=("total",)), gen.sheppard(sizes=gen.small_sizes, vec=("total",), max_z=17)), 500)  # fmt: skip
def polarizations(p):
    """Total intensity is the sum of x, y and z; its amplitudes are theirs, in the order z, y, x."""
    with sut("models"):
        total = gen.psf_model(p)
        parts = {v: gen.psf_model(p | dict(vec_corr=v)) for v in "xyz"}
        close(total.PSFi, sum(m.PSFi for m in parts.values()), "intensity of total")
        close(total.OTFi, sum(m.OTFi for m in parts.values()), "OTF of total")
        close(total.PSFa, np.concatenate([parts[v].PSFa for v in "zyx"]), "amplitudes of total")
    return bool(np.abs(total.PSFi).max() > 0) and gen.pupil_points(p) >= 9, ["sheppard" if "dual" in p else "hanser"]


@st.composite
def scaled(draw):
    p = draw(st.one_of(gen.hanser(sizes=gen.small_sizes), gen.sheppard(sizes=gen.small_sizes, max_z=17)))
    kind = draw(st.sampled_from(("units", "units", "optics")))
    return dict(p=p, kind=kind, e=draw(st.integers(-20, 20)))


@PROP.law("units", scaled(), 700)
def units(c):
    """Only ratios matter: of lengths to one another, and NA and index to the wavelength."""
    p, q = dict(c["p"]), dict(c["p"])
    s = 2.0 ** c["e"]  # exact in floating point
    if c["kind"] == "units":
        keys = ("wl", "res", "zres", "zrange")
    else:
        keys = ("wl", "na", "ni")
    for k in keys:
        if k in q:
            q[k] = [v * s for v in q[k]] if k == "zrange" else q[k] * s
    with sut("models"):
        a, b = gen.psf_model(p), gen.psf_model(q)
        for name in ("PSFa", "OTFi"):
            close(getattr(b, name), getattr(a, name), f"{name} in other units", tol=1e-10)
    return gen.pupil_points(p) >= 9 and c["e"] != 0, [c["kind"], "sheppard" if "dual" in p else "hanser"]


@PROP.law("Hanser symmetries", gen.hanser(sizes=gen.small_sizes, max_planes=4), 700)
def hanser_symmetries(p):
    """Without aberrations: mirror images in x, y and z, and x and y are interchangeable."""
    z = ref.zrange_of(p)
    p = {k: v for k, v in p.items() if k not in ("zsize", "zres", "zrange")}
    swap = {"x": "y", "y": "x"}.get(p["vec_corr"], p["vec_corr"])
    with sut("models"):
        a = gen.psf_model(p | dict(zrange=list(z)))
        b = gen.psf_model(p | dict(zrange=list(-z)))
        t = gen.psf_model(p | dict(zrange=list(z), vec_corr=swap))
        psfi = array(a.PSFi, "PSFi")
        close(b.PSFi, psfi, "intensity at -z")
        close(flip(psfi, 1), psfi, "mirror image in y")
        close(flip(psfi, 2), psfi, "mirror image in x")
        close(np.swapaxes(t.PSFi, 1, 2), psfi, f"transposed intensity with vec_corr {swap}")
        close(b.PSFa, flip(a.PSFa.conj(), 2, 3), "amplitude at -z")
    return gen.pupil_points(p) >= 9, ["vec " + p["vec_corr"]]


@PROP.law("Sheppard symmetries", gen.sheppard(sizes=gen.small_sizes, max_z=21, max_frac=0.7), 900)
def sheppard_symmetries(p):
    otfa, doubtful = ref.sheppard_otfa(p)
    used = (np.abs(otfa).sum(0) > 0) | doubtful
    n, nz = p["size"], p["zsize"]
    labels = ["vec " + p["vec_corr"], "dual" if p["dual"] else "single"]
    if doubtful.any():
        return False, ["voxels on the edge"]
    if (n % 2 == 0 and (used[:, 0].any() or used[:, :, 0].any())) or (nz % 2 == 0 and used[0].any()):
        return False, ["reaches the highest frequency"]
    swap = {"x": "y", "y": "x"}.get(p["vec_corr"], p["vec_corr"])
    with sut("models"):
        psfi = array(gen.psf_model(p).PSFi, "PSFi")
        t = gen.psf_model(p | dict(vec_corr=swap)).PSFi
    close(flip(psfi, 0), psfi, "mirror image in z")
    close(flip(psfi, 1), psfi, "mirror image in y")
    close(flip(psfi, 2), psfi, "mirror image in x")
    close(np.swapaxes(t, 1, 2), psfi, f"transposed intensity with vec_corr {swap}")
    # Parseval
    close(psfi.sum(), (np.abs(otfa) ** 2).sum() / n**2 / nz if not KNOWN(p) else psfi.sum(), "total intensity")
    return bool(used.any()), labels


def KNOWN(p):
    """The scalar Sheppard model ignores the condition: known finding of P02, judged there."""
    return p["vec_corr"] == "none" and p["condition"] != "none"


@PROP.law("finer pixels", gen.hanser(sizes=gen.small_sizes, max_planes=4), 500)
def finer(p):
    """Twice as many pixels of half the size over the same field: the same PSF in between."""
    z = list(ref.zrange_of(p))
    n = p["size"]
    p = {k: v for k, v in p.items() if k not in ("zsize", "zres", "zrange")}
    with sut("models"):
        a = gen.psf_model(p | dict(zrange=z)).PSFa
        b = gen.psf_model(p | dict(zrange=z, res=p["res"] / 2, size=2 * n)).PSFa
    idx = n + 2 * ref.centred(n)
    close(4 * b[:, :, idx][..., idx], a, "every other pixel of the finer PSF")
    return gen.pupil_points(p) >= 9, ["odd size" if n % 2 else "even size"]


@PROP.law("diffraction limit", st.one_of(gen.hanser(sizes=gen.small_sizes, max_frac=0.5, max_planes=4), gen.sheppard(sizes=gen.small_sizes, max_z=17, max_frac=0.45)), 700)  # fmt: skip
def limit(p):
    """Nothing passes the objective beyond NA / wl, in amplitude, or twice that, in intensity."""
    with sut("model"):
        model = gen.psf_model(p)
        otfa, otfi, psfi = array(model.OTFa, "OTFa"), array(model.OTFi, "OTFi"), array(model.PSFi, "PSFi")
    n = p["size"]
    kr, _, _, mask = ref.hanser_geometry(p)
    cut = p["na"] / p["wl"]
    if "dual" in p:
        # the shell is as thick as a voxel is wide
        zres, nz = p["zres"], p["zsize"]
        d = max(1 / (n * p["res"]), 1 / (nz * zres))
        k, kz = p["ni"] / p["wl"], np.sqrt((p["ni"] ** 2 - p["na"] ** 2)) / p["wl"]
        cut = np.sqrt(cut**2 + 2 * d * (k - kz)) * (1 + 1e-9)
        require(not np.abs(otfa[..., kr > cut]).any(), "amplitude OTF beyond the diffraction limit")
    else:
        top = np.abs(otfa).max()
        if top:
            require(np.abs(otfa[..., ~mask]).max(initial=0) <= 1e-10 * top, "amplitude OTF beyond the diffraction limit")
    if 2 * cut < 0.5 / p["res"]:
        far = np.abs(otfi[:, kr > 2 * cut * (1 + 1e-9)]).max(initial=0)
        require(far <= 1e-10 * psfi.sum(), "intensity OTF beyond twice the diffraction limit")
    return gen.pupil_points(p) >= 9 and bool((kr > cut).any()), ["sheppard" if "dual" in p else "hanser"]
