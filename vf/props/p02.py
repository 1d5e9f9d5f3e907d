"""P02: the Sheppard OTF is the NA-limited, weighted cap of the Ewald sphere."""

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Known, Property, Violation, array, close, require, sut

PROP = Property(
    "P02",
    "cases are random optical settings with zres below wl/(2 ni), even and odd sizes, cubic and anisotropic grids, "
    "single and dual objectives, all conditions and polarization options; non-trivial: the cap has at least 9 voxels",
    ["voxels within 1e-9 of the shell's limits are not compared (round off decides about them)",
     "the shell is one voxel thick on either side, as the package documents by construction (valid_points)"],
)  # fmt: skip

KEY = "sheppard-scalar-condition"


def labels(p):
    return [
        "vec " + p["vec_corr"],
        "condition " + p["condition"],
        "dual" if p.get("dual") else "single",
        "odd size" if p["size"] % 2 else "even size",
        "odd zsize" if p["zsize"] % 2 else "even zsize",
    ]


EXPLICIT = [
    dict(wl=520.0, na=1.1, ni=1.33, res=110.0, size=16, zres=120.0, zsize=16, vec_corr="none", condition=c, dual=False)
    for c in ("none", "sine", "herschel")
]


@PROP.law("amplitude OTF", gen.sheppard(max_z=25), 900, explicit=EXPLICIT)
def otfa_law(p):
    expected, doubtful = ref.sheppard_otfa(p)
    with sut("SheppardPSF"):
        model = gen.psf_model(p)
        otfa = model.OTFa
    otfa = array(otfa, "OTFa", expected.shape, "c")
    sure = ~doubtful
    nontrivial = int((expected[:, sure] != 0).any(0).sum()) >= 9
    try:
        close(otfa[:, sure], expected[:, sure], "OTFa")
    except Violation as v:
        if p["vec_corr"] == "none" and p["condition"] != "none":
            plain, _ = ref.sheppard_otfa(dict(p, condition="none"))
            try:
                close(otfa[:, sure], plain[:, sure], "OTFa")
            except Violation:
                raise v from None
            raise Known(KEY, "OTFa is that of condition='none'") from None
        raise
    return nontrivial, labels(p)


@st.composite
def on_limits(draw):
    """Cubic grids, and spheres with voxels exactly on the limits of the cap, in numbers without any round off."""
    n, (na, _, ni) = draw(st.sampled_from(((16, (3, 4, 5)), (32, (3, 4, 5)), (32, (6, 8, 10)), (32, (5, 12, 13)))))
    per_wl = draw(st.sampled_from((2, 4)))
    unit = 2.0 ** draw(st.integers(-3, 8))
    p = dict(wl=per_wl * unit, na=per_wl * na / n, ni=per_wl * ni / n, res=unit, size=n, zres=unit, zsize=n)
    vec = draw(st.sampled_from(gen.VEC))
    return p | dict(vec_corr=vec, condition=draw(st.sampled_from(gen.COND)) if vec != "none" else "none", dual=draw(st.booleans()))


@PROP.law("voxels on the limits", on_limits(), 40)
def limits(p):
    """The limits themselves aren't part of the shell."""
    expected, doubtful = ref.sheppard_otfa(p)
    with sut("SheppardPSF"):
        close(gen.psf_model(p).OTFa, expected, "OTFa", kind="c")
    return bool(doubtful.any()), labels(p)


LARGE = gen.sheppard(sizes=st.sampled_from((48, 64, 65, 80, 96, 128)), vec=("none", "none", "x", "z"), max_z=65)


@PROP.law("large grids", LARGE, 24)
def large(p):
    return otfa_law(p)


@PROP.law("amplitude PSF", gen.sheppard(max_z=21, sizes=gen.small_sizes), 500)
def psfa_law(p):
    """PSFa is the centred inverse transform of the amplitude OTF, and PSFi its intensity."""
    with sut("SheppardPSF"):
        a, b = gen.psf_model(p), gen.psf_model(p)
        psfa, psfi, otfa = b.PSFa, b.PSFi, a.OTFa
    ncomp = {"none": 1, "total": 6}.get(p["vec_corr"], 2)
    otfa = array(otfa, "OTFa", (ncomp, p["zsize"], p["size"], p["size"]), "c")
    expected = ref.dft(otfa, (1, 2, 3), inverse=True)
    close(psfa, expected, "PSFa", kind="c")
    close(psfi, ref.intensity(expected), "PSFi", kind="f")
    return bool((otfa != 0).sum() >= 9), labels(p)


@PROP.law("support", gen.sheppard(max_z=33), 300)
def support(p):
    """Wherever the amplitude OTF isn't zero: on the Ewald sphere and inside of the objective's cone."""
    with sut("SheppardPSF"):
        otfa = gen.psf_model(p).OTFa
    n, nz = p["size"], p["zsize"]
    otfa = array(otfa, "OTFa", ({"none": 1, "total": 6}.get(p["vec_corr"], 2), nz, n, n), "c")
    require(np.isfinite(otfa).all(), "OTFa has non-finite values")
    k, kz = ref.freqs(n, p["res"]), ref.freqs(nz, p["zres"])
    dk, dkz = 1 / (n * p["res"]), 1 / (nz * p["zres"])
    on = (otfa != 0).any(0)
    iz, iy, ix = np.nonzero(on)
    r = np.sqrt(kz[iz] ** 2 + k[iy] ** 2 + k[ix] ** 2)
    kmag = p["ni"] / p["wl"]
    voxel = max(dk, dkz)
    require((np.abs(r - kmag) <= voxel * (1 + 1e-6)).all(), "OTFa isn't zero off the Ewald sphere")
    lim = np.sqrt(kmag**2 - (p["na"] / p["wl"]) ** 2)
    kzz = np.abs(kz[iz]) if p["dual"] else kz[iz]
    require((kzz >= lim * (1 - 1e-9)).all(), "OTFa isn't zero outside of the objective's cone")
    if p["dual"]:
        # every voxel has its mirror image, when that is on the grid
        full = set(zip(iz.tolist(), iy.tolist(), ix.tolist()))
        for z, y, x in full:
            zm = 2 * (nz // 2) - z
            if 0 <= zm < nz:
                require((zm, y, x) in full, "the two caps of dual objectives differ")
    return len(iz) >= 9, labels(p)


@st.composite
def defaults(draw):
    p = draw(gen.optics(sizes=st.sampled_from((14, 15, 16, 20, 21, 24, 25)), min_sin=0.7, max_sin=0.95, max_frac=0.9))
    p["res"] = min(p["res"], 0.9 * p["wl"] / (2 * p["ni"]))
    if draw(st.booleans()):
        p["zres"] = draw(gen.frac(0.1, 0.97)) * p["wl"] / (2 * p["ni"])
    if draw(st.booleans()):
        p["zsize"] = draw(st.integers(2, 16))
    p["vec_corr"] = draw(st.sampled_from(("x", "y", "z", "total")))
    if draw(st.booleans()):
        p["condition"] = draw(st.sampled_from(gen.COND))
    return p


@PROP.law("defaults", defaults(), 200)
def defaults_law(p):
    """Omitted options: zres is res, zsize is size, sine condition, one objective; positional order."""
    from pyotf.otf import SheppardPSF

    full = dict(p)
    full.setdefault("zsize", p["size"])
    full.setdefault("zres", p["res"])
    expected, doubtful = ref.sheppard_otfa(full)
    kw = dict(p)
    args = [kw.pop(k) for k in ("wl", "na", "ni", "res", "size")]
    with sut("SheppardPSF"):
        otfa = SheppardPSF(*args, **kw).OTFa
    otfa = array(otfa, "OTFa", expected.shape, "c")
    close(otfa[:, ~doubtful], expected[:, ~doubtful], "OTFa")
    return bool((expected != 0).sum() >= 9), [f"{len(p) - 5} options given"]
