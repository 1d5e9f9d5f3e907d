"""P03: amplitude and intensity, PSF and OTF, are consistent with one another."""

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Property, array, close, require, sut

PROP = Property(
    "P03",
    "cases are random models of either class, some with a custom complex pupil, whose four results are read in a "
    "random order, some repeatedly; non-trivial: the amplitude PSF isn't constant and has at least 2 planes or "
    "polarization components",
    ["transforms are compared with explicit centred Fourier matrices, tolerance 1e-9 of the largest value"],
)  # fmt: skip

NAMES = ("PSFa", "OTFa", "PSFi", "OTFi")


@st.composite
def cases(draw, sizes=gen.small_sizes):
    if draw(st.booleans()):
        p = draw(gen.hanser(sizes=sizes, max_planes=5 if sizes is gen.small_sizes else 3))
        pupil = draw(st.one_of(st.none(), gen.seeds))
    else:
        p = draw(gen.sheppard(sizes=sizes, max_z=17))
        pupil = None
    reads = draw(st.lists(st.sampled_from(NAMES), max_size=5)) + list(draw(st.permutations(NAMES)))
    return dict(p=p, pupil=pupil, reads=reads)


@PROP.law("consistency", cases(), 2500)
def consistency(c):
    p = c["p"]
    n = p["size"]
    with sut("model"):
        model = gen.psf_model(p)
        if c["pupil"] is not None:
            # (on the whole grid, not only inside of NA)
            model.apply_pupil(gen.rng_array(c["pupil"], (n, n), "complex"))
        seen = {}
        for name in c["reads"]:
            value = getattr(model, name)
            if name in seen:
                require(np.array_equal(seen[name], value), f"{name} changed between reads")
            seen[name] = np.array(value)
    nz = p["zsize"] if "zsize" in p else len(p["zrange"])
    ncomp = {"none": 1, "total": 6}.get(p["vec_corr"], 2)
    psfa = array(seen["PSFa"], "PSFa", (ncomp, nz, n, n), "c")
    require(np.isfinite(psfa).all(), "PSFa has non-finite values")
    close(seen["OTFa"], ref.dft(psfa, (1, 2, 3)), "OTFa", kind="c")
    psfi = ref.intensity(psfa)
    close(seen["PSFi"], psfi, "PSFi", kind="f")
    require((seen["PSFi"] >= 0).all(), "PSFi is negative")
    otfi = ref.dft(psfi, (0, 1, 2))
    close(seen["OTFi"], otfi, "OTFi", kind="c")
    # being the transform of a non-negative function
    top = psfi.sum()
    dc = seen["OTFi"][nz // 2, n // 2, n // 2]
    close(dc, top, "OTFi at zero frequency")
    require(np.abs(seen["OTFi"]).max() <= top * (1 + 1e-9), "OTFi is larger than at zero frequency")
    idx = np.ix_(*[(2 * (m // 2) - np.arange(m)) % m for m in psfi.shape])
    close(seen["OTFi"][idx].conj(), seen["OTFi"], "OTFi's conjugate symmetry")
    labels = ["Hanser" if "dual" not in p else "Sheppard", "custom pupil" if c["pupil"] is not None else "plain"]
    labels += ["odd size" if n % 2 else "even size", "odd zsize" if nz % 2 else "even zsize", "first " + c["reads"][0]]
    return bool(np.ptp(np.abs(psfa)) > 0 and ncomp * nz > 1), labels


@PROP.law("large grids", cases(st.sampled_from((48, 64, 65, 96, 128))), 40)
def large(c):
    return consistency(c)


@st.composite
def deep_cases(draw):
    c = draw(cases(st.sampled_from((4, 5))))
    c["p"] = draw(gen.deep_hanser())
    return c


@PROP.law("many planes", deep_cases(), 40)
def deep(c):
    return consistency(c)


@PROP.law("focus", st.one_of(gen.hanser(min_frac=0.3), gen.sheppard(min_frac=0.3, max_z=25)), 1000)
def focus(p):
    """The brightest pixel of an unaberrated PSF is the central one: n // 2 along every axis, any parity."""
    if p["vec_corr"] == "z":
        return False, ["z only: dark centre"]
    with sut("model"):
        psfi = gen.psf_model(p).PSFi
    n = p["size"]
    z = ref.zrange_of(p)
    psfi = array(psfi, "PSFi", (len(z), n, n), "f")
    if "dual" not in p:
        # in every plane of Hanser's model as long as it is in focus
        iz = int(np.abs(z).argmin())
        if "zrange" in p and z[iz] != 0:
            return False, ["no plane in focus"]
        if "zsize" in p:
            require(iz == len(z) // 2, "the plane in focus isn't plane zsize // 2")
    else:
        iz = p["zsize"] // 2
    close(psfi[iz, n // 2, n // 2], psfi.max(), "intensity at the centre, relative to the maximum")
    return bool(np.ptp(psfi) > 1e-6 * psfi.max()), ["Hanser" if "dual" not in p else "Sheppard"]
