"""P01: the Hanser PSF is the diffraction integral over the pupil."""

from hypothesis import strategies as st

from .. import gen, ref
from ..core import Property, close, sut

PROP = Property(
    "P01",
    "cases are random optical settings (units, NA, index, pixel size below the Abbe limit, even and odd sizes, "
    "planes from zsize/zres or an arbitrary zrange, all conditions and polarization options); non-trivial: at "
    "least 9 grid frequencies inside of the pupil",
    ["NA is nudged by parts per million when a grid frequency lies on the pupil's edge to within 1e-7, except where it is "
     "exactly on the edge, in numbers that can't be rounded",
     "the reference is a direct (matrix) Fourier sum in double precision, tolerance 1e-9 of the largest amplitude"],
)  # fmt: skip


def labels(p):
    return [
        "vec " + p["vec_corr"],
        "condition " + p["condition"],
        "zrange given" if "zrange" in p else "zsize/zres",
        "odd size" if p["size"] % 2 else "even size",
        "beyond Nyquist" if p["res"] > p["wl"] / p["na"] / 4 else "within Nyquist",
    ]


@PROP.law("amplitude", gen.hanser(), 1600)
def amplitude(p):
    expected = ref.hanser_psfa(p)
    with sut("HanserPSF"):
        model = gen.psf_model(p)
        psfa, psfi = model.PSFa, model.PSFi
    close(psfa, expected, "PSFa", kind="c")
    close(psfi, ref.intensity(expected), "PSFi", kind="f")
    return gen.pupil_points(p) >= 9, labels(p)


@PROP.law("large grids", gen.hanser(sizes=st.sampled_from(gen.LARGE), max_planes=1), 40)
def large(p):
    return amplitude(p)


@PROP.law("frequencies on the edge", gen.hanser(edge=True), 120)
def edge(p):
    """Frequencies of exactly NA / wavelength don't pass."""
    return amplitude(p)


@PROP.law("many planes", gen.deep_hanser(), 48)
def deep(p):
    return amplitude(p)


@st.composite
def defaults(draw):
    p = draw(gen.optics(sizes=gen.small_sizes))
    for key, s in dict(
        zres=gen.frac(0.05, 2).map(lambda v: v * p["wl"]), zsize=st.integers(1, 12), vec_corr=st.sampled_from(gen.VEC),
        condition=st.sampled_from(gen.COND),
    ).items():  # fmt: skip
        if draw(st.booleans()):
            p[key] = draw(s)
    return p


@PROP.law("defaults", defaults(), 400)
def defaults_law(p):
    """Omitted options: zres is res, zsize is size, no vectorial effects, sine condition; positional order."""
    from pyotf.otf import HanserPSF

    expected = ref.hanser_psfa(p)
    kw = dict(p)
    args = [kw.pop(k) for k in ("wl", "na", "ni", "res", "size")]
    with sut("HanserPSF"):
        model = HanserPSF(*args, **kw)
        psfa = model.PSFa
    close(psfa, expected, "PSFa")
    return gen.pupil_points(p) >= 9, [f"{len(p) - 5} options given"]


@st.composite
def huge_cases(draw):
    """More than 64 MB of amplitudes."""
    n = draw(st.sampled_from((128, 135, 144)))
    p = draw(gen.hanser(sizes=st.just(n), max_planes=1))
    for k in ("zrange", "zsize", "zres"):
        p.pop(k, None)
    many = -(-(70 << 20) // (16 * n * n * len(ref.hanser_factors(p))))
    if draw(st.booleans()):
        p["zrange"] = [0.05 * p["wl"] * (i - many // 3) for i in range(many)]
    else:
        p["zres"], p["zsize"] = 0.05 * p["wl"], many
    return dict(p=p, at=[0, many - 1, draw(st.integers(0, many - 1))])


@PROP.law("huge stacks", huge_cases(), 3)
def huge(c):
    p, at = c["p"], c["at"]
    z = ref.zrange_of(p)
    expected = ref.hanser_psfa(p | dict(zrange=[z[i] for i in at]))
    with sut("HanserPSF"):
        model = gen.psf_model(p)
        psfa, psfi = model.PSFa, model.PSFi
    close(psfa[:, at], expected, "PSFa", kind="c")
    close(psfi[at], ref.intensity(expected), "PSFi", kind="f")
    return True, labels(p)
