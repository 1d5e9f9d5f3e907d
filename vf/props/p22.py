"""P22: the Zernike decomposition of a pupil is the least squares one, and adds up."""

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Property, array, close, must_raise, require, sut

PROP = Property(
    "P22",
    "cases are results with random magnitude and phase (noise, or sums of modes) on random optics, decomposed into 1 to "
    "120 modes, and reconstructed from random slices; non-trivial: more pixels in the pupil than modes, and 2 modes",
    ["coefficients are compared with the reference's where the fit is well conditioned (below 1e4); what the fit "
     "leaves is orthogonal to the modes in any case"],
)  # fmt: skip


@st.composite
def cases(draw, large=False, edge=False):
    if edge:
        p = draw(gen.on_edge())
        k = draw(st.one_of(st.integers(1, 15), st.integers(1, 40)))
    elif large:
        p = draw(gen.optics(sizes=gen.large_sizes))
        k = draw(st.one_of(st.integers(1, 15), st.integers(1, 120)))
    elif draw(st.integers(0, 9)):
        p = draw(gen.optics(sizes=st.sampled_from((1, 2, 3, 4, 5) + 2 * (6, 7, 9, 10, 12, 13, 16, 20, 21))))
        k = draw(st.one_of(st.integers(1, 15), st.integers(1, 40)))
    else:
        p = draw(gen.optics(sizes=st.sampled_from((27, 32)), min_pupil=9))
        k = draw(st.integers(40, 120))
    part = st.one_of(st.none(), st.integers(-k - 1, k + 1))
    return dict(
        p=p, k=k, kind=draw(st.sampled_from(("noise", "modes", "modes", "holes", "half"))), seed=draw(gen.seeds),
        s=[[draw(part), draw(part)] for _ in range(2)], cut=draw(st.integers(0, k)), how=draw(st.sampled_from(("slice", "mask", "list"))),
        twice=draw(st.integers(0, 12)), scales=draw(st.sampled_from(((1.0, 1.0), (1.0, 1.0), (1e-13, 1e-13), (1e9, 1.0)))),
    )  # fmt: skip


def build(c):
    """A result made of known arrays, the modes, and the disk."""
    from pyotf.otf import HanserPSF
    from pyotf.phaseretrieval import PhaseRetrievalResult

    p = c["p"]
    kr, phi, _, _ = ref.hanser_geometry(p)
    r = kr * p["wl"] / p["na"]
    disk = r <= 1
    modes = np.array([ref.zernike_j(r, phi, j) for j in range(1, c["k"] + 1)])
    g = np.random.default_rng(c["seed"])
    if c["kind"] in ("noise", "holes", "half"):
        mag, phase = g.random(r.shape) * disk, g.standard_normal(r.shape) * disk
        truth = None
        # zeros inside of the NA count like any other value
        if c["kind"] == "holes":
            mag, phase = mag * (g.random(r.shape) < 0.7), phase * (g.random(r.shape) < 0.7)
        elif c["kind"] == "half":
            mag = mag * (phi > 0.3)
            phase = phase * (phi > 0.3) if c["seed"] % 2 else phase
    else:
        truth = g.standard_normal((2, c["k"]))
        mag, phase = np.tensordot(truth, modes, 1)
    # (faint or bright pupils, with small phases)
    scales = np.array(c["scales"])
    mag, phase = mag * scales[0], phase * scales[1]
    if truth is not None:
        truth = truth * scales[:, None]
    with sut("PhaseRetrievalResult"):
        model = HanserPSF(**p, vec_corr="none", condition="none", zsize=2)
        one = np.ones(1)
        result = PhaseRetrievalResult(mag, phase, one, one, one, model)
    return result, modes, disk, truth


@PROP.law("fit", cases(), 1500)
def fit(c):
    result, modes, disk, truth = build(c)
    k = c["k"]
    keep = result.mag.copy(), result.phase.copy()
    a = modes[:, disk].T
    with sut("fit_to_zernikes"):
        if c["twice"]:
            result.fit_to_zernikes(c["twice"])
        zd = result.fit_to_zernikes(k)
        require(result.zd_result is zd, "zd_result isn't the last decomposition")
        close(zd.zerns, modes, "modes", scale=np.abs(modes).max() or 1)
        full = zd.mag(slice(None)), zd.phase(slice(None))
        coefs = array(zd.mcoefs, "mcoefs", (k,), "f"), array(zd.pcoefs, "pcoefs", (k,), "f")
    well = len(a) >= k and np.linalg.cond(a) < 1e4
    for i, name in enumerate(("magnitude", "phase")):
        data = keep[i][disk]
        top = np.abs(data).max() or 1.0
        left = data - full[i][disk]
        scale = max(np.abs(a).max(), 1) * top * len(data)
        require(np.abs(a.T @ left).max() <= 1e-8 * scale, f"what is left of the {name} isn't orthogonal to the modes")
        close(full[i], np.tensordot(coefs[i], modes, 1), f"{name} from all modes", scale=top)
        if well:
            want = np.linalg.lstsq(a, data, rcond=None)[0] if truth is None else truth[i]
            close(coefs[i], want, f"coefficients of the {name}", tol=1e-8)
            if truth is not None:
                close(full[i], keep[i], f"{name} from all modes", tol=1e-8)
        require(np.array_equal(keep[i], (result.mag, result.phase)[i]), f"the fit changed the {name}")
    return len(a) > k > 1, [c["kind"], "well conditioned" if well else "ill conditioned"]


@PROP.law("large pupils", cases(True), 40)
def large(c):
    return fit(c)


@PROP.law("pixels on the edge", cases(edge=True), 200)
def edge(c):
    """The modes are defined on the edge, too, so pixels exactly there count."""
    return fit(c)


@PROP.law("parts add up", cases(), 900)
def parts(c):
    result, modes, disk, _ = build(c)
    k = c["k"]
    with sut("fit_to_zernikes"):
        zd = result.fit_to_zernikes(k)
        mc, pc = np.array(zd.mcoefs), np.array(zd.pcoefs)
        topm, top = [(np.abs(q).max() or 1) * max(np.abs(modes).max(), 1) * k for q in (mc, pc)]
        picks = [slice(*s) for s in c["s"]]
        if c["how"] != "slice":
            g = np.random.default_rng(c["seed"])
            picks = [np.flatnonzero(g.random(k) < 0.6) for _ in "mp"]
            if c["how"] == "mask":
                picks = [np.isin(np.arange(k), q) for q in picks]
            else:
                picks = [q.tolist() if len(q) else [0] for q in picks]
        want_m = np.tensordot(mc[picks[0]], modes[picks[0]], 1)
        want_p = np.tensordot(pc[picks[1]], modes[picks[1]], 1)
        close(zd.mag(picks[0]), want_m, f"magnitude of {picks[0]}", scale=topm)
        close(zd.phase(picks[1]), want_p, f"phase of {picks[1]}", scale=top)
        pupil = zd.complex_pupil(smag=picks[0], sphase=picks[1])
        close(pupil, want_m * np.exp(1j * want_p), "pupil", scale=topm * max(top, 1))
        both = zd.complex_pupil()
        close(both, zd.mag(slice(None)) * np.exp(1j * zd.phase(slice(None))), "pupil of all modes", scale=topm * max(top, 1))
        lo, hi = slice(None, c["cut"]), slice(c["cut"], None)
        close(zd.phase(lo) + zd.phase(hi), zd.phase(slice(None)), "phase in two parts", scale=top)
        close(zd.mag(lo) + zd.mag(hi), zd.mag(slice(None)), "magnitude in two parts", scale=topm)
        require(np.array_equal(mc, zd.mcoefs) and np.array_equal(pc, zd.pcoefs), "the coefficients changed")
    return k > 1, [c["how"]]


@PROP.law("pupil of the result", cases(), 300)
def pupil(c):
    result, _, _, _ = build(c)
    with sut("complex_pupil"):
        got = result.complex_pupil
    close(got, result.mag * np.exp(1j * result.phase), "complex_pupil", scale=np.abs(result.mag).max() or 1, kind="c")
    return bool(np.ptp(result.mag)), []


@PROP.law("refusals", st.tuples(st.integers(1, 6), st.integers(1, 6), st.integers(1, 6)).map(list), 60)
def refusals(c):
    from pyotf.phaseretrieval import ZernikeDecomposition

    a, b, n = c
    make = lambda: ZernikeDecomposition(np.ones(a), np.ones(b), np.ones((n, 3, 3)))
    if a == b == n:
        with sut("ZernikeDecomposition"):
            make()
    else:
        must_raise(f"{a} and {b} coefficients of {n} modes", (AssertionError, ValueError), make)
    return True, []
