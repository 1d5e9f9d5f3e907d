"""P20: from perfect data, phase retrieval finds the pupil that made it."""

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Property, array, close, require, sut

PROP = Property(
    "P20",
    "cases are random optics (pupil of at least 5 frequencies in radius, 6 to 11 planes spanning several depths of "
    "field), a pupil with up to 0.6 rad rms of the modes 5 to 15 and a magnitude within 10 % of even, its noise-free "
    "PSF computed by the reference, and up to 300 iterations; "
    "for unwrapping, larger aberrations and tilts, and any number of iterations; non-trivial: an aberration of at "
    "least 0.05 rad rms, or a smooth pupil with a phase that spans more than 2 pi",
    ["calibrated on 500 random cases, all of which came to within 1e-10; required is 1e-6",
     "the pupil is compared up to a constant phase, which leaves no trace in the data"],
)  # fmt: skip


@st.composite
def cases(draw):
    ni = draw(gen.frac(1.0, 1.5))
    na, wl = ni * draw(gen.frac(0.4, 0.95)), draw(gen.frac(400, 700)) * draw(st.sampled_from((1, 1e-3, 1e-6)))
    dof = wl / (ni - np.sqrt(ni**2 - na**2))
    size = draw(st.sampled_from((16, 17, 20, 21, 24, 27)))
    p = dict(wl=wl, na=na, ni=ni, res=draw(gen.frac(0.6, 0.9)) * wl / 2 / na, size=size)
    p["na"] = float(gen._clear_of_edge(na, wl, gen.radii(size, p["res"])))
    nz, dz = draw(st.integers(6, 11)), draw(gen.frac(0.3, 0.65)) * dof
    p["zrange"] = [float(v) for v in ref.centred(nz) * dz]
    how = draw(st.sampled_from(("zrange", "zres", "shuffled")))
    if how == "zres":
        del p["zrange"]
        p["zres"], p["zsize"] = dz, nz
    elif how == "shuffled":
        p["zrange"] = list(draw(st.permutations(p["zrange"])))
    return dict(
        p=p, seed=draw(gen.seeds), rms=draw(gen.frac(0.05, 0.6)), mag=draw(gen.frac(-0.1, 0.1)),
        phase_only=draw(st.booleans()), how=how,
    )  # fmt: skip


def scene(c):
    p = c["p"] | dict(vec_corr="none", condition="none")
    kr, phi, _, mask = ref.hanser_geometry(p)
    r = kr * p["wl"] / p["na"]
    co = np.random.default_rng(c["seed"]).standard_normal(11)
    co *= c["rms"] / np.sqrt((co**2).sum())
    phase = sum(v * ref.zernike_j(r, phi, j) for j, v in zip(range(5, 16), co))
    mag = mask * (1 + (0 if c["phase_only"] else c["mag"]) * ref.zernike_j(r, phi, 4))
    pupil = mag * np.exp(1j * phase)
    return ref.intensity(ref.hanser_psfa(p, pupil)), pupil, mask, co


#: the undefined phase outside of the pupil led the unwrapping astray
ASTRAY = dict(
    how="zrange", mag=-0.09996051788330079, phase_only=False, rms=0.16521992683410644, seed=1421,
    p=dict(
        na=0.9271169500342467, ni=1.1730351448059082, res=141.05856768003042, size=24, wl=400.0340461730957,
        zrange=[-1051.7443312217927, -701.1628874811951, -350.58144374059754, 0.0, 350.58144374059754, 701.1628874811951],
    ),
)  # fmt: skip


@PROP.law("recovery", cases(), 240, thorough=8000, explicit=[ASTRAY])
def recovery(c):
    from pyotf.phaseretrieval import retrieve_phase

    p = c["p"]
    data, pupil, mask, co = scene(c)
    params = {k: v for k, v in p.items() if k not in ("size", "zsize")}
    with sut("retrieve_phase"):
        result = retrieve_phase(data, params, 300, 0, 0, c["phase_only"])
        got = array(result.complex_pupil, "pupil", mask.shape)
        piston = (got * pupil.conj()).sum()
        got = got * np.abs(piston) / piston
        close(got, pupil, "retrieved pupil", tol=1e-6)
        zd = result.fit_to_zernikes(15)
        close(zd.pcoefs[4:], co, "phase coefficients of the modes 5 to 15", tol=1e-6, scale=1)
        want = np.zeros(15)
        want[0], want[3] = 1, 0 if c["phase_only"] else c["mag"]
        close(zd.mcoefs, want, "magnitude coefficients", tol=1e-6)
        close(result.generate_psf(), data, "PSF of the retrieved pupil", tol=1e-5)
        close(result.generate_zd_psf(), data, "PSF of the fitted modes", tol=1e-5)
        require(result.mse[-1] <= 1e-9 * result.mse[0], f"mse went from {result.mse[0]} to {result.mse[-1]}")
    return c["rms"] >= 0.05, [c["how"], "phase only" if c["phase_only"] else "both"]


@st.composite
def smooth(draw):
    c = draw(cases())
    p = c["p"]
    if c["how"] != "zres":
        # the size is free to change
        p["size"] = draw(st.sampled_from((24, 25, 27, 32)))
        p["na"] = float(gen._clear_of_edge(p["na"], p["wl"], gen.radii(p["size"], p["res"])))
    c["iters"] = draw(st.integers(1, 60))
    c["tilt"] = [draw(gen.frac(-4, 4)), draw(gen.frac(-4, 4))]
    c["rms"] = draw(gen.frac(0.05, 1.5))
    if draw(st.integers(0, 2)) == 0:
        # a pupil that reaches the edges of the grid, with about whole turns of phase from edge to edge
        f = draw(gen.frac(0.93, 0.995))
        p["res"] = f * p["wl"] / 2 / p["na"]
        p["na"] = float(gen._clear_of_edge(p["na"], p["wl"], gen.radii(p["size"], p["res"])))
        turns = draw(st.lists(st.integers(-2, 2), min_size=2, max_size=2))
        c["tilt"] = [t * np.pi / 2 * f * draw(st.sampled_from((1, 1, 0.95))) for t in turns]
        c["rms"] = draw(gen.frac(0.01, 0.5))
        c["edge"] = True
    return c


def wrap(x):
    return (x + np.pi) % (2 * np.pi) - np.pi


@PROP.law("unwrapped", smooth(), 320, thorough=12000)
def unwrapped(c):
    """Where the retrieved pupil is smooth, so is its phase: no steps of 2 pi, whatever its range."""
    from pyotf.phaseretrieval import retrieve_phase

    p = c["p"]
    q = p | dict(vec_corr="none", condition="none")
    kr, phi, _, mask = ref.hanser_geometry(q)
    _, pupil, _, _ = scene(c)
    r = kr * p["wl"] / p["na"]
    pupil = pupil * np.exp(1j * sum(a * ref.zernike_j(r, phi, j) for a, j in zip(c["tilt"], (2, 3))))
    data = ref.intensity(ref.hanser_psfa(q, pupil))
    params = {k: v for k, v in p.items() if k not in ("size", "zsize")}
    with sut("retrieve_phase"):
        result = retrieve_phase(data, params, c["iters"], 0, 0, c["phase_only"])
        pupil, phase = array(result.complex_pupil, "pupil", mask.shape), array(result.phase, "phase", mask.shape, "f")
    require(np.isfinite(phase).all(), "the phase isn't finite")
    require(not phase[~mask].any(), "there's phase outside of the pupil")
    # the phase differences of the neighbours, from the pupil itself
    wrapped = np.angle(pupil)
    pairs = [mask[1:] & mask[:-1], mask[:, 1:] & mask[:, :-1]]
    want = [np.where(pairs[0], wrap(np.diff(wrapped, axis=0)), 0), np.where(pairs[1], wrap(np.diff(wrapped, axis=1)), 0)]
    loops = want[0][:, :-1] + want[1][1:] - want[0][:, 1:] - want[1][:-1]
    loops = loops[pairs[0][:, :-1] & pairs[0][:, 1:]]
    amp = np.abs(pupil[mask])
    smooth = np.abs(loops).max(initial=0) < 1 and max(np.abs(w).max() for w in want) < 3 and amp.min() > 1e-6 * amp.max()
    if not smooth:
        return False, ["not smooth"]
    for d, w, m in zip((np.diff(phase, axis=0), np.diff(phase, axis=1)), want, pairs):
        close(np.where(m, d, 0), w, "phase differences of neighbours", tol=1e-6, scale=1)
    span = np.ptp(phase[mask])
    return span > 2 * np.pi, ["wraps" if span > 2 * np.pi else "doesn't wrap", "at the edges" if c.get("edge") else "inside"]
