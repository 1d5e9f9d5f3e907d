"""P19: phase retrieval is Hanser's iteration: its histories, its result, and when it stops."""

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Property, array, close, must_raise, require, sut

PROP = Property(
    "P19",
    "cases are random optics and data (an aberrated PSF, maybe with noise, background or negative values, or positive "
    "noise alone), planes by zres or an explicit zrange, random tolerances and limits, phase only or not; non-trivial: "
    "at least 9 frequencies inside of the pupil, 2 planes and 2 iterations",
    ["cases in which the model is dark where the data isn't, or a tolerance is met to within 1e-6, are skipped: there "
     "the iteration isn't well defined in floating point",
     "the reference is the iteration with explicit Fourier matrices, tolerance 1e-7"],
)  # fmt: skip

SIZES = st.sampled_from((1, 2, 3, 4, 5) + 2 * (6, 7, 8, 9, 10, 11, 12, 13, 15, 16))


@st.composite
def scenes(draw, sizes=SIZES, **kw):
    p = draw(gen.optics(sizes=sizes, min_pupil=2.2, **kw))
    nz = draw(st.integers(1, 6))
    if draw(st.booleans()):
        p["zres"] = draw(gen.frac(0.2, 3)) * p["wl"]
        p["zsize"] = nz
    else:
        p["zrange"] = draw(gen.zplanes(p["wl"], p["na"], p["ni"], nz))
    return dict(
        p=p, seed=draw(gen.seeds), kind=draw(st.sampled_from(("psf", "psf", "noisy", "negative", "noise", "integer", "uint8", "uint16", "dim planes"))),
        scale=draw(gen.logfrac(0.05, 1e4)),
    )  # fmt: skip


def data_of(c):
    """Data for a scene: deterministic from its seed."""
    p = c["p"]
    g = np.random.default_rng(c["seed"])
    z = ref.zrange_of(p)
    if c["kind"] == "noise":
        return c["scale"] * (0.1 + g.random((len(z), p["size"], p["size"])))
    kr, phi, _, mask = ref.hanser_geometry(p)
    r = kr * p["wl"] / p["na"]
    phase = sum(v * ref.zernike_j(r, phi, j) for j, v in zip(range(2, 12), 0.4 * g.standard_normal(10)))
    mag = mask * (1 + 0.2 * ref.zernike_j(r, phi, 4) * g.standard_normal() + 0.1 * g.random(mask.shape))
    psf = ref.intensity(ref.hanser_psfa(p | dict(vec_corr="none", condition="none"), mag * np.exp(1j * phase)))
    psf = psf / psf.max() * c["scale"]
    if c["kind"] == "noisy":
        psf = psf + 0.05 * c["scale"] * g.random(psf.shape)
    elif c["kind"] == "dim planes":
        # some of them nearly without light
        psf = psf * 10 ** -g.choice((0.0, 0.0, 2.0, 4.0, 6.0), (len(z), 1, 1))
    elif c["kind"] == "negative":
        psf = psf - 0.05 * c["scale"] * g.random(psf.shape)
    elif c["kind"] == "integer":
        psf = np.rint(psf / psf.max() * c.get("counts", 1000) + 3).astype(int)
    elif c["kind"] in ("uint8", "uint16"):
        # an image as it comes from a camera
        psf = np.rint(psf / psf.max() * (249 if c["kind"] == "uint8" else 60_000) + 3).astype(c["kind"])
    return psf


def params_of(c):
    p = {k: v for k, v in c["p"].items() if k not in ("size", "zsize")}
    return p


@st.composite
def cases(draw):
    c = draw(scenes())
    c["iters"] = draw(st.integers(1, 12))
    tol = st.one_of(st.just(0.0), gen.logfrac(1e-6, 0.5))
    c["pupil_tol"], c["mse_tol"] = draw(tol), draw(tol)
    c["phase_only"] = draw(st.booleans())
    c["extra"] = draw(st.sampled_from(({}, {}, {"vec_corr": "total"}, {"condition": "herschel"}, {"size": 5}, {"zsize": 2, "size": 99})))
    c["how"] = draw(st.sampled_from(("keywords", "positional")))
    return c


def compare(result, want, data, tol=1e-7):
    mse, mse_diff, pupil_diff, pupil, mask, _ = want
    # round off, in units of the tolerance: of the PSF, relative to what is left of the data
    floor = max(1e-9, 1e-8 * (data.astype(float) ** 2).mean() ** 0.5 / max(mse.min(), 1e-300) ** 0.5)
    require(len(result.mse) == len(mse), f"{len(result.mse)} iterations instead of {len(mse)}")
    for got, w, name, least in (
        (result.mse, mse, "mse", 1e-300), (result.mse_diff, mse_diff, "mse_diff", floor), (result.pupil_diff, pupil_diff, "pupil_diff", 1e-9)
    ):  # fmt: skip
        got = array(got, name, w.shape)
        require(np.isnan(got[0]) == np.isnan(w[0]), f"the first {name} is {got[0]}")
        close(np.nan_to_num(got), np.nan_to_num(w), name, tol=1e-6, scale=max(np.nan_to_num(w).max(), least))
    top = np.abs(pupil).max()
    close(result.mag, np.abs(pupil), "magnitude of the pupil", tol=tol, scale=top, kind="f")
    close(result.complex_pupil, pupil, "pupil", tol=tol, scale=top)
    phase = array(result.phase, "phase", mask.shape, "f")
    require(not phase[~mask].any(), "the phase outside of the pupil isn't zero")
    # the phase is right wherever there is light, modulo 2 pi
    lit = mask & (np.abs(pupil) > 1e-3 * top)
    close(np.exp(1j * phase[lit]), np.exp(1j * np.angle(pupil[lit])), "phase", tol=1e-4)


@PROP.law("iteration", cases(), 1300)
def iteration(c):
    from pyotf.phaseretrieval import retrieve_phase

    p, data = c["p"], data_of(c)
    want = ref.retrieval(data, p, c["iters"], c["pupil_tol"], c["mse_tol"], c["phase_only"])
    if want[-1] < 1e-6:
        return False, ["ill defined"]
    params = params_of(c) | c["extra"]
    keep = data.copy(), repr(params)
    with sut("retrieve_phase"):
        if c["how"] == "positional":
            result = retrieve_phase(data, params, c["iters"], c["pupil_tol"], c["mse_tol"], c["phase_only"])
        else:
            result = retrieve_phase(
                data, params, mse_tol=c["mse_tol"], phase_only=c["phase_only"], pupil_tol=c["pupil_tol"], max_iters=c["iters"]
            )
        compare(result, want, data)
        require((result.na, result.wl) == (p["na"], p["wl"]), "na or wl of the result")
    require(np.array_equal(keep[0], data), "the caller's data was changed")
    require(keep[1] == repr(params), "the caller's parameters were changed")
    stopped = len(want[0]) < c["iters"]
    return gen.pupil_points(p) >= 9 and len(data) > 1 and len(want[0]) > 1, [
        c["kind"], "phase only" if c["phase_only"] else "both", "converged" if stopped else "all iterations"
    ]  # fmt: skip


@st.composite
def deep_cases(draw):
    """Many planes of small images."""
    c = draw(scenes(sizes=st.sampled_from((4, 5, 6, 7))))
    p = {k: v for k, v in c["p"].items() if k not in ("zrange", "zres", "zsize")}
    if draw(st.booleans()):
        p["zrange"] = draw(gen.deep(p["wl"]))
    else:
        p["zres"], p["zsize"] = draw(gen.frac(0.02, 0.5)) * p["wl"], draw(st.integers(20, 200))
    c["p"] = p
    return c | dict(
        iters=draw(st.integers(1, 5)), pupil_tol=0.0, mse_tol=0.0, phase_only=draw(st.booleans()), extra={}, how="keywords",
    )  # fmt: skip


@PROP.law("many planes", deep_cases(), 150)
def many_planes(c):
    return iteration(c)


@st.composite
def large_cases(draw):
    """Images of the usual sizes, for a few iterations."""
    c = draw(scenes(sizes=gen.large_sizes))
    return c | dict(
        iters=draw(st.integers(1, 4)), pupil_tol=0.0, mse_tol=0.0, phase_only=draw(st.booleans()), extra={}, how="keywords",
    )  # fmt: skip


@st.composite
def edge_cases(draw):
    """Frequencies exactly on the edge of the pupil."""
    c = draw(cases())
    rest = {k: v for k, v in c["p"].items() if k in ("zrange", "zres", "zsize")}
    p = draw(gen.on_edge())
    f = p["wl"] / c["p"]["wl"]
    for k in ("zrange", "zres"):
        if k in rest:
            rest[k] = [v * f for v in rest[k]] if k == "zrange" else rest[k] * f
    c["p"] = p | rest
    return c


@PROP.law("frequencies on the edge", edge_cases(), 80)
def on_edge(c):
    return iteration(c)


@PROP.law("large images", large_cases(), 40)
def large(c):
    return iteration(c)


@st.composite
def errors(draw):
    c = draw(scenes())
    c["iters"] = draw(st.integers(2, 8))
    return c


@st.composite
def long_runs(draw):
    """Up to a few hundred iterations, with the default options or others, on data that an image can be made of."""
    c = draw(scenes(sizes=st.sampled_from((10, 12, 13, 16, 17, 20, 21, 24))))
    c["kind"] = draw(st.sampled_from(("psf", "noisy")))
    c["args"] = {}
    if draw(st.booleans()):
        c["args"]["max_iters"] = draw(st.integers(20, 320))
    for k in ("pupil_tol", "mse_tol"):
        if draw(st.booleans()):
            c["args"][k] = draw(st.one_of(st.just(0.0), gen.logfrac(1e-9, 1e-3)))
    if draw(st.booleans()):
        c["args"]["phase_only"] = draw(st.booleans())
    return c


@PROP.law("long runs", long_runs(), 160)
def long_runs_law(c):
    """Options that are left out take their documented defaults."""
    from pyotf.phaseretrieval import retrieve_phase

    p, data = c["p"], data_of(c)
    full = dict(max_iters=200, pupil_tol=1e-8, mse_tol=1e-8, phase_only=False) | c["args"]
    want = ref.retrieval(data, p, full["max_iters"], full["pupil_tol"], full["mse_tol"], full["phase_only"])
    if want[-1] < 1e-6:
        return False, ["ill defined"]
    with sut("retrieve_phase"):
        compare(retrieve_phase(data, params_of(c), **c["args"]), want, data, tol=1e-6)
    n = len(want[0])
    return gen.pupil_points(p) >= 9 and len(data) > 1 and n > 1, ["all iterations" if n == full["max_iters"] else "converged", f"{len(c['args'])} options", "over 50" if n > 50 else "up to 50"]


@PROP.law("the error never grows", errors(), 250)
def monotone(c):
    """The difference in amplitude between the data and the image of the retrieved pupil never increases."""
    from pyotf.phaseretrieval import retrieve_phase

    data = data_of(c)
    mag = np.sqrt(np.maximum(data.astype(float), 0.0))
    history = []
    with sut("retrieve_phase"):
        for i in range(1, c["iters"] + 1):
            result = retrieve_phase(data, params_of(c), i, 0, 0)
            psf = array(result.generate_psf(), "PSF of the retrieved pupil", data.shape)
            history.append(((np.sqrt(psf) - mag) ** 2).sum())
    for a, b in zip(history, history[1:]):
        require(b <= a + 1e-9 * (mag**2).sum(), f"the amplitude error went from {a!r} to {b!r}: {history}")
    return gen.pupil_points(c["p"]) >= 9 and len(data) > 1, [c["kind"]]


@PROP.law("prefix", errors(), 300)
def prefix(c):
    """Fewer iterations give the beginning of the same history; mse is that of the previous pupil's image."""
    from pyotf.phaseretrieval import retrieve_phase

    data = data_of(c)
    if ref.retrieval(data, c["p"], c["iters"])[-1] < 1e-6:
        return False, ["ill defined"]
    with sut("retrieve_phase"):
        full = retrieve_phase(data, params_of(c), c["iters"], 0, 0)
        part = retrieve_phase(data, params_of(c), c["iters"] - 1, 0, 0)
        n = len(part.mse)
        require(n == min(c["iters"] - 1, len(full.mse)), f"{n} iterations of {c['iters'] - 1}")
        close(part.mse, np.asarray(full.mse)[:n], "mse of fewer iterations", tol=1e-12)
        if len(full.mse) > n:
            psf = part.generate_psf()
            close(full.mse[n], ((data - psf) ** 2).mean(), "mse of the next iteration", tol=1e-6)
    return gen.pupil_points(c["p"]) >= 9 and len(data) > 1, [c["kind"]]


@st.composite
def perfect(draw):
    c = draw(scenes())
    c["phase_only"] = draw(st.booleans())
    return c


@PROP.law("perfect data", perfect(), 200)
def ideal(c):
    """Data that is the unaberrated PSF: one iteration, a flat phase and a magnitude of one."""
    from pyotf.phaseretrieval import retrieve_phase

    p = c["p"] | dict(vec_corr="none", condition="none")
    data = ref.intensity(ref.hanser_psfa(p))
    _, _, _, mask = ref.hanser_geometry(p)
    with sut("retrieve_phase"):
        result = retrieve_phase(data, params_of(c), phase_only=c["phase_only"])
    require(len(result.mse) == 1, f"{len(result.mse)} iterations for perfect data")
    close(result.mag, mask.astype(float), "magnitude")
    close(result.phase, np.zeros(mask.shape), "phase", scale=1)
    return gen.pupil_points(c["p"]) >= 9 and len(data) > 1, []


@st.composite
def wrong(draw):
    nz, n, k = draw(st.integers(1, 4)), draw(st.integers(4, 8)), draw(st.integers(1, 4))
    kind = draw(st.sampled_from(("iterations", "oblong", "optics")))
    return dict(kind=kind, shape=[nz, n, n + k * draw(st.sampled_from((-1, 1)))] if kind == "oblong" else [nz, n, n], iters=draw(st.integers(-3, 0)))  # fmt: skip


@PROP.law("refusals", wrong(), 100)
def refusals(c):
    from pyotf.phaseretrieval import retrieve_phase

    data = np.ones(c["shape"])
    p = dict(wl=500.0, na=0.8, ni=1.0, res=100.0, zres=200.0)
    if c["kind"] == "optics":
        must_raise("pixels above the Abbe limit", ValueError, lambda: retrieve_phase(data, p | dict(res=400.0), 2))
    else:
        it = c["iters"] if c["kind"] == "iterations" else 3
        must_raise(f"{it} iterations of {data.shape}", (AssertionError, ValueError), lambda: retrieve_phase(data, p, it))
    return True, [c["kind"]]
