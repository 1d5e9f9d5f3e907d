"""P23: PSFs generated from a retrieved pupil are its image in the window and planes that were asked for."""

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Property, array, close, require, sut
from .p15 import expected_pad

PROP = Property(
    "P23",
    "cases are results with random or retrieved pupils and histories of up to 5 requests for PSFs of other sizes (even "
    "and odd, smaller and larger), numbers of planes and z ranges, from the pupil itself or from slices of its Zernike "
    "modes; non-trivial: a request that changes the size or the planes",
    ["a larger window is the smaller one in zeros, placed as fft_pad does"],
)


def related(draw, new, last, wl):
    """Planes with much in common with those of the request before."""
    how = draw(st.sampled_from(("new", "new", "reversed", "shuffled", "negated", "scaled", "one moved", "two moved", "same")))
    n = len(last)
    if how == "new":
        return new
    if how == "reversed":
        return last[::-1]
    if how == "shuffled":
        return draw(st.permutations(last))
    if how == "negated":
        return [-z for z in last]
    if how == "scaled":
        f = draw(gen.frac(0.2, 2))
        return [f * z for z in last]
    out = list(last)
    if how.endswith("moved"):
        d = draw(gen.frac(0.1, 1)) * wl
        i = draw(st.integers(0, n - 1))
        out[i] += d
        if how == "two moved" and n > 1:
            out[(i + 1) % n] -= d
    return out


@st.composite
def cases(draw, sizes=st.sampled_from((1, 2, 3) + 2 * (6, 7, 8, 9, 10, 11, 12, 13)), edge=False):
    p = draw(gen.on_edge() if edge else gen.optics(sizes=sizes))
    if draw(st.booleans()):
        p["zres"], p["zsize"] = draw(gen.frac(0.2, 2)) * p["wl"], draw(st.integers(1, 4))
    else:
        p["zrange"] = draw(gen.zplanes(p["wl"], p["na"], p["ni"], 4))
    n = p["size"]
    reqs, last = [], None
    for _ in range(draw(st.integers(1, 5))):
        q = {}
        if draw(st.integers(0, 3)):
            q["size"] = draw(st.integers(1, 2 * n))
        how = draw(st.sampled_from(("same", "same", "zsize", "zrange", "both")))
        if how in ("zsize", "both"):
            q["zsize"] = draw(st.integers(1, 6))
        if how in ("zrange", "both"):
            q["zrange"] = draw(gen.zplanes(p["wl"], p["na"], p["ni"], 4))
            if last is not None:
                q["zrange"] = related(draw, q["zrange"], last, p["wl"])
            elif draw(st.integers(0, 3)) == 0:
                q["zrange"] = q["zrange"] + [-z for z in q["zrange"]]
            last = q["zrange"]
        zd = draw(st.booleans())
        if zd and draw(st.booleans()):
            q["sphase"] = [draw(st.one_of(st.none(), st.integers(0, 9))), draw(st.one_of(st.none(), st.integers(0, 9)))]
        reqs.append(["zd" if zd else "psf", q])
    return dict(p=p, reqs=reqs, seed=draw(gen.seeds), k=draw(st.integers(1, 16)), retrieved=draw(st.integers(0, 3)))


def window(psf, size):
    n = psf.shape[-1]
    if size is None:
        return psf
    if size >= n:
        return expected_pad(psf, (len(psf), size, size), mode="constant")
    lo = n // 2 - size // 2
    return psf[:, lo : lo + size, lo : lo + size]


def build(c):
    from pyotf.otf import HanserPSF
    from pyotf.phaseretrieval import PhaseRetrievalResult, retrieve_phase

    p = c["p"]
    g = np.random.default_rng(c["seed"])
    _, _, _, mask = ref.hanser_geometry(p)
    if c["retrieved"] == 0:
        nz = len(ref.zrange_of(p))
        params = {k: v for k, v in p.items() if k not in ("size", "zsize")}
        with sut("retrieve_phase"):
            return retrieve_phase(0.1 + g.random((nz, p["size"], p["size"])), params, 3)
    mag, phase = g.random(mask.shape) * mask, g.standard_normal(mask.shape) * mask
    if c["seed"] % 3 == 0:
        # parts of it may be dark, or out of phase
        mag = mag * (g.random(mask.shape) < 0.7)
    with sut("PhaseRetrievalResult"):
        model = HanserPSF(**p, vec_corr="none", condition="none")
        if c["retrieved"] == 1:
            model.PSFi, model.OTFi
        elif c["retrieved"] == 2:
            model.apply_pupil(gen.rng_array(c["seed"], mask.shape, "complex"))
        return PhaseRetrievalResult(mag, phase, np.ones(2), np.ones(2), np.ones(2), model)


@PROP.law("requests", cases(), 1300)
def requests(c):
    p = c["p"]
    result = build(c)
    changed, labels = False, set()
    base = p | dict(vec_corr="none", condition="none")
    z = ref.zrange_of(base)
    with sut("generate_psf"):
        zd = result.fit_to_zernikes(c["k"])
        zres = result.model.zres
        first = np.array(result.model.PSFi)
        mag, phase, zerns = np.array(result.mag), np.array(result.phase), np.array(zd.zerns)
        for kind, q in c["reqs"]:
            kw = {k: v for k, v in q.items() if k != "sphase"}
            if kind == "psf":
                pupil = mag * np.exp(1j * phase)
                got = result.generate_psf(**kw)
            else:
                s = slice(*q["sphase"]) if "sphase" in q else slice(4, None)
                if "sphase" in q:
                    kw["sphase"] = s
                pupil = np.tensordot(zd.mcoefs, zerns, 1) * np.exp(1j * np.tensordot(zd.pcoefs[s], zerns[s], 1))
                got = result.generate_zd_psf(**kw)
            r = {k: v for k, v in base.items() if k not in ("zsize", "zres")}
            if "zrange" in q:
                r["zrange"] = q["zrange"]
            elif "zsize" in q:
                r["zrange"] = (ref.centred(q["zsize"]) * zres).tolist()
            else:
                r["zrange"] = z.tolist()
            full = ref.intensity(ref.hanser_psfa(r, pupil))
            close(got, window(full, q.get("size")), f"{kind} for {q}", scale=full.max() or 1, kind="f")
            require((got >= 0).all(), "the PSF is negative")
            changed |= bool(q.keys() - {"sphase"})
            labels |= {kind} | set(q)
        for k in ("wl", "na", "ni", "res", "size"):
            require(getattr(result.model, k) == p[k], f"{k} of the result's model changed to {getattr(result.model, k)}")
        close(result.model.zrange, z, "zrange of the result's model")
        close(result.model.PSFi, first, "PSF of the result's model", tol=1e-12)
        require(np.array_equal(result.mag, mag) and np.array_equal(result.phase, phase), "the result's pupil changed")
    return changed and gen.pupil_points(p) >= 9, sorted(labels)


@PROP.law("frequencies on the edge", cases(edge=True), 80)
def on_edge(c):
    return requests(c)


@PROP.law("large windows", cases(gen.large_sizes), 32)
def large(c):
    return requests(c)
