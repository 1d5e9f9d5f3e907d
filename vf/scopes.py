"""Microscopes: the cases, and reference models written from the imaging equations."""

import numpy as np
from hypothesis import strategies as st

from . import gen, ref

KINDS = ("Widefield", "Confocal", "Apotome", "SIM2D", "SIM3D", "LatticeSIM", "BaseSIM")


class Skip(Exception):
    """The case hangs on round off."""


def build(p):
    """The microscope of a case, by the code under test."""
    import pyotf.microscope as m

    p = dict(p)
    return getattr(m, p.pop("kind") + "Microscope")(**p)


#: also tiny ones
SIZES = (1, 2, 3, 4) + 2 * (5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 20, 21, 24, 27, 32, 48, 49, 64, 75, 96, 128)


@st.composite
def base(draw, max_fine=63, max_planes=13, models=("hanser", "hanser", "sheppard"), max_of=9, zranges=False):
    """Parameters of a wide field microscope: the model's pixels below the Abbe limit."""
    of = draw(st.sampled_from([o for o in (1, 1, 3, 3, 5, 7, 9, 15) if o <= min(max_of, max_fine / 5)]))
    size = draw(st.sampled_from([n for n in SIZES if n * of <= max_fine]))
    unit = draw(st.sampled_from((1, 1, 1e-3, 1e-6, 1e-9, 37.0)))
    wl = draw(gen.whole(draw(gen.frac(400, 700)) * unit))
    ni = draw(st.sampled_from((1, 1.0, 1.33, 1.515))) if draw(st.booleans()) else draw(gen.frac(1.0, 1.6))
    model = draw(st.sampled_from(models))
    na = ni * draw(gen.frac(0.7 if model == "sheppard" else 0.3, 0.95))
    n = size * of
    res = draw(gen.frac(min(0.8, max(0.3, 8 / n)), 0.95)) * wl / 2 / na
    pixel = draw(gen.whole(res * of))
    if pixel != res * of:
        res = pixel / of
    na = float(gen._clear_of_edge(na, wl, gen.radii(n, res)))
    if na > 1 and draw(st.integers(0, 5)) == 0:
        na = gen.whole_na(na, wl, n, res)
    p = dict(
        model=draw(st.sampled_from((model, model, model.title(), model.upper()))), na=na, ni=ni, wl=wl, size=size,
        pixel_size=pixel, oversample_factor=of,
    )  # fmt: skip
    zsize = draw(st.integers(3, max_planes))
    if n <= 20 and max_planes > 9 and draw(st.integers(0, 9)) == 0:
        zsize = draw(st.integers(20, 75))
    if model == "sheppard":
        p["zres"] = draw(gen.whole(draw(gen.frac(0.5, 0.95)) * wl / 2 / ni))
        p["zsize"] = draw(st.integers(max(3, min(9, max_planes)), max_planes + 4))
        p["vec_corr"] = draw(st.sampled_from(gen.VEC))
        # (without polarization the condition has no effect, see the known finding of P02)
        p["condition"] = draw(st.sampled_from(gen.COND)) if p["vec_corr"] != "none" else "none"
        if draw(st.integers(0, 7)) == 0:
            p["dual"] = True
        return p
    if draw(st.integers(0, 3)):
        p["zres"] = draw(gen.whole(draw(gen.frac(0.1, 1.5)) * wl))
    if draw(st.integers(0, 3)) or size > max_planes:
        p["zsize"] = zsize
    if zranges and draw(st.integers(0, 7)) == 0:
        p["zrange"] = draw(gen.zplanes(wl, na, ni, 5))
    if draw(st.booleans()):
        p["vec_corr"] = draw(st.sampled_from(gen.VEC))
    if draw(st.booleans()):
        p["condition"] = draw(st.sampled_from(gen.COND))
    return p


def fine(p):
    """Parameters of the PSF model on the fine grid."""
    of = p["oversample_factor"]
    q = {k: p[k] for k in ("wl", "na", "ni", "vec_corr", "condition", "dual", "zrange") if k in p}
    q |= dict(size=p["size"] * of, res=p["pixel_size"] / of)
    q["zres"] = p["pixel_size"] if p.get("zres") is None else p["zres"]
    q["zsize"] = p["size"] if p.get("zsize") is None else p["zsize"]
    return q


def model_psfi(p, q=None):
    """Intensity PSF of the model on the fine grid."""
    q = fine(p) if q is None else q
    if p["model"].lower() == "hanser":
        k = gen.radii(q["size"], q["res"])
        if np.min(np.abs(k / (q["na"] / q["wl"]) - 1)) < 1e-9:
            raise Skip("edge of the pupil")
        return ref.intensity(ref.hanser_psfa(q))
    otfa, doubtful = ref.sheppard_otfa(q)
    if doubtful.any():
        raise Skip("edge of the shell")
    return ref.intensity(ref.dft(otfa, (1, 2, 3), inverse=True))


def pixelate(p, psf):
    """Sum the fine pixels of every camera pixel, the central one centred on the origin, and normalize."""
    of, n = p["oversample_factor"], p["size"]
    fine_n = n * of
    # fine pixel j is (j - fine_n // 2) / of camera pixels away from the origin
    where = (np.round((np.arange(fine_n) - fine_n // 2) / of).astype(int) + n // 2) % n
    m = np.zeros((n, fine_n))
    m[where, np.arange(fine_n)] = 1
    out = m @ psf @ m.T
    total = out.sum()
    if not abs(total) > 1e-3 * np.abs(out).sum():
        raise Skip("nothing left to normalize")
    return out / total


def pinhole_radius(p):
    """In fine pixels: half of the pinhole's diameter, 1.22 wl / na being one Airy unit."""
    q = fine(p)
    return p["pinhole_size"] * 1.22 * q["wl"] / q["na"] / q["res"] / 2


def through_pinhole(psf, radius):
    """Average over a disk, nothing coming in from outside of the field."""
    n = psf.shape[-1]
    r = min(int(np.ceil(radius)), 3 * n)
    d = np.arange(-r, r + 1)
    disk = d[:, None] ** 2 + d[None] ** 2 < radius**2
    out = np.zeros_like(psf)
    j = np.arange(n)
    dx = j[:, None] - j[None]  # source to target
    for dy in range(max(-r, -n + 1), min(r, n - 1) + 1):
        row = disk[dy + r]
        t = np.where(np.abs(dx) <= r, row[np.clip(dx, -r, r) + r], False).astype(float)
        moved = psf @ t
        if dy >= 0:
            out[:, dy:] += moved[:, : n - dy]
        else:
            out[:, :dy] += moved[:, -dy:]
    return out / disk.sum()


def confocal(p):
    r = pinhole_radius(p)
    d = np.unique(np.add.outer(np.arange(200) ** 2, np.arange(200) ** 2))
    if abs(r - 1.5) < 1e-9 or (r > 1.5 and np.min(np.abs(d - r * r)) < 1e-9 * r * r):
        raise Skip("edge of the pinhole")
    det = model_psfi(p)
    if r > 1.5:
        det = through_pinhole(det, r)
    return det * model_psfi(p, fine(p) | dict(wl=p["wl_exc"]))


def apotome(p):
    q = fine(p)
    psf = model_psfi(p)
    n = q["size"]
    cutoff = 2 * q["na"] / q["wl"] * n * q["res"]
    if abs(cutoff % 1 - 0.5) < 1e-9:
        raise Skip("rounding")
    ring = int(np.floor(cutoff + 0.5)) // 2
    c = ref.centred(n)
    rho = np.sqrt(c[:, None] ** 2 + c[None] ** 2)
    on = np.floor(rho + 0.5) == ring
    otf = ref.dft(psf, (1, 2))
    profile = np.abs(otf[:, on].mean(1))
    if not profile.max() > 1e-6 * np.abs(otf).max():
        raise Skip("no response")
    return profile[:, None, None] * psf


def wiener(psf, w):
    """Deconvolution of the PSF with itself."""
    if w is None:
        return psf
    power = np.abs(ref.dft(psf, (0, 1, 2))) ** 2
    if w == 0:
        if ((power > 1e-21) & (power < 1e-12)).any() or power.max() > 1e8:
            raise Skip("edge of the OTF's support")
        filt = (power > 1e-16).astype(float)
    else:
        filt = power / (power + power.max() * w**2)
    return ref.dft(filt, (0, 1, 2), inverse=True).real


def sim(p):
    kind = p["kind"]
    coherent, dc = {"SIM2D": (False, False), "SIM3D": (False, True), "LatticeSIM": (True, True)}.get(
        kind, (p.get("coherent"), p.get("dc"))
    )
    orientations = (0, np.pi / 2) if kind == "LatticeSIM" else p["orientations"]
    q = fine(p)
    na = p["na"] if p["na_exc"] is None else p["na_exc"]
    wl = p["wl"] if p["wl_exc"] is None else p["wl_exc"]
    psf = wiener(model_psfi(p), p["wiener"])
    x, z = ref.centred(q["size"]) * q["res"], ref.centred(q["zsize"]) * q["zres"]
    if "zrange" in q:
        z = np.array(q["zrange"], float, ndmin=1)
    zz, yy, xx = np.meshgrid(z, x, x, indexing="ij")
    # in turns: lateral and axial frequencies of the beams
    klat, kax, k = na / wl, np.sqrt((p["ni"] / wl) ** 2 - (na / wl) ** 2), p["ni"] / wl
    centre = np.exp(2j * np.pi * k * zz) if dc else 0
    beams = []
    for o in orientations:
        along = xx * np.cos(o) + yy * np.sin(o)
        beams.append(2 * np.cos(2 * np.pi * klat * along) * np.exp(2j * np.pi * kax * zz))
    if coherent:
        return psf * np.abs(centre + sum(beams)) ** 2
    light = sum(np.abs(centre + b) ** 2 for b in beams)
    if p["dc_suppress"]:
        light = light - (2 * len(orientations) - 1)
    return psf * light


def reference(p):
    """PSF of the microscope."""
    kind = p["kind"]
    make = {"Widefield": model_psfi, "Confocal": confocal, "Apotome": apotome}.get(kind, sim)
    return pixelate(p, make(p))


# ---------------------------------------------------------------- cases
@st.composite
def widefields(draw, **kw):
    return draw(base(**kw)) | dict(kind="Widefield")


@st.composite
def confocals(draw, **kw):
    p = draw(base(**kw)) | dict(kind="Confocal")
    p["wl_exc"] = p["wl"] * draw(st.one_of(gen.frac(0.7, 1.0), gen.frac(0.7, 2.0))) if draw(st.integers(0, 5)) else p["wl"]
    p["pinhole_size"] = 1.0
    one = pinhole_radius(p)
    how = draw(st.sampled_from(("0", "int", "near", "usual", "usual", "usual", "large", "huge")))
    if how == "0":
        r = 0
    elif how == "near":
        r = draw(gen.frac(1.3, 1.7)) / one
    elif how == "usual":
        r = draw(gen.frac(0.2, 2))
    elif how == "large":
        r = draw(gen.frac(2, 6))
    elif how == "huge":
        r = draw(gen.frac(1.0, 2.0)) * p["size"] * p["oversample_factor"] / one
    else:
        r = draw(st.integers(0, 3))
    p["pinhole_size"] = r
    if p["model"].lower() == "hanser":
        # the excitation's pupil has an edge, too
        k = gen.radii(p["size"] * p["oversample_factor"], p["pixel_size"] / p["oversample_factor"])
        for _ in range(50):
            if np.min(np.abs(k / (p["na"] / p["wl_exc"]) - 1)) > 1e-8:
                break
            p["wl_exc"] *= 1 - 3.1e-7
    return p


@st.composite
def apotomes(draw, **kw):
    return draw(base(**kw)) | dict(kind="Apotome")


@st.composite
def sims(draw, kinds=KINDS[3:], **kw):
    p = draw(base(**kw))
    p["kind"] = draw(st.sampled_from(kinds))
    p["na_exc"] = draw(st.one_of(st.none(), gen.frac(0.05, 1.02).map(lambda f: f * p["na"])))
    if p["na_exc"] is not None and p["na_exc"] > 1 and draw(st.integers(0, 5)) == 0:
        p["na_exc"] = 1
    elif p["na_exc"] is not None and draw(st.integers(0, 11)) == 0:
        p["na_exc"] = 0
    p["wl_exc"] = draw(st.one_of(st.none(), gen.frac(0.7, 1.05).map(lambda f: f * p["wl"])))
    if p["wl_exc"] is not None and p["wl_exc"] > 100 and draw(st.integers(0, 2)) == 0:
        p["wl_exc"] = int(p["wl_exc"])
    p["wiener"] = draw(st.sampled_from((None, None, 0, 1, "w", "w", "w")))
    if p["wiener"] == "w":
        p["wiener"] = draw(gen.logfrac(1e-3, 10))
    p["dc_suppress"] = draw(st.booleans())
    if p["kind"] != "LatticeSIM":
        p["orientations"] = draw(orientation_lists)
    if p["kind"] == "BaseSIM":
        p["coherent"], p["dc"] = draw(st.booleans()), draw(st.booleans())
    return p


orientation_lists = st.one_of(
    st.lists(st.one_of(st.sampled_from((0, 0.0, np.pi / 2, np.pi)), gen.frac(-4, 7)), min_size=1, max_size=4),
    st.tuples(st.integers(1, 5), gen.frac(0, 3)).map(lambda t: [t[1] + np.pi * i / t[0] for i in range(t[0])]),
    st.lists(gen.frac(-4, 7), min_size=5, max_size=9),
)


def any_scope(**kw):
    return st.one_of(widefields(**kw), confocals(**kw), apotomes(**kw), sims(**kw), sims(**kw))


def nontrivial(p):
    q = fine(p)
    return gen.pupil_points(q) >= 9 and len(q.get("zrange", [0] * q["zsize"])) > 1


def labels(p):
    of = p["oversample_factor"]
    return [
        p["model"].lower(),
        f"x{of}",
        ("even" if p["size"] % 2 == 0 else "odd") + " size",
        "vec " + p.get("vec_corr", "default"),
    ]
