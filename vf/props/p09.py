"""P09: a pupil given by the user is imaged as it is."""

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Property, array, close, must_raise, require, sut

PROP = Property(
    "P09",
    "cases are random Hanser models of all options and random complex, real or sparse pupils (on the whole grid, "
    "origin first), imaged before or after reads of earlier results; non-trivial: at least 9 frequencies inside of the "
    "pupil and a pupil that isn't constant there",
    ["the reference is a direct (matrix) Fourier sum in double precision, tolerance 1e-9 of the largest amplitude (more if "
     "a frequency is so close to ni / wl that round off in the apodization is larger)"],
)  # fmt: skip


def make(kind, seed, n, mask):
    if kind == "complex":
        return gen.rng_array(seed, (n, n), "complex")
    if kind == "inside":
        return gen.rng_array(seed, (n, n), "complex") * ref.uncentre(mask)
    if kind == "wide range":
        # the faint parts count, too
        return gen.rng_array(seed, (n, n), "complex") * 10 ** (-8 * np.random.default_rng(seed).random((n, n)) ** 0.3) * ref.uncentre(mask)
    if kind in ("faint", "bright"):
        return gen.rng_array(seed, (n, n), "complex") * (1e-18 if kind == "faint" else 1e12)
    if kind == "real":
        return gen.rng_array(seed, (n, n))
    if kind == "integer":
        return np.random.default_rng(seed).integers(-3, 4, (n, n))
    if kind == "phase":
        return np.exp(1j * gen.rng_array(seed, (n, n))) * ref.uncentre(mask)
    out = np.zeros((n, n), complex)
    if kind == "dark":
        return out
    if kind == "constant":
        return out + (1 if seed % 2 else 0.3 - 2j)
    g = np.random.default_rng(seed)
    out[g.integers(n), g.integers(n)] = g.standard_normal() + 1j
    return out


KINDS = ("complex", "inside", "real", "integer", "phase", "single", "dark", "constant", "wide range", "faint", "bright")


@st.composite
def cases(draw, **kw):
    p = draw(gen.hanser(**(dict(sizes=gen.small_sizes, max_planes=4) | kw)))
    return dict(
        p=p, kind=draw(st.sampled_from(KINDS)), seed=draw(gen.seeds),
        before=draw(st.sampled_from(("nothing", "read", "other pupil", "everything"))),
    )  # fmt: skip


def prepared(c):
    model = gen.psf_model(c["p"])
    if c["before"] == "read":
        model.PSFi
    elif c["before"] == "other pupil":
        model.apply_pupil(gen.rng_array(c["seed"] + 1, (c["p"]["size"],) * 2, "complex"))
    elif c["before"] == "everything":
        model.apply_pupil(gen.rng_array(c["seed"] + 1, (c["p"]["size"],) * 2, "complex"))
        model.OTFi, model.OTFa, model.PSFi
    return model


@PROP.law("image of a pupil", cases(), 1500)
def image(c):
    p = c["p"]
    n = p["size"]
    _, _, _, mask = ref.hanser_geometry(p)
    pupil = make(c["kind"], c["seed"], n, mask)
    keep = pupil.copy()
    expected = ref.hanser_psfa(p, ref.recentre(pupil))
    with sut("apply_pupil"):
        model = prepared(c)
        model.apply_pupil(pupil)
        tol = ref.precision(p)
        close(model.PSFa, expected, "PSFa", kind="c", tol=tol)
        close(model.PSFi, ref.intensity(expected), "PSFi", kind="f", tol=tol)
        close(model.OTFi, ref.dft(ref.intensity(expected), (0, 1, 2)), "OTFi", tol=tol)
        close(model.OTFa, ref.dft(expected, (1, 2, 3)), "OTFa", tol=tol)
    require(np.array_equal(pupil, keep), "apply_pupil changed the caller's pupil")
    return gen.pupil_points(p) >= 9, [c["kind"], "before: " + c["before"]]


@PROP.law("large pupils", cases(sizes=gen.large_sizes, max_planes=2), 40)
def large(c):
    return image(c)


@PROP.law("frequencies on the edge", cases(edge=True), 120)
def on_edge(c):
    """Exactly at NA / wavelength, or on the edge of the Ewald sphere."""
    return image(c)


@PROP.law("the ideal pupil", cases(), 400)
def ideal(c):
    """A disk of ones up to NA / wl is the same as no pupil at all."""
    p = c["p"]
    _, _, _, mask = ref.hanser_geometry(p)
    with sut("apply_pupil"):
        model = prepared(c)
        model.apply_pupil(ref.uncentre(mask).astype(float if c["seed"] % 2 else complex))
        plain = gen.psf_model(p)
        close(model.PSFa, array(plain.PSFa, "PSFa"), "PSFa of the ideal pupil", tol=1e-11)
    return gen.pupil_points(p) >= 9, []


@st.composite
def reused(draw):
    c = draw(cases())
    c["change"] = draw(st.sampled_from(("scale", "conjugate", "one value", "other data", "parameter", "nothing")))
    c["read"] = draw(st.sampled_from(("PSFa", "PSFi", "OTFi", "nothing")))
    c["view"] = draw(st.booleans())
    return c


@PROP.law("the same array again", reused(), 500)
def again(c):
    """The caller may keep one array, change it in place, and apply it again: what counts are its values."""
    p = dict(c["p"])
    n = p["size"]
    _, _, _, mask = ref.hanser_geometry(p)
    pupil = np.array(make(c["kind"], c["seed"], n, mask), complex)
    with sut("apply_pupil"):
        model = prepared(c)
        model.apply_pupil(pupil)
        if c["read"] != "nothing":
            getattr(model, c["read"])
        before = np.array(model.PSFa)
        if c["change"] == "scale":
            pupil *= 2 + 1j
        elif c["change"] == "conjugate":
            np.conj(pupil, out=pupil)
        elif c["change"] == "one value":
            pupil[0, 0] += 1
        elif c["change"] == "other data":
            pupil[...] = gen.rng_array(c["seed"] + 5, (n, n), "complex")
        elif c["change"] == "parameter":
            p["ni"] = model.ni = p["ni"] * 1.01
        close(model.PSFa, before, "PSFa after a change of the caller's array", tol=0) if c["change"] != "parameter" else None
        model.apply_pupil(pupil[...] if c["view"] else pupil)
        expected = ref.hanser_psfa(p, ref.recentre(pupil))
        close(model.PSFa, expected, "PSFa of the array applied again", kind="c", tol=ref.precision(p))
        close(model.PSFi, ref.intensity(expected), "PSFi of the array applied again", kind="f", tol=ref.precision(p))
    return gen.pupil_points(p) >= 9, [c["change"]]


@st.composite
def sums(draw):
    c = draw(cases())
    c["a"], c["b"] = [[draw(gen.frac(-2, 2)), draw(gen.frac(-2, 2))] for _ in range(2)]
    return c


@PROP.law("linear in the pupil", sums(), 500)
def linear(c):
    p = c["p"]
    n = p["size"]
    _, _, _, mask = ref.hanser_geometry(p)
    one, two = make(c["kind"], c["seed"], n, mask), gen.rng_array(c["seed"] + 7, (n, n), "complex")
    a, b = complex(*c["a"]), complex(*c["b"])
    with sut("apply_pupil"):
        model = prepared(c)
        out = []
        for q in (one, two, a * one + b * two):
            model.apply_pupil(q)
            out.append(np.array(model.PSFa))
    scale = max(np.abs(out[0]).max() * abs(a), np.abs(out[1]).max() * abs(b), 1e-300)
    close(out[2], a * out[0] + b * out[1], "PSFa of the sum", tol=1e-10, scale=scale)
    return gen.pupil_points(p) >= 9, [c["kind"]]


@st.composite
def tilts(draw):
    c = draw(cases())
    c["shift"] = [draw(st.integers(-9, 9)), draw(st.integers(-9, 9))]
    c["phase"] = draw(gen.frac(-4, 4))
    return c


@PROP.law("tilt moves, piston doesn't", tilts(), 600)
def tilt(c):
    """A linear phase moves the PSF, in the direction of the gradient's axis; a constant one does nothing."""
    p = c["p"]
    n = p["size"]
    _, _, _, mask = ref.hanser_geometry(p)
    pupil = make(c["kind"], c["seed"], n, mask)
    sy, sx = c["shift"]
    j = np.arange(n)
    ramp = np.exp(-2j * np.pi * ((j[:, None] * sy + j[None] * sx) % n) / n)
    with sut("apply_pupil"):
        model = prepared(c)
        model.apply_pupil(pupil)
        still = np.array(model.PSFi)
        model.apply_pupil(pupil * ramp * np.exp(1j * c["phase"]))
        close(model.PSFi, np.roll(still, (sy, sx), axis=(1, 2)), "PSFi of the tilted pupil", scale=still.max() or 1)
    return gen.pupil_points(p) >= 9 and bool(sy or sx), [c["kind"]]


@PROP.law("wrong dimensions", st.tuples(gen.hanser(sizes=st.sampled_from((4, 5)), max_planes=2), st.sampled_from((1, 3, 4)), st.booleans()).map(list), 120)  # fmt: skip
def dimensions(c):
    p, ndim, read = c
    with sut("model"):
        model = gen.psf_model(p)
        if read:
            model.PSFi
    pupil = np.ones((p["size"],) * ndim, complex)
    must_raise(f"a pupil of {ndim} dimensions", (AssertionError, ValueError), lambda: model.apply_pupil(pupil))
    with sut("after a refused pupil"):
        close(model.PSFa, array(gen.psf_model(p).PSFa, "PSFa"), "PSFa after a refused pupil", tol=1e-11)
    return True, [f"{ndim} dimensions"]
