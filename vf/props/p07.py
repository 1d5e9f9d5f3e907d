"""P07: every plane of a Hanser PSF depends on its own z only, however the planes are asked for."""

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Property, array, close, require, sut

PROP = Property(
    "P07",
    "cases are random Hanser models with some planes (any order, repeats, negative, unevenly spaced; as list, tuple, "
    "float or integer array, scalar or 0-d array, given at construction or later), maybe a custom pupil, compared with "
    "models of the planes on their own or of the default grid; non-trivial: at least 2 different planes and 9 "
    "frequencies inside of the pupil",
)


def common(p):
    return {k: v for k, v in p.items() if k not in ("zsize", "zres", "zrange")}


def close_planes(draw, wl, steps):
    n = draw(st.integers(3, 6))
    z = draw(gen.frac(-1, 1)) * wl if draw(st.booleans()) else 0.0
    out = [z]
    for s in draw(st.lists(steps, min_size=n - 1, max_size=n - 1)):
        out.append(out[-1] + s * wl)
    return out


@st.composite
def cases(draw, sizes=gen.small_sizes):
    p = draw(gen.hanser(sizes=sizes))
    p = common(p)
    p["zrange"] = draw(gen.zplanes(p["wl"], p["na"], p["ni"], 6))
    kind = draw(st.integers(0, 5))
    if kind == 0 and p["wl"] > 100:
        p["zrange"] = [int(z) for z in p["zrange"]]
    elif kind == 1:
        # close together, in any unit, so that differences are small numbers
        p["zrange"] = close_planes(draw, p["wl"], gen.logfrac(1e-4, 0.1))
    elif kind == 2:
        # almost evenly spaced
        z0, step = draw(gen.frac(-5, 5)), draw(gen.frac(0.05, 2))
        off = draw(gen.logfrac(1e-6, 0.1))
        n = draw(st.integers(3, 6))
        z = [(z0 + step * i) * p["wl"] for i in range(n)]
        i = draw(st.integers(0, n - 1))
        z[i] += off * step * p["wl"]
        p["zrange"] = z
    elif kind == 3:
        # ends alike, as if it was symmetric about the focus
        z = p["zrange"]
        p["zrange"] = z + [0.0] * draw(st.integers(0, 1)) + z[:-1] + [-z[0]]
    n = len(p["zrange"])
    pick = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n + 2))
    how = draw(st.sampled_from(("list", "tuple", "array", "set", "read, then set")))
    return dict(p=p, pick=pick, how=how, pupil=draw(st.one_of(st.none(), st.none(), gen.seeds)))


@PROP.law("planes", cases(), 1500)
def planes(c):
    p, pick = c["p"], c["pick"]
    z = p["zrange"]
    sub = [z[i] for i in pick]
    with sut("models"):
        full = gen.psf_model(p)
        if c["how"] == "list":
            part = gen.psf_model(p | dict(zrange=sub))
        elif c["how"] == "tuple":
            part = gen.psf_model(p | dict(zrange=tuple(sub)))
        elif c["how"] == "array":
            part = gen.psf_model(p | dict(zrange=np.array(sub)))
        else:
            part = gen.psf_model(common(p) | dict(zsize=3))
            if c["how"].startswith("read"):
                part.PSFa, part.OTFi
            part.zrange = sub
        if c["pupil"] is not None:
            pupil = gen.rng_array(c["pupil"], (p["size"],) * 2, "complex")
            full.apply_pupil(pupil)
            part.apply_pupil(pupil)
        a, b = array(full.PSFa, "PSFa"), part.PSFa
        close(b, a[:, pick], "some of the planes", tol=1e-11, scale=np.abs(a).max())
        close(part.PSFi, full.PSFi[pick], "intensity of some of the planes", tol=1e-11, scale=full.PSFi.max())
        close(part.zrange, np.array(sub), "zrange", tol=1e-12)
    return len(set(z)) > 1 and gen.pupil_points(p) >= 9, [c["how"], "custom" if c["pupil"] is not None else "plain"]


@PROP.law("large grids", cases(gen.large_sizes), 32)
def large(c):
    return planes(c)


@st.composite
def deep_cases(draw):
    p = common(draw(gen.deep_hanser()))
    p["zrange"] = draw(gen.deep(p["wl"]))
    n = len(p["zrange"])
    pick = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=6))
    if draw(st.booleans()):
        pick = list(range(min(pick), n))
    how = draw(st.sampled_from(("list", "tuple", "array", "set", "read, then set")))
    return dict(p=p, pick=pick, how=how, pupil=draw(st.one_of(st.none(), st.none(), gen.seeds)))


@PROP.law("many planes", deep_cases(), 80)
def deep(c):
    return planes(c)


@st.composite
def scalars(draw):
    p = common(draw(gen.hanser(sizes=gen.small_sizes)))
    z = draw(gen.zplanes(p["wl"], p["na"], p["ni"], 1))[0]
    how = draw(st.sampled_from(("float", "0-d", "int", "numpy")))
    return dict(p=p, z=int(z) if how == "int" else z, how=how)


@PROP.law("a single plane", scalars(), 400)
def single(c):
    p, z = c["p"], c["z"]
    value = {"float": z, "0-d": np.array(z), "int": z, "numpy": np.float64(z)}[c["how"]]
    with sut("models"):
        a = gen.psf_model(p | dict(zrange=value))
        b = gen.psf_model(p | dict(zrange=[z]))
        close(a.PSFa, array(b.PSFa, "PSFa"), "PSFa for a scalar zrange", tol=1e-12)
        require(a.PSFi.shape == (1, p["size"], p["size"]), f"PSFi has shape {a.PSFi.shape}")
        close(a.zrange, np.array([z]), "zrange", tol=1e-12)
        if c["how"] == "0-d":
            require(value.ndim == 0, "the caller's array has changed shape")
    return gen.pupil_points(p) >= 9, [c["how"]]


@st.composite
def refocused(draw):
    p = common(draw(gen.hanser(sizes=gen.small_sizes)))
    # any digits, any size
    z = draw(st.one_of(st.floats(-12, 12), gen.logfrac(1e-11, 1), gen.logfrac(1e-11, 1).map(lambda v: -v)))
    p["zrange"] = [z * p["wl"] for z in [z, draw(gen.frac(-3, 3))]]
    return p


@PROP.law("defocus in the pupil", refocused(), 500)
def defocus(p):
    """Plane z is the focus of the pupil times exp(2 pi i kz z): to all digits."""
    _, _, kz, mask = ref.hanser_geometry(p)
    z = p["zrange"]
    with sut("models"):
        a = array(gen.psf_model(p).PSFa, "PSFa")
        m = gen.psf_model(common(p) | dict(zrange=[0.0]))
        for zz, plane in zip(z, np.moveaxis(a, 1, 0)):
            m.apply_pupil(ref.uncentre(mask * np.exp(2j * np.pi * kz * zz)))
            close(plane, m.PSFa[:, 0], f"the plane at {zz / p['wl']} wavelengths", tol=1e-11, scale=np.abs(a).max() or 1)
            if abs(zz) < 1e-3 * p["wl"]:
                # even the small difference to the focus is right
                m.apply_pupil(ref.uncentre(mask.astype(complex)))
                focus = m.PSFa[:, 0].copy()
                m.apply_pupil(ref.uncentre(mask * np.expm1(2j * np.pi * kz * zz)))
                close(plane - focus, m.PSFa[:, 0], "its difference to the focus", tol=1e-13, scale=np.abs(a).max() or 1)
    return gen.pupil_points(p) >= 9 and z[0] != 0, ["tiny" if abs(z[0]) < 1e-3 * p["wl"] else "far"]


@st.composite
def grids(draw):
    p = common(draw(gen.hanser(sizes=gen.small_sizes)))
    p["zsize"] = draw(st.integers(1, 12))
    p["zres"] = draw(gen.frac(0.05, 3)) * p["wl"]
    return dict(p=p, zsize=draw(st.integers(1, 12)), zres=draw(gen.frac(0.05, 3)) * p["wl"], late=draw(st.integers(0, 3)))


@PROP.law("default grid", grids(), 700)
def default_grid(c):
    """zsize planes, zres apart, with plane zsize // 2 in focus; also after either is changed."""
    p = dict(c["p"])
    with sut("models"):
        a = gen.psf_model(p)
        if c["late"] & 1:
            a.PSFi
            a.zsize = p["zsize"] = c["zsize"]
        if c["late"] & 2:
            a.zres = p["zres"] = c["zres"]
        want = ref.centred(p["zsize"]) * p["zres"]
        close(a.zrange, want, "zrange", tol=1e-12)
        b = gen.psf_model(common(p) | dict(zrange=list(want)))
        close(a.PSFa, array(b.PSFa, "PSFa"), "PSFa on the default grid", tol=1e-11)
    return gen.pupil_points(p) >= 9 and p["zsize"] > 1, ["odd" if p["zsize"] % 2 else "even"]
