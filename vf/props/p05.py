"""P05: impossible parameters are refused, with nothing changed; possible ones right up to the limits are accepted."""

import math

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Property, close, must_raise, require, sut

PROP = Property(
    "P05",
    "cases are valid PSF models and microscopes with one parameter replaced by an invalid value (wrong type, negative, "
    "NaN, unknown keyword, at or beyond the Abbe or axial limit), either when they are built or later on; and valid "
    "ones within parts per billion of the limits; non-trivial: every case, with a distinct combination of values",
    ["zero, booleans and numpy scalars are not generated for numeric parameters: their treatment isn't specified"],
)  # fmt: skip

REFUSED = (ValueError, TypeError)
negative = gen.logfrac(1e-6, 1e4).map(lambda v: -v)
words = st.sampled_from(("", "NONE", "Total", "xy", "abbe", "Sine", "tot", "w", "total ", "sin", "herschell"))


@st.composite
def bad_values(draw, p):
    """A parameter name and an invalid value for it; limits are given as factors, to stay exact."""
    keys = ["wl", "na", "ni", "size", "zsize", "res", "res", "res", "zres", "zres", "vec_corr", "condition"]
    if "dual" in p:
        keys += ["dual", "zres", "zres"]
    key = draw(st.sampled_from(keys))
    if key in ("wl", "na", "ni"):
        value = draw(st.one_of(negative, st.sampled_from(("500", None, [1.0], {"a": 1}, "x"))))
    elif key in ("size", "zsize"):
        value = draw(st.one_of(st.integers(-100, -1), st.sampled_from((8.0, 7.5, "8", None, [8], -4.0))))
        if value is None:
            value = "8"
    elif key == "res":
        over = st.one_of(st.just(1e-9), gen.logfrac(1e-9, 30)).map(lambda f: ["limit", 1 + f])
        value = draw(st.one_of(over, over, negative, st.sampled_from((0, ["nan"], ["inf"]))))
    elif key == "zres":
        value = draw(st.one_of(negative, st.sampled_from((0, ["nan"], -1))))
        if "dual" in p and draw(st.booleans()):
            value = ["limit", 1 + draw(gen.logfrac(1e-9, 30))]
    elif key == "dual":
        value = draw(st.sampled_from((1, 0, "True", None, [True])))
    else:
        value = draw(words)
        if value in gen.VEC or value in gen.COND:
            value = "?"
    return key, value


def decode(p, key, value):
    if isinstance(value, list) and value and value[0] == "nan":
        return math.nan
    if isinstance(value, list) and value and value[0] == "inf":
        return math.inf
    if isinstance(value, list) and value and value[0] == "limit":
        return value[1] * (p["wl"] / (2 * p["na"]) if key == "res" else p["wl"] / (2 * p["ni"]))
    return value


models = st.one_of(
    gen.hanser(sizes=st.sampled_from((4, 5, 8)), max_planes=3),
    gen.sheppard(sizes=st.sampled_from((6, 7, 10)), max_z=8),
)


@st.composite
def psf_cases(draw):
    p = draw(models)
    key, value = draw(bad_values(p))
    return dict(p=p, key=key, value=value, pupil=draw(gen.seeds), read=draw(st.integers(0, 2)))


def snapshot(model):
    return {n: np.array(getattr(model, n)) for n in ("PSFa", "OTFa", "PSFi", "OTFi")}


@PROP.law("PSF models", psf_cases(), 1800)
def psf_models(c):
    p, key = c["p"], c["key"]
    value = decode(p, key, c["value"])
    bad = dict(p)
    if key in ("zsize", "zres") and "dual" not in p:
        bad.pop("zrange", None)
    bad[key] = value
    must_raise(f"{key}={value!r} to the constructor", REFUSED, lambda: gen.psf_model(bad))
    with sut("model"):
        model = gen.psf_model(p)
        if "dual" not in p and c["read"]:
            model.apply_pupil(gen.rng_array(c["pupil"], (p["size"],) * 2, "complex"))
        before = snapshot(model) if c["read"] == 2 else None
        if before is None:
            other = gen.psf_model(p)
            if c["read"]:
                other.apply_pupil(gen.rng_array(c["pupil"], (p["size"],) * 2, "complex")) if "dual" not in p else None
            before = snapshot(other)
    must_raise(f"{key} = {value!r} later on", REFUSED, lambda: setattr(model, key, value))
    with sut("model after a refused change"):
        for k, v in p.items():
            if k == "zrange":
                close(model.zrange, np.atleast_1d(v), "zrange after a refused change", tol=1e-12)
            else:
                require(getattr(model, k) == v, f"{k} is {getattr(model, k)!r} after {key} = {value!r} was refused")
        for k, v in snapshot(model).items():
            close(v, before[k], f"{k} after {key} = {value!r} was refused", tol=1e-12)
    return True, ["sheppard" if "dual" in p else "hanser", key]


@st.composite
def near(draw):
    p = draw(models)
    p.pop("zrange", None)
    below = st.one_of(st.just(1e-9), gen.logfrac(1e-9, 0.9)).map(lambda f: 1 - f)
    return dict(p=p, res=draw(below), zres=draw(below), order=draw(st.booleans()), wl=draw(gen.frac(1.0, 3.0)))


@PROP.law("valid up to the limits", near(), 700)
def up_to_the_limits(c):
    """Pixels just below wl / 2 / na, and for Sheppard planes just below wl / 2 / ni, are fine; the rest isn't."""
    p = dict(c["p"])
    abbe, axial = p["wl"] / (2 * p["na"]), p["wl"] / (2 * p["ni"])
    p["res"] = abbe * c["res"]
    p["zres"] = axial * c["zres"]
    p.setdefault("zsize", 7)
    with sut(f"res = {c['res']!r} times the Abbe limit, zres = {c['zres']!r} times the axial limit"):
        model = gen.psf_model(p)
        require(np.isfinite(model.PSFi).all(), "PSFi isn't finite")
        model2 = gen.psf_model(c["p"] | dict(zsize=p["zsize"], zres=p["zres"]))
        model2.res = p["res"]
        # the limit follows the wavelength
        model2.wl = p["wl"] * c["wl"]
        model2.res = abbe * c["wl"] * c["res"]
        if "dual" in p:
            model2.zres = axial * c["wl"] * c["zres"]
        require(np.isfinite(model2.PSFi).all(), "PSFi isn't finite")
    over = abbe * c["wl"] * (1 + 1e-9)
    must_raise(f"res = {over!r} with a limit of {abbe * c['wl']!r}", ValueError, lambda: setattr(model2, "res", over))
    if "dual" in p:
        z = axial * c["wl"] * (1 + 1e-9)
        must_raise(f"zres = {z!r} with a limit of {axial * c['wl']!r}", ValueError, lambda: setattr(model2, "zres", z))
    else:
        with sut("zres of a Hanser model has no upper limit"):
            model2.zres = 10 * axial
    return True, ["sheppard" if "dual" in p else "hanser"]


KINDS = ("Widefield", "Confocal", "Apotome", "SIM2D", "SIM3D", "LatticeSIM")


@st.composite
def scopes(draw):
    ni = draw(gen.frac(1.0, 1.6))
    p = dict(
        model=draw(st.sampled_from(("hanser", "sheppard"))), na=ni * draw(gen.frac(0.5, 0.95)), ni=ni,
        wl=draw(gen.frac(400, 700)), size=draw(st.sampled_from((6, 7))),
        oversample_factor=draw(st.sampled_from((1, 1, 3))),
    )  # fmt: skip
    p["pixel_size"] = draw(gen.frac(0.4, 0.95)) * p["wl"] / 2 / ni
    kind = draw(st.sampled_from(KINDS))
    keys = {
        "model": ("gauss", "", "hanserpsf"),
        "oversample_factor": (2, 4, 0, -1, -2, -3, 1.0, 3.0, "3"),
        "size": (-6, 6.0, "6"),
        "wl": (-500.0, "500"),
        "na": (-0.5, "1"),
        "ni": (-1.0, None),
        "pixel_size": (-0.1, 0, ["nan"]),
    }
    if kind == "Confocal":
        p |= dict(wl_exc=0.9 * p["wl"], pinhole_size=draw(st.sampled_from((0, 1.0, 2))))
        keys |= {"wl_exc": (-500.0, "500", None), "pinhole_size": (-1.0, -1e-6, "1", None)}
        late = ("wl_exc", "pinhole_size")
    elif kind in KINDS[3:]:
        p |= dict(wl_exc=0.9 * p["wl"], na_exc=draw(st.sampled_from((None, 0.4))), wiener=draw(st.sampled_from((None, 0, 0.1))))
        p["dc_suppress"] = draw(st.booleans())
        keys |= {"wl_exc": (-500.0, "500"), "na_exc": (-1.0, "1"), "wiener": (-0.1, -1, -1e-9), "dc_suppress": (1, None, "yes")}
        late = ("wl_exc", "na_exc", "wiener", "dc_suppress", "coherent", "dc")
        if kind != "LatticeSIM":
            p["orientations"] = [0.0, 1.0]
    else:
        late = ()
    late += ("oversample_factor",) if draw(st.booleans()) else ()
    if late and draw(st.booleans()):
        key = draw(st.sampled_from(late))
        when = "later"
        values = keys.get(key, (1, None, "yes"))
        if key == "oversample_factor":
            values = (-1, 1.0, "3")
        value = draw(st.sampled_from(values))
        if value is None and key in ("wl_exc", "na_exc"):
            value = "x"
    else:
        key, when = draw(st.sampled_from(sorted(keys))), "first"
        value = draw(st.sampled_from(keys[key]))
    return dict(kind=kind, p=p, key=key, value=value, when=when)


def scope(kind, p):
    import pyotf.microscope as m

    return getattr(m, kind + "Microscope")(**p)


@PROP.law("microscopes", scopes(), 900)
def microscopes(c):
    kind, key = c["kind"], c["key"]
    value = math.nan if c["value"] == ["nan"] else c["value"]
    refused = REFUSED + ((AssertionError,) if key == "oversample_factor" else ())
    if c["when"] == "first":
        must_raise(f"{kind}: {key}={value!r}", refused, lambda: scope(kind, c["p"] | {key: value}))
        with sut(kind):
            scope(kind, c["p"])
    else:
        with sut(kind):
            s = scope(kind, c["p"])
            before, old = np.array(s.PSF), getattr(s, key)
        must_raise(f"{kind}: {key} = {value!r} later on", refused, lambda: setattr(s, key, value))
        with sut(kind):
            require(getattr(s, key) == old, f"{key} is {getattr(s, key)!r} after a refused change")
            # (so few samples may miss the whole pupil)
            same = np.allclose(s.PSF, before, rtol=0, atol=1e-12 * np.nanmax(before, initial=0), equal_nan=True)
            require(same, f"the PSF isn't the same after {key} = {value!r} was refused")
    return True, [kind, c["when"] + " " + key]


@st.composite
def defaults(draw):
    p = draw(gen.optics(sizes=st.sampled_from((4, 5, 8)), min_sin=0.1, max_sin=0.9))
    axial, lateral = p["wl"] / (2 * p["ni"]), p["wl"] / (2 * p["na"])
    # below, or above the axial limit but below the lateral one
    if draw(st.booleans()):
        p["res"] = axial * draw(gen.frac(0.3, 1 - 1e-9))
    else:
        p["res"] = axial + (lateral - axial) * draw(gen.frac(1e-9, 0.99))
    return p | dict(dual=draw(st.booleans()), scope=draw(st.sampled_from((0, 0, 1, 3))))


@PROP.law("planes as far apart as pixels", defaults(), 300)
def left_out(p):
    """A zres that is left out is res (or a microscope's pixel size), for which the axial limit holds all the same."""
    p = dict(p)
    of = p.pop("scope")
    fits = p["res"] < p["wl"] / (2 * p["ni"])
    if of:
        p["pixel_size"] = p.pop("res")
        p |= dict(model="sheppard", oversample_factor=of)

    def build():
        from pyotf.otf import SheppardPSF

        return scope("Widefield", p) if of else SheppardPSF(**p)

    if fits:
        with sut("zres left out"):
            model = build()
            require(np.isfinite(model.model_psf if of else model.PSFi).all(), "values aren't finite")
    else:
        must_raise("zres left out, with pixels beyond the axial limit", ValueError, build)
    return True, ["below" if fits else "beyond", "microscope" if of else "model"]
