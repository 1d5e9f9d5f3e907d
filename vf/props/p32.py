"""P32: the representation of a model or microscope rebuilds it."""

import numpy as np
from hypothesis import strategies as st

from .. import gen, scopes
from ..core import Property, close, require, sut

PROP = Property(
    "P32",
    "cases are random PSF models and microscopes, some with parameters changed after they were built; evaluating their "
    "repr has to give an equal one, with the same results and the same repr; non-trivial: every distinct case",
    [
        "planes and orientations are compared exactly, as lists, tuples and arrays, from one plane to 1500, and with numpy's "
        "print options at their defaults or set to three digits and five values (restored afterwards)",
        "SIM2D, SIM3D and lattice SIM aren't included: their repr is that of the general class",
    ],
)  # fmt: skip

KEYS = ("wl", "na", "ni", "res", "size", "zres", "zsize", "vec_corr", "condition")


def namespace():
    import pyotf.microscope as m
    import pyotf.otf as o

    out = {k: v for mod in (o, m) for k, v in vars(mod).items() if isinstance(v, type)}
    return out | dict(array=np.array)


def rebuild(obj, short=False):
    with sut("repr"), np.printoptions(**(dict(precision=3, threshold=5, suppress=True) if short else {})):
        text = repr(obj)
    require(isinstance(text, str), "repr isn't a string")
    with sut(f"evaluating {text}"):
        try:
            new = eval(text, namespace())
        except Exception as e:
            raise ValueError(f"{type(e).__name__}: {e}") from e
    require(type(new) is type(obj), f"{text} is a {type(new).__name__}")
    return text, new


@st.composite
def models(draw):
    h = gen.hanser(sizes=gen.small_sizes)
    p = draw(st.one_of(h, h, gen.sheppard(sizes=gen.small_sizes, max_z=13), gen.deep_hanser()))
    if "dual" not in p and p["size"] <= 5 and draw(st.integers(0, 3)) == 0:
        p.pop("zrange", None)
        p["zres"], p["zsize"] = draw(gen.frac(0.02, 0.5)) * p["wl"], draw(st.integers(990, 1500))
    elif "dual" not in p and draw(st.integers(0, 3)) == 0:
        # planes which are the default ones but for a little
        p["zres"], p["zsize"] = draw(gen.frac(0.02, 0.5)) * p["wl"], draw(st.integers(1, 9))
        z = [(i - p["zsize"] // 2) * p["zres"] for i in range(p["zsize"])]
        i, how = draw(st.integers(0, len(z) - 1)), draw(st.sampled_from(("none", "one", "all", "scaled")))
        d = draw(gen.logfrac(1e-9, 1e-2))
        if how == "one":
            z[i] += d * p["zres"]
        elif how == "all":
            z = [v + d * p["zres"] for v in z]
        elif how == "scaled":
            z = [v * (1 + d) for v in z]
        p["zrange"] = z
    changes = {}
    if draw(st.booleans()):
        pool = dict(vec_corr=list(gen.VEC), condition=list(gen.COND), size=[6, 7, 9], zsize=[4, 5], wl=[p["wl"] * 1.37])
        if "dual" in p:
            pool["dual"] = [True, False]
        keys = draw(st.lists(st.sampled_from(sorted(pool)), min_size=1, max_size=4, unique=True))
        changes = {k: draw(st.sampled_from(pool[k])) for k in keys}
    return dict(p=p, changes=changes, short=draw(st.integers(0, 3)) == 0)


@PROP.law("PSF models", models(), 900)
def psf_models(c):
    with sut("model"):
        model = gen.psf_model(c["p"])
        for k, v in c["changes"].items():
            setattr(model, k, v)
    text, new = rebuild(model, c["short"])
    for k in KEYS + (("dual",) if "dual" in c["p"] else ()):
        a, b = getattr(model, k), getattr(new, k)
        require(a == b, f"{k} is {b!r} instead of {a!r} when rebuilt from {text}")
    with sut("models"):
        require(repr(new) == text, f"the repr isn't stable: {text} and {new!r}")
        if "dual" not in c["p"]:
            require(np.array_equal(new.zrange, model.zrange), f"other planes when rebuilt from {text}")
        close(new.PSFi, model.PSFi, "PSFi of the rebuilt model", tol=1e-11)
    many = "many planes" if len(getattr(model, "zrange", ())) > 300 else "few planes"
    return True, ["sheppard" if "dual" in c["p"] else "hanser", "changed" if c["changes"] else "as built", many]


@st.composite
def scope_cases(draw):
    kw = dict(max_fine=21, max_planes=4, zranges=True)
    p = draw(st.one_of(scopes.widefields(**kw), scopes.apotomes(**kw), scopes.confocals(**kw), scopes.confocals(**kw), scopes.sims(kinds=("BaseSIM",), **kw)))  # fmt: skip
    changes = {}
    if draw(st.booleans()):
        if p["kind"] == "Confocal":
            changes = dict(wl_exc=p["wl"] * 0.83, pinhole_size=1.25)
        elif p["kind"] == "BaseSIM":
            changes = dict(wl_exc=p["wl"] * 0.83, na_exc=p["na"] * 0.7, wiener=0.25, coherent=True, orientations=[0.5])
    return dict(p=p, changes=changes, short=draw(st.integers(0, 3)) == 0, as_=draw(st.sampled_from(("list", "tuple", "array"))))


@PROP.law("microscopes", scope_cases(), 700)
def microscopes(c):
    with sut("microscope"):
        as_ = dict(list=list, tuple=tuple, array=np.array)[c["as_"]]
        as_sequence = lambda d: {k: as_(v) if k in ("zrange", "orientations") else v for k, v in d.items()}
        scope = scopes.build(as_sequence(c["p"]))
        for k, v in as_sequence(c["changes"]).items():
            setattr(scope, k, v)
    text, new = rebuild(scope, c["short"])
    if "orientations" in c["p"]:
        a, b = np.asarray(scope.orientations), np.asarray(new.orientations)
        require(np.array_equal(a, b), f"other orientations when rebuilt from {text}")
    if "zrange" in c["p"]:
        a, b = np.asarray(scope.model.zrange), np.asarray(new.model.zrange)
        require(np.array_equal(a, b), f"other planes when rebuilt from {text}")
    with sut("microscopes"):
        require(repr(new) == text, f"the repr isn't stable: {text} and {new!r}")
        a, b = np.array(scope.PSF), np.array(new.PSF)
    require(a.shape == b.shape, f"the PSF has the shape {b.shape} instead of {a.shape} when rebuilt from {text}")
    same = np.allclose(a, b, rtol=0, atol=1e-11 * np.nanmax(np.abs(a), initial=0), equal_nan=True)
    require(same, f"another PSF when rebuilt from {text}")
    return True, [c["p"]["kind"], "changed" if c["changes"] else "as built"]
