"""Calls of every module's functions on generated arrays, and near twins of them."""

import numpy as np
from hypothesis import strategies as st

from . import gen, scopes

#: what is done to the arrays of a call to get those of its twin: mostly same shape, same sums, same extremes
TWISTS = ("as it is", "mirror", "mirror rows", "roll", "swap", "shuffle", "one value", "negate", "other data", "column order")

#: functions of arrays, and the arrays that they take
ARRAYS = {
    "zernike": "rt", "zernike many": "rt", "noll2degrees": "j", "degrees2noll": "nm", "easy_fft": "d", "easy_ifft": "d",
    "fft_pad": "d", "bin": "d", "radial": "i", "center": "d", "remove_bg": "k", "prep": "k", "psqrt": "d", "cart2pol": "ii",
    "labview": "q", "zrange": "z", "pupil": "p", "aberration": "cc", "retrieval": "s",
}  # fmt: skip


@st.composite
def array_call(draw, names=tuple(ARRAYS)):
    return dict(
        fn=draw(st.sampled_from(names)), a=draw(st.integers(1, 8)), b=draw(st.integers(1, 6)), seed=draw(st.integers(0, 5)),
        twist="as it is", at=0,
    )  # fmt: skip


@st.composite
def twin(draw, c, arrays_only=False):
    """Another call, different from c in its data, or else in one option."""
    c = dict(c, twist=draw(st.sampled_from(TWISTS)), at=draw(st.integers(0, 99)))
    if not arrays_only and draw(st.integers(0, 2)) == 0:
        key = draw(st.sampled_from(("a", "b")))
        c[key] = draw(st.integers(1, 8 if key == "a" else 6))
    return c


def inputs(c):
    """The arrays of a call."""
    g = np.random.default_rng([c["seed"], c["a"], c["b"]])
    a, b = c["a"], c["b"]
    square = a + 3
    make = dict(
        r=lambda: g.random((square, square)), t=lambda: g.uniform(-4, 4, (square, square)),
        j=lambda: g.integers(1, 100, 4 + a), d=lambda: g.standard_normal((3, square, b + 4)),
        i=lambda: g.standard_normal((square, b + 4)), k=lambda: g.integers(5, 60, (3, square, b + 4)),
        z=lambda: g.standard_normal(b + 1) * 500, p=lambda: g.standard_normal((square, square)) + 1j,
        q=lambda: g.integers(5, 60, (3, square + 2, square + 2)), c=lambda: g.standard_normal(b + 2), s=lambda: g.random((2, square + 2, square + 2)) + 0.1,
    )  # fmt: skip
    if ARRAYS[c["fn"]] == "nm":
        n = g.integers(0, 12, 4 + a)
        out = [n, n - 2 * (g.random(n.shape) * (n + 1)).astype(int)]
        if c["twist"] in ("mirror", "mirror rows"):
            out = [x[::-1] for x in out]
        elif c["twist"] == "roll":
            out = [np.roll(x, 1) for x in out]
        elif c["twist"] == "negate":
            out[1] = -out[1]
        return [np.array(x) for x in out]
    out = [make[k]() for k in ARRAYS[c["fn"]]]
    i = c["at"] % len(out)
    out[i] = np.ascontiguousarray(twisted(out[i], c, g))
    if c["twist"] == "column order":
        out = [np.asfortranarray(x) for x in out]
    return out


def twisted(x, c, g):
    t = c["twist"]
    n = len(x)
    if t == "mirror":
        return x[..., ::-1]
    if t == "mirror rows":
        return x[::-1]
    if t == "roll":
        return np.roll(x, 1, axis=-1)
    if t == "swap":
        out = x.copy()
        out[[0, n - 1]] = out[[n - 1, 0]]
        return out
    if t == "shuffle":
        return g.permutation(x.ravel()).reshape(x.shape)
    if t == "one value":
        out = x.copy()
        out.flat[c["at"] % x.size] += 1
        return out
    if t == "negate" and ARRAYS[c["fn"]] not in ("j", "rt", "k", "s", "q"):
        return -x
    if t == "other data":
        return x[::-1] * 3 if ARRAYS[c["fn"]] != "rt" else x[::-1] / 3
    return x


def run(c, x=None):
    """Make the call with these arrays; what it returns."""
    from pyotf import labview, otf, phaseretrieval, utils, zernike

    if c["fn"] == "model":
        model = gen.psf_model(c["p"])
        return [getattr(model, k) for k in ("PSFa", "OTFi")] + [model.PSFi]
    if c["fn"] == "scope":
        scope = scopes.build(c["p"])
        return [scope.PSF, scope.OTF]
    if c["fn"] == "named":
        model = otf.HanserPSF(**c["p"])
        new = otf.apply_named_aberrations(model, {zernike.noll2name[j]: v for j, v in c["names"]})
        return [new.PSFi, new.PSFa, model.PSFi]
    x = inputs(c) if x is None else x
    fn, a, b = c["fn"], c["a"], c["b"]
    opts = dict(wl=520, na=0.8, ni=1.0, res=150, size=a + 3)
    if fn == "zernike":
        return [zernike.zernike(*x, a)]
    if fn == "zernike many":
        return [zernike.zernike(*x, list(range(b, a + b + 2)), norm=bool(a % 2))]
    if fn == "noll2degrees":
        return list(zernike.noll2degrees(x[0]))
    if fn == "degrees2noll":
        return [zernike.degrees2noll(*x)]
    if fn in ("easy_fft", "easy_ifft"):
        return [getattr(utils, fn)(x[0], axes=(None, (1, 2), (0, 2))[a % 3])]
    if fn == "fft_pad":
        return [utils.fft_pad(x[0], (b + 2, a + 5, 7), mode="constant")]
    if fn == "bin":
        return [utils.bin_ndarray(x[0], bin_size=(1, 2, 2), operation=("mean", "sum")[a % 2])]
    if fn == "radial":
        return list(utils.radial_profile(x[0]))
    if fn == "center":
        return [utils.center_data(x[0])]
    if fn == "remove_bg":
        return [utils.remove_bg(x[0], 1.0 + a / 10)]
    if fn == "prep":
        return [utils.prep_data_for_PR(x[0], a + b, 1.1)]
    if fn == "psqrt":
        return [utils.psqrt(x[0])]
    if fn == "cart2pol":
        return list(utils.cart2pol(*x))
    if fn == "labview":
        o = {k: v for k, v in opts.items() if k != "size"}
        return [np.array(labview.labview(x[0], zres=300, max_iters=a, phase_only=bool(b % 2), **o))]
    if fn == "zrange":
        m = otf.HanserPSF(zrange=x[0], condition=("none", "sine")[b % 2], **opts)
        return [m.PSFa, m.zrange]
    if fn == "pupil":
        m = otf.HanserPSF(zsize=b, zres=200, **opts)
        m.apply_pupil(x[0])
        return [m.PSFa, m.OTFi]
    if fn == "aberration":
        m = otf.apply_aberration(otf.HanserPSF(zsize=b, zres=200, **opts), *x)
        return [m.PSFa, m.PSFi]
    opts.pop("size")
    kw = dict(opts, zres=300)
    r = phaseretrieval.retrieve_phase(x[0], kw, max_iters=2, phase_only=bool(a % 2))
    zd = r.fit_to_zernikes(b + 2)
    return [r.mag, r.phase, r.mse, zd.mcoefs, zd.pcoefs, r.generate_psf()]


def fresh_run(c):
    return [np.asarray(x) for x in run(c)]


@st.composite
def model_call(draw):
    small = st.sampled_from((4, 5, 6, 7, 8, 9))
    kind = draw(st.sampled_from(("hanser", "hanser", "sheppard", "scope", "scope", "named")))
    if kind == "scope":
        return dict(fn="scope", p=draw(scopes.any_scope(max_fine=18, max_planes=5, zranges=True)))
    if kind == "sheppard":
        return dict(fn="model", p=draw(gen.sheppard(sizes=small, max_z=9)))
    p = draw(gen.hanser(sizes=small, max_planes=3))
    if kind == "named":
        names = draw(st.lists(st.tuples(st.integers(2, 15), gen.frac(-1, 1)).map(list), min_size=1, max_size=3))
        return dict(fn="named", p=p, names=names)
    return dict(fn="model", p=p)


@st.composite
def model_twin(draw, c):
    """The same with one thing different."""
    p = dict(c["p"])
    keys = sorted(k for k in p if k not in ("kind", "model", "size", "oversample_factor"))
    k = draw(st.sampled_from(keys + ["zrange"] * 2 * ("zrange" in p)))
    v = p[k]
    if k == "zrange":
        p[k] = draw(st.sampled_from((v[::-1], sorted(v), [-z for z in v], v[1:] + v[:1], v + v[:1])))
    elif k == "orientations":
        p[k] = draw(st.sampled_from((v[::-1], [-o for o in v], v[1:] + v[:1], [o + 0.1 for o in v])))
    elif k in ("vec_corr", "condition"):
        p[k] = draw(st.sampled_from(gen.VEC if k == "vec_corr" else gen.COND))
    elif isinstance(v, bool):
        p[k] = not v
    elif k in ("zsize",):
        p[k] = v + draw(st.sampled_from((1, 2)))
    elif v is None:
        p[k] = dict(wiener=0.1, na_exc=p["na"] * 0.9, wl_exc=p["wl"] * 0.95).get(k)
    else:
        # (only in the direction that keeps it valid)
        p[k] = v * (1 + draw(gen.logfrac(1e-7, 0.1)) * (1 if k in ("wl", "ni", "pinhole_size", "wiener") else -1))
    c = dict(c, p=p)
    if "names" in c and draw(st.booleans()):
        names = [list(x) for x in c["names"]]
        names[0][1] *= -1
        c = dict(c, p=dict(c["p"]) if draw(st.booleans()) else p, names=names)
    return c
