"""P31: no function changes what it is given, and how an array lies in memory makes no difference."""

import copy

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Property, Violation, array, close, require, sut

PROP = Property(
    "P31",
    "cases are calls of all public functions and methods that take arrays, dictionaries or models, with random data laid "
    "out in memory at random (C or Fortran order, reversed, strided, read-only, big-endian) and containers of the "
    "caller; the arguments are compared with copies, the results with those for plain arrays; arguments that the caller "
    "changes after the call, before anything has been read or after; non-trivial: every "
    "distinct case with an array that isn't plain, or any with a container or model",
    ["results are compared to a relative 1e-9"],
)  # fmt: skip

LAYOUTS = ("plain", "fortran", "reversed", "strided", "readonly", "swapped", "offset")


def lay(a, how):
    """The same values, otherwise in memory. Returns the array and whatever owns its data."""
    if how == "fortran":
        b = np.asfortranarray(a)
    elif how == "reversed":
        s = (slice(None, None, -1),) * a.ndim
        b = np.ascontiguousarray(a[s])[s]
    elif how == "strided":
        big = np.full(tuple(2 * n for n in a.shape), 77, dtype=a.dtype)
        b = big[(slice(None, None, 2),) * a.ndim]
        b[...] = a
    elif how == "offset":
        big = np.full(tuple(n + 2 for n in a.shape), 77, dtype=a.dtype)
        b = big[(slice(1, -1),) * a.ndim]
        b[...] = a
    elif how == "swapped":
        b = a.astype(a.dtype.newbyteorder())
    else:
        b = a.copy()
    if how == "readonly":
        b.flags.writeable = False
    assert np.array_equal(a, b)
    return b


def flat(x):
    """All the arrays of a result."""
    if isinstance(x, (list, tuple)):
        return [a for v in x for a in flat(v)]
    return [np.asarray(x)]


def functions(opt=0):
    """Name: (shapes and kinds of the arrays, call). The options are those of the number opt."""
    from pyotf import microscope, utils, zernike
    from pyotf.labview import labview
    from pyotf.otf import HanserPSF, apply_aberration
    from pyotf.phaseretrieval import retrieve_phase

    optics = dict(wl=520.0, na=0.9, ni=1.0, res=150.0)

    def planes(model):
        return [model.PSFa, model.PSFi]

    def hanser(z):
        return HanserPSF(**optics, size=7, zrange=z)

    def later(z):
        m = HanserPSF(**optics, size=7)
        m.zrange = z
        return m

    def pupil(p):
        m = HanserPSF(**optics, size=p.shape[0], zrange=[0, 300.0])
        m.apply_pupil(p)
        return m

    def retrieved(d, n=4):
        return retrieve_phase(d, optics | dict(zres=400.0), n, 0, 0)

    def fitted(d):
        zd = retrieved(d).fit_to_zernikes(9)
        return [zd.mcoefs, zd.pcoefs]

    def reconstructed(s):
        from pyotf.phaseretrieval import ZernikeDecomposition

        g = np.random.default_rng(opt)
        zd = ZernikeDecomposition(g.standard_normal(8), g.standard_normal(8), g.standard_normal((8, 4, 4)))
        return [zd.mag(s), zd.phase(s), zd.complex_pupil(s, s)]

    scope = dict(
        model="hanser", na=0.9, ni=1.0, wl=520.0, size=7, pixel_size=150.0, oversample_factor=1, zres=400.0, zsize=3,
        wl_exc=None, na_exc=0.7, wiener=None, dc_suppress=False,
    )  # fmt: skip
    axes = (None, (0,), (-1,), None)[opt % 4]
    mode = ("constant", "median", "edge", "wrap")[opt // 4 % 4]
    width = (1.0, 2.0, 1.5, 0.7, 3)[opt // 16 % 5]
    return {
        "easy_fft": ("any", lambda a: utils.easy_fft(a, axes)),
        "easy_ifft": ("any complex", lambda a: utils.easy_ifft(a, axes)),
        "fft_pad": ("any", lambda a: utils.fft_pad(a, mode=mode)),
        "fft_pad to a size": ("any", lambda a: utils.fft_pad(a, 9, mode=mode)),
        "fft_pad to a shape": ("any+shape", lambda a, n: utils.fft_pad(a, n, mode=mode)),
        "slice_maker": ("window", lambda x, w: [[q.start, q.stop] for q in utils.slice_maker(x, w)]),
        "bin_ndarray by bins": ("any+bins", lambda a, b: utils.bin_ndarray(a, bin_size=b, operation=("sum", "mean")[opt % 2])),
        "degrees2noll": ("nm", zernike.degrees2noll),
        "zernike of given degrees": ("nm", lambda n, m: zernike.zernike(np.full((2, 3), 0.4), np.full((2, 3), 0.7), n, m, norm=opt % 2 > 0)),
        "reconstruction": ("modes", reconstructed),
        "orientations": ("z", lambda o: microscope.SIM2DMicroscope(orientations=o, **scope).PSF),
        "zrange of a microscope": ("z", lambda z: microscope.SIM3DMicroscope(orientations=[0.3], zrange=z, **scope).PSF),
        "cart2pol": ("two", utils.cart2pol),
        "center_data": ("any", utils.center_data),
        "remove_bg": ("int", utils.remove_bg),
        "psqrt": ("any", utils.psqrt),
        "prep_data_for_PR": ("int3", utils.prep_data_for_PR),
        "prep_data_for_PR, cropped": ("int3", lambda a: utils.prep_data_for_PR(a, 4)),
        "prep_data_for_PR, padded": ("int3", lambda a: utils.prep_data_for_PR(a, 12)),
        "bin_ndarray": ("any", lambda a: utils.bin_ndarray(a, bin_size=2)),
        "bin_ndarray by shape": ("any", lambda a: utils.bin_ndarray(a, new_shape=a.shape, operation="mean")),
        "radial_profile": ("2d", lambda a: utils.radial_profile(a, binsize=width)),
        "radial_profile, complex": ("2d complex", lambda a: utils.radial_profile(a, binsize=width)),
        "radial_profile about a centre": ("2d+2", lambda a, c: utils.radial_profile(a, center=c, binsize=width)),
        "zernike by noll": ("disk", lambda r, t: zernike.zernike(r, t, np.arange(1, 8))),
        "zernike by degrees": ("disk", lambda r, t: zernike.zernike(r, t, np.array([2, 3]), np.array([-2, 1]))),
        "zernike of given modes": ("noll", lambda n: zernike.zernike(np.full((2, 3), 0.4), np.full((2, 3), 0.7), n)),
        "noll2degrees": ("noll", zernike.noll2degrees),
        "HanserPSF(zrange)": ("z", lambda z: planes(hanser(z))),
        "HanserPSF.zrange": ("z", lambda z: planes(later(z))),
        "apply_pupil": ("square complex", lambda p: planes(pupil(p))),
        "apply_aberration": ("coefs", lambda m, p: planes(apply_aberration(hanser([0.0, 200.0]), m, p))),
        "apply_aberration, phase": ("coefs", lambda m, p: planes(apply_aberration(hanser([0.0, 200.0]), None, p))),
        "retrieve_phase": ("psf", lambda d: [retrieved(d).mse, retrieved(d).complex_pupil]),
        "fit_to_zernikes": ("psf", fitted),
        "generate_psf": ("psf", lambda d: retrieved(d).generate_psf(size=6)),
        "generate_psf of planes": ("psf+z", lambda d, z: retrieved(d).generate_psf(zrange=z)),
        "labview": ("int3", lambda d: labview(d, 520.0, 0.9, 1.0, 150.0, 400.0, 3)),
    }


NAMES = sorted(
    [
        "easy_fft", "easy_ifft", "fft_pad", "fft_pad to a size", "cart2pol", "center_data", "remove_bg", "psqrt",
        "prep_data_for_PR", "prep_data_for_PR, cropped", "prep_data_for_PR, padded", "bin_ndarray",
        "bin_ndarray by shape", "radial_profile", "radial_profile, complex", "radial_profile about a centre",
        "zernike by noll", "zernike by degrees", "zernike of given modes", "noll2degrees", "HanserPSF(zrange)",
        "HanserPSF.zrange", "apply_pupil", "apply_aberration", "apply_aberration, phase", "retrieve_phase",
        "fit_to_zernikes", "generate_psf", "generate_psf of planes", "labview", "fft_pad to a shape", "slice_maker",
        "bin_ndarray by bins", "degrees2noll", "zernike of given degrees", "reconstruction", "orientations",
        "zrange of a microscope",
    ]
)  # fmt: skip


@st.composite
def calls(draw):
    return dict(
        name=draw(st.sampled_from(NAMES)), seed=draw(gen.seeds), layouts=draw(st.tuples(*[st.sampled_from(LAYOUTS)] * 2)),
        dims=draw(st.lists(st.integers(2, 8), min_size=1, max_size=3)), opt=draw(st.integers(0, 79)),
        type=draw(st.sampled_from(("double", "double", "integer", "single"))),
    )  # fmt: skip


def data(spec, c):
    """The arrays, of the type asked for where that is free to choose."""
    out = values(spec, c)
    free = {"any": 1, "two": 2, "2d": 1, "2d+2": 2, "z": 1, "any+shape": 1, "any+bins": 1, "window": 2, "coefs": 2}.get(spec, 0)
    for i in range(free):
        if c["type"] == "integer":
            out[i] = np.rint(out[i] * 3).astype(int)
        elif c["type"] == "single":
            out[i] = out[i].astype(np.float32)
    return out


def values(spec, c):
    g = np.random.default_rng(c["seed"])
    dims = tuple(c["dims"])
    square = (dims[0] + 3,) * 2
    if spec == "any":
        return [g.standard_normal(dims)]
    if spec == "any+shape":
        return [g.standard_normal(dims), g.integers(1, 10, len(dims))]
    if spec == "any+bins":
        return [g.standard_normal(dims), g.integers(1, 3, len(dims))]
    if spec == "window":
        return [g.standard_normal(len(dims)) * 6, g.random(len(dims)) * 9]
    if spec == "nm":
        n = g.integers(0, 12, dims[0])
        return [n, n - 2 * (g.random(n.shape) * (n + 1)).astype(int)]
    if spec == "modes":
        return [g.integers(-8, 8, dims[0])]
    if spec == "any complex":
        return [g.standard_normal(dims) + 1j * g.standard_normal(dims)]
    if spec == "two":
        return [g.standard_normal(dims), g.standard_normal(dims)]
    if spec == "int":
        return [g.poisson(20, dims)]
    if spec == "int3":
        a = g.poisson(20, (3,) + square)
        # the brightest pixel, and the most frequent value, have to be clear
        a[0, :2] = 12
        a[1, square[0] // 2, square[1] // 2] = 300
        return [a]
    if spec.startswith("2d"):
        a = g.standard_normal(square)
        if spec.endswith("complex"):
            a = a + 1j * g.standard_normal(square)
        return [a] + ([g.integers(0, 10, 2) / 2] if spec == "2d+2" else [])
    if spec == "disk":
        return [g.random(dims[:2]), 6 * g.random(dims[:2])]
    if spec == "noll":
        return [g.integers(1, 30, dims[0])]
    if spec == "z":
        return [g.standard_normal(dims[0]) * 500]
    if spec == "square complex":
        return [g.standard_normal(square) + 1j * g.standard_normal(square)]
    if spec == "coefs":
        return [0.1 * g.standard_normal(dims[0]), g.standard_normal(dims[0])]
    psf = g.random((4,) + square) + 0.1
    return [psf] + ([g.standard_normal(3) * 400] if spec == "psf+z" else [])


@PROP.law("arrays", calls(), 2400)
def arrays(c):
    name = c["name"]
    spec, call = functions(c["opt"])[name]
    plain = data(spec, c)
    if spec == "int3" and len(np.unique(np.bincount(plain[0].ravel()))) == 1:
        return False, ["n/a"]
    with sut(name):
        want = [np.array(a) for a in flat(call(*[a.copy() for a in plain]))]
    args = [lay(a, how) for a, how in zip(plain, c["layouts"])]
    bases = [(a.base, copy.deepcopy(a.base)) for a in args if a.base is not None]
    how = list(c["layouts"][: len(args)])
    with sut(f"{name} of arrays that are {', '.join(how)}"):
        got = flat(call(*args))
    for a, b, h in zip(args, plain, how):
        require(np.array_equal(a, b) and a.shape == b.shape, f"{name} changed its argument ({h})")
    for base, before in bases:
        require(np.array_equal(base, before), f"{name} wrote outside of its argument")
    for a in got:
        # results are the caller's own
        if a.flags.writeable and a.size:
            old = a.copy()
            a[...] = 0
            for x, b, h in zip(args, plain, how):
                require(np.array_equal(x, b), f"writing into the result of {name} changes its argument ({h})")
            a[...] = old
    require(len(got) == len(want), f"{name}: results differ in number")
    for a, b in zip(got, want):
        require(np.array_equal(np.isfinite(a), np.isfinite(b)), f"{name}: finite values depend on the layout {how}")
        close(np.where(np.isfinite(a), a, 0), np.where(np.isfinite(b), b, 0), f"{name} of arrays that are {', '.join(how)}")
    return set(how) != {"plain"}, [name]


@st.composite
def plotted(draw):
    low = st.one_of(st.none(), gen.frac(0.01, 0.6))
    return dict(
        what=draw(st.sampled_from(("psf_plot", "otf_plot"))), shape=draw(st.lists(st.integers(1, 7), min_size=2, max_size=2)),
        seed=draw(gen.seeds), layout=draw(st.sampled_from(LAYOUTS)), vmin=draw(low), vmax=draw(st.one_of(st.none(), gen.frac(0.7, 1.5))),
        mip=draw(st.booleans()), special=draw(st.sampled_from((None, 0.0, -1.0, np.nan))),
    )  # fmt: skip


@PROP.law("plotted arrays", plotted(), 120, thorough=2500)
def plotted_law(c):
    """Plots leave the data as it is, and what is shown doesn't depend on its layout."""
    from matplotlib.figure import Figure

    from pyotf import display

    g = np.random.default_rng(c["seed"])
    nz, n = c["shape"]
    plain = g.random((nz, n, n)) + 0.05
    if c["special"] is not None:
        plain[g.random(plain.shape) < 0.2] = c["special"]
    kw = dict(zres=0.2, res=0.1) | {k: c[k] for k in ("vmin", "vmax") if c[k] is not None}
    if c["what"] == "otf_plot":
        kw |= dict(na=0.8, ni=1.0, wl=0.5)
    else:
        kw["mip"] = c["mip"]
    shown = []
    for a in (plain.copy(), lay(plain, c["layout"]) if c["special"] is None or c["special"] == c["special"] else plain.copy()):
        with sut(c["what"]):
            _, axs = getattr(display, c["what"])(a, fig=Figure((2, 2)), **kw)
        require(np.array_equal(a, plain, equal_nan=True), f"{c['what']} changed its data")
        shown.append([np.ma.getdata(x.images[0].get_array()).copy() for x in axs if x.images])
    for a, b in zip(*shown):
        require(np.array_equal(a, b, equal_nan=True), f"{c['what']} shows something else for data that is {c['layout']}")
    return True, [c["what"], c["layout"]]


@st.composite
def containers(draw):
    p = draw(gen.hanser(sizes=st.sampled_from((7, 8, 9)), max_planes=4))
    return dict(p=p, seed=draw(gen.seeds), what=draw(st.sampled_from(("names", "named", "model", "params", "scope", "slices"))),
                read=draw(st.booleans()), n=draw(st.integers(1, 15)))


@PROP.law("containers and models", containers(), 500)
def containers_law(c):
    """Dictionaries, lists and models of the caller are as they were."""
    from pyotf.otf import apply_aberration, apply_named_aberration, apply_named_aberrations
    from pyotf.phaseretrieval import retrieve_phase

    from .. import scopes

    p, what = c["p"], c["what"]
    g = np.random.default_rng(c["seed"])
    if what in ("names", "named", "model"):
        with sut("aberrations"):
            model = gen.psf_model(p)
            other = gen.psf_model(p)
            if c["seed"] % 2:
                mine = g.standard_normal((p["size"],) * 2) + 0j
                model.apply_pupil(mine)
                other.apply_pupil(mine.copy())
            if c["read"]:
                model.OTFi
            if what == "names":
                d = {n: float(g.standard_normal()) for n in g.permutation(ref.NAMES)[: c["n"]]}
                before = dict(d)
                new = apply_named_aberrations(model, d)
                require(list(d.items()) == list(before.items()), "apply_named_aberrations changed the dictionary")
            elif what == "named":
                new = apply_named_aberration(model, ref.NAMES[c["n"] - 1], 1.3)
            else:
                new = apply_aberration(model, None, g.standard_normal(c["n"]))
            new.PSFi
            require(new is not model, "the aberrated model isn't a new one")
            new.wl = p["wl"] * 1.5
            new.zrange = [0.0, 1.0, 2.0]
            for n in ("PSFa", "PSFi", "OTFa", "OTFi"):
                close(getattr(model, n), getattr(other, n), f"{n} of the model which was aberrated", tol=1e-12)
            for k, v in p.items():
                if k != "zrange":
                    require(getattr(model, k) == v, f"{k} of the model which was aberrated changed")
            close(model.zrange, other.zrange, "zrange of the model which was aberrated")
        return True, [what]
    if what == "params":
        d = {k: p[k] for k in ("wl", "na", "ni", "res")}
        if c["n"] % 2:
            d["zrange"] = [0.0, 300.0, -300.0]
        else:
            d["zres"] = 0.5 * p["wl"]
        if c["n"] % 3 == 0:
            d |= dict(vec_corr="total", condition="sine")
        before = copy.deepcopy(d)
        psf = g.random((3, p["size"], p["size"]))
        with sut("retrieve_phase"):
            retrieve_phase(psf, d, 3, 0, 0).generate_psf(zsize=2)
        require(d == before and list(d) == list(before), f"retrieve_phase changed params from {before} to {d}")
        return True, [what]
    if what == "slices":
        with sut("retrieve_phase"):
            psf = g.random((3, p["size"], p["size"])) + 0.1
            d = {k: p[k] for k in ("wl", "na", "ni", "res")} | dict(zres=0.5 * p["wl"])
            r = retrieve_phase(psf, d, 3, 0, 0)
            mag, phase = r.mag.copy(), r.phase.copy()
            zd = r.fit_to_zernikes(c["n"])
            coefs = zd.pcoefs.copy(), zd.mcoefs.copy(), zd.zerns.copy()
            inner = r.model.PSFi.copy()
            first = r.generate_psf()
            r.generate_psf(size=5, zrange=[1.0, 2.0])
            r.generate_zd_psf(zsize=2)
            r.generate_zd_psf()
            zd.complex_pupil(sphase=slice(2, None))
            require(np.array_equal(r.model.PSFi, inner), "the model of the result changed when PSFs were generated")
            close(r.generate_psf(), first, "PSF generated a second time", tol=1e-12)
            for a, b, n in zip((r.mag, r.phase, zd.pcoefs, zd.mcoefs, zd.zerns), (mag, phase, *coefs), ("mag", "phase", "pcoefs", "mcoefs", "zerns")):
                require(np.array_equal(a, b), f"{n} changed when PSFs were generated")
        return True, [what]
    o = [float(v) for v in g.random(1 + c["n"] % 3)]
    before = list(o)
    with sut("SIM microscope"):
        s = scopes.build(
            dict(kind="SIM2D", model="hanser", oversample_factor=1, pixel_size=p["res"], orientations=o, na_exc=None,
                 wl_exc=None, wiener=None, dc_suppress=True) | {k: p[k] for k in ("wl", "na", "ni", "size")}
        )  # fmt: skip
        s.PSF
        require(o == before, "the microscope changed the list of orientations")
        psf = np.array(s.model.PSFi)
        s.wiener = 0.3
        s.PSF, s.OTF
        close(s.model.PSFi, psf, "the microscope's PSF model after a change of wiener", tol=1e-12)
    return True, [what]


LATER = (
    "HanserPSF(zrange)", "HanserPSF.zrange", "apply_pupil", "apply_aberration", "apply_named_aberrations", "retrieve_phase",
    "params", "orientations", "set orientations", "zrange of a microscope", "scope.model.zrange",
)  # fmt: skip


@st.composite
def afterwards(draw):
    p = draw(gen.hanser(sizes=st.sampled_from((7, 8, 9)), max_planes=4))
    p = {k: v for k, v in p.items() if k not in ("zrange", "zres", "zsize")}
    n = draw(st.integers(1, 4))
    return dict(
        p=p, what=draw(st.sampled_from(LATER)), seed=draw(gen.seeds), n=n, read=draw(st.booleans()),
        form=draw(st.sampled_from(("array", "array", "list", "fortran", "ints", "view"))),
    )  # fmt: skip


@PROP.law("changed afterwards", afterwards(), 900)
def changed_afterwards(c):
    """What the caller does later to its arrays, lists and dictionaries reaches nothing that was made from them."""
    from pyotf.microscope import BaseSIMMicroscope, WidefieldMicroscope
    from pyotf.otf import HanserPSF, apply_aberration, apply_named_aberrations
    from pyotf.phaseretrieval import retrieve_phase

    p, n, what = c["p"], c["n"], c["what"]

    def form(a):
        """The values in a container of the caller's."""
        if c["form"] == "list":
            return a.tolist()
        if c["form"] == "ints" and a.dtype.kind == "f":
            return np.rint(a * 100).astype(int)
        if c["form"] == "fortran":
            return np.asfortranarray(a)
        if c["form"] == "view":
            return np.concatenate([a, a])[: len(a)]
        return a.copy()

    def spoil(x):
        if isinstance(x, dict):
            x.clear()
        elif isinstance(x, list):
            x[:] = [0.123] * (len(x) + 1)
        else:
            x[...] = 1

    def model(m):
        return lambda: [m.PSFa, m.PSFi, m.OTFa, m.zrange]

    def make():
        """The arguments, and a way to read all that was made from them."""
        g = np.random.default_rng(c["seed"])
        z = form(g.standard_normal(n) * 3 * p["wl"])
        if c["form"] == "ints":
            z = np.asarray(z)
        if what == "HanserPSF(zrange)":
            return [z], model(HanserPSF(**p, zrange=z))
        if what == "HanserPSF.zrange":
            m = HanserPSF(**p)
            m.zrange = z
            return [z], model(m)
        if what == "apply_pupil":
            pupil = g.standard_normal((p["size"],) * 2) + 1j
            pupil = pupil if c["form"] == "list" else form(pupil)
            m = HanserPSF(**p, zrange=[0.0, p["wl"]])
            m.apply_pupil(pupil)
            return [pupil], model(m)
        if what == "apply_aberration":
            mc, pc = form(g.standard_normal(n)), form(g.standard_normal(n))
            return [mc, pc], model(apply_aberration(HanserPSF(**p, zrange=[0.0, p["wl"]]), np.asarray(mc), np.asarray(pc)))
        if what == "apply_named_aberrations":
            d = {k: float(g.standard_normal()) for k in ref.NAMES[:n]}
            return [d], model(apply_named_aberrations(HanserPSF(**p, zrange=[0.0, p["wl"]]), d))
        if what in ("retrieve_phase", "params"):
            data = g.random((3, p["size"], p["size"])) + 0.1
            kw = {k: p[k] for k in ("wl", "na", "ni", "res")} | dict(zrange=form(g.standard_normal(3) * p["wl"]))
            r = retrieve_phase(data, kw, 3, 0, 0)

            def read():
                zd = r.fit_to_zernikes(6)
                return [r.mag, r.phase, r.mse, r.mse_diff, r.pupil_diff, zd.pcoefs, r.generate_psf(), r.complex_pupil]

            return ([data] if what == "retrieve_phase" else [kw["zrange"], kw]), read
        o = {k: v for k, v in p.items() if k not in ("size", "res", "vec_corr", "condition")}
        o |= dict(model="hanser", size=p["size"], pixel_size=p["res"], oversample_factor=1)
        if "orientations" in what:
            angles = form(g.standard_normal(n))
            mine = angles if what == "orientations" else [0.0]
            s = BaseSIMMicroscope(**o, na_exc=None, wl_exc=None, wiener=None, coherent=False, dc=bool(n % 2), dc_suppress=False, orientations=mine)
            if what == "set orientations":
                s.orientations = angles
            return [angles], lambda: [s.PSF, s.OTF, s.model_psf, np.asarray(s.orientations)]
        if what == "zrange of a microscope":
            s = WidefieldMicroscope(**o, zrange=z)
        else:
            s = WidefieldMicroscope(**o)
            s.model.zrange = z
        return [z], lambda: [s.PSF, s.OTF, s.model_psf, s.model.zrange, np.array([ord(x) for x in repr(s)])]

    with sut(what):
        _, read = make()
        want = [np.array(a) for a in read()]
        args, read = make()
        if c["read"]:
            read()
        for a in args:
            spoil(a)
        got = read()
    for a, b in zip(got, want):
        top = np.abs(b[np.isfinite(b)]).max(initial=0)
        require(np.array_equal(np.isfinite(a), np.isfinite(b)), f"{what}: what is finite changed with the caller's {c['form']}")
        close(np.where(np.isfinite(a), a, 0), np.where(np.isfinite(b), b, 0), f"{what}, after the caller's {c['form']} changed", tol=1e-12, scale=top or 1)
    return True, [what, c["form"]]
