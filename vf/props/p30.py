"""P30: plots show the right planes and projections, to scale, and refuse uneven planes."""

import numpy as np
from hypothesis import strategies as st

from .. import gen, scopes
from ..core import Property, close, must_raise, require, sut

PROP = Property(
    "P30",
    "cases are random stacks (no two sides alike) given to psf_plot and otf_plot, and random PSF models and microscopes "
    "plotted by their own methods, with random display options; what is checked is the data, extent and title of every "
    "panel, and the outline of the OTF's support; non-trivial: a stack with three different sides, or a model with zres "
    "other than res",
    ["which panel is which is told by its title; ticks, colours and layout aren't looked at"],
)  # fmt: skip


def figure():
    from matplotlib.figure import Figure

    return Figure((3, 3))


def panels(axs, k=""):
    """The images by the name of their panel."""
    out = {}
    for a in axs:
        if a.images:
            title = a.get_title().replace("$", "").replace("{", "").replace("}", "").replace("_", "").strip()
            require(title not in out, f"two panels are called {title}")
            require(len(a.images) == 1, f"panel {title} has {len(a.images)} images")
            out[title] = a
    names = {k + n for n in ("XY", "XZ", "YZ")}
    require(set(out) == names, f"the panels are {sorted(out)}, not {sorted(names)}")
    return {name[len(k):]: (a, a.images[0]) for name, a in out.items()}


def span(n, d):
    """Coordinates of the first and last sample."""
    return [-(n // 2) * d, (n - 1 - n // 2) * d]


def shown(image, data, extent, what, transpose=False):
    got = np.ma.filled(image.get_array(), np.nan)
    want = data.T if transpose else data
    close(got, want, f"data of the {what} panel", tol=1e-12)
    close(np.array(image.get_extent()), np.array(extent), f"extent of the {what} panel", tol=1e-9)


def check_psf(axs, psf, zres, res, mip):
    nz, ny, nx = psf.shape
    z, y, x = span(nz, zres), span(ny, res), span(nx, res)
    p = panels(axs)
    if mip:
        xy, yz, xz = psf.max(0), psf.max(2), psf.max(1)
    else:
        xy, yz, xz = psf[nz // 2], psf[:, :, nx // 2], psf[:, ny // 2]
    shown(p["XY"][1], xy, x + y, "XY")
    shown(p["XZ"][1], xz, x + z, "XZ")
    shown(p["YZ"][1], yz, z + y, "YZ", transpose=True)
    return p


def check_otf(axs, otf, zres, res, na, ni, wl):
    from matplotlib.patches import Circle, Wedge

    nz, n, _ = otf.shape
    z, x = span(nz, 1 / (nz * zres)), span(n, 1 / (n * res))
    p = panels(axs, "k")
    shown(p["XY"][1], otf[nz // 2], x + x, "kXY")
    shown(p["XZ"][1], otf[:, n // 2], x + z, "kXZ")
    shown(p["YZ"][1], otf[:, :, n // 2], z + x, "kYZ", transpose=True)
    circles = [c for c in p["XY"][0].patches if isinstance(c, Circle)]
    require(len(circles) == 1, f"{len(circles)} circles outline the support")
    close(circles[0].radius, 2 * na / wl, "radius of the support's outline")
    close(np.array(circles[0].center), np.zeros(2), "centre of the support's outline", tol=1e-9, scale=na / wl)
    # the edges of the cone are arcs of spheres through the origin
    for name, lateral in (("XZ", 0), ("YZ", 1)):
        arcs = [w for w in p[name][0].patches if isinstance(w, Wedge)]
        require(len(arcs) == 4, f"{len(arcs)} arcs outline the support in {name}")
        ends = []
        for w in arcs:
            c = np.array(w.center)
            close(w.r, ni / wl, f"radius of an arc in {name}")
            close(np.hypot(*c), ni / wl, f"distance of an arc's centre from the origin in {name}")
            for t in np.deg2rad([w.theta1, w.theta2]):
                ends.append(c + w.r * np.array([np.cos(t), np.sin(t)]))
            # the arc itself, not the rest of the circle
            a = np.rad2deg(np.arcsin(min(1, na / ni)))
            close((w.theta2 - w.theta1) % 360, 2 * a, f"angle of an arc in {name}", tol=1e-6, scale=360)
        k = 2 * min(na, ni) / wl
        ends = np.array(ends)
        if lateral:
            ends = ends[:, ::-1]
        # an arc goes from the origin to the edge: all of the ends are on the axis, at 0 or 2 na / wl
        close(ends[:, 1], np.zeros(8), f"axial frequency of the arcs' ends in {name}", tol=1e-6, scale=k)
        close(np.sort(ends[:, 0]), np.repeat([-k, 0, k], [2, 4, 2]), f"lateral ends of the arcs in {name}", tol=1e-6)


@st.composite
def stacks(draw):
    c = dict(
        shape=[draw(st.integers(1, 12)), draw(st.integers(1, 13)), draw(st.integers(1, 13))], seed=draw(gen.seeds),
        zres=draw(gen.logfrac(1e-3, 1e3)), res=draw(gen.logfrac(1e-3, 1e3)), mip=draw(st.booleans()), kw={},
    )  # fmt: skip
    if draw(st.booleans()):
        c["kw"]["gamma"] = draw(gen.frac(0.2, 1))
    if draw(st.booleans()):
        c["kw"]["vmin"] = draw(gen.frac(0.0, 0.2))
    if draw(st.booleans()):
        c["kw"]["vmax"] = draw(gen.frac(0.5, 1.5))
    if draw(st.booleans()):
        c["kw"]["cmap"] = draw(st.sampled_from(("viridis", "Greys_r")))
    if draw(st.booleans()):
        c["kw"]["interpolation"] = draw(st.sampled_from(("bicubic", "none")))
    return c


@PROP.law("psf_plot", stacks(), 400, thorough=6000)
def psf_law(c):
    from pyotf.display import psf_plot

    psf = gen.rng_array(c["seed"], c["shape"], "uniform")
    data = psf.copy()
    fig = figure()
    kw = dict(c["kw"])
    if not c["mip"]:
        kw["mip"] = False
    with sut("psf_plot"):
        out, axs = psf_plot(data, zres=c["zres"], res=c["res"], fig=fig, **kw)
    require(out is fig, "psf_plot doesn't return the figure it was given")
    require(np.array_equal(data, psf), "psf_plot changed the data")
    p = check_psf(axs, psf, c["zres"], c["res"], c["mip"])
    for name, (_, image) in p.items():
        norm = image.norm
        close(norm.gamma, c["kw"].get("gamma", 0.5), f"gamma of {name}")
        for k in ("vmin", "vmax"):
            if k in c["kw"]:
                close(getattr(norm, k), c["kw"][k], f"{k} of {name}", scale=1)
        require(image.get_cmap().name == c["kw"].get("cmap", "inferno"), f"{name} has the wrong colours")
    return len(set(c["shape"])) == 3, ["mip" if c["mip"] else "slices"]


@st.composite
def otf_stacks(draw):
    c = draw(stacks())
    c["shape"][1] = c["shape"][2]
    c["kw"].pop("gamma", None)
    c["kw"]["vmin"] = draw(gen.frac(0.01, 0.2))
    ni = draw(gen.frac(1.0, 1.6))
    # beyond the index there is nothing more to collect
    c["optics"] = dict(ni=ni, na=ni * draw(gen.frac(0.2, 0.98)), wl=draw(gen.logfrac(1e-7, 1e3)))
    return c


@PROP.law("otf_plot", otf_stacks(), 300, thorough=4000)
def otf_law(c):
    from pyotf.display import otf_plot

    otf = gen.rng_array(c["seed"], c["shape"], "uniform") + 0.01
    data = otf.copy()
    fig = figure()
    with sut("otf_plot"):
        out, axs = otf_plot(data, **c["optics"], zres=c["zres"], res=c["res"], fig=fig, **c["kw"])
    require(out is fig, "otf_plot doesn't return the figure it was given")
    require(np.array_equal(data, otf), "otf_plot changed the data")
    check_otf(axs, otf, c["zres"], c["res"], **c["optics"])
    return len(set(c["shape"])) == 2, ["otf"]


@st.composite
def models(draw):
    c = dict(kind=draw(st.sampled_from(("hanser", "hanser", "sheppard", "scope", "scope"))), otf=draw(st.booleans()))
    c["mip"] = draw(st.booleans())
    if c["kind"] == "scope":
        c["p"] = draw(scopes.any_scope(max_fine=27, max_planes=9))
        c["p"]["size"] = min(c["p"]["size"], 15)
        # whole field within 8 depths of field and 16 resolution elements
        if "dual" not in c["p"] and c["p"]["model"].lower() == "hanser" and draw(st.integers(0, 2)) == 0:
            p = c["p"]
            step, start = draw(gen.frac(0.05, 1)) * p["wl"], draw(gen.frac(-3, 0)) * p["wl"]
            p["zrange"] = [start + i * step for i in range(draw(st.integers(3, 9)))]
            c["step"] = step
            if draw(st.booleans()):
                p["zrange"] = p["zrange"][::-1]
        return c
    kw = dict(sizes=st.sampled_from((6, 7, 8, 11, 12, 15)))
    if c["kind"] == "hanser":
        p = c["p"] = draw(gen.hanser(max_planes=5, **kw))
        p.pop("zrange", None)
        p["zsize"], p["zres"] = draw(st.integers(3, 9)), draw(gen.frac(0.05, 1)) * p["wl"]
        if draw(st.booleans()):
            # an even range, with a step that needn't have to do with zres
            step, start = draw(gen.frac(0.05, 1)) * p["wl"], draw(gen.frac(-3, 0)) * p["wl"]
            p["zrange"] = [start + i * step for i in range(draw(st.integers(3, 9)))]
            c["step"] = step
            if draw(st.integers(0, 3)) == 0:
                step = c["step"] = draw(st.integers(1, 25))
                p["zrange"] = [step * i + 3 for i in range(len(p["zrange"]))]
                c["ztype"] = draw(st.sampled_from(("uint8", "uint16", "int16", "int64")))
            if draw(st.booleans()):
                p["zrange"] = p["zrange"][::-1]
    else:
        c["p"] = draw(gen.sheppard(max_z=16, min_sin=0.7, **kw))
    return c


@PROP.law("methods of models", models(), 300, thorough=4000)
def methods(c):
    """plot_psf and plot_otf show the model's own PSFi and OTFi, on its own grid."""
    p = c["p"]
    with sut("model"):
        if "ztype" in c:
            model = gen.psf_model(p | dict(zrange=np.array(p["zrange"], c["ztype"])))
        else:
            model = scopes.build(p) if c["kind"] == "scope" else gen.psf_model(p)
        psf, otf = (model.PSF, model.OTF) if c["kind"] == "scope" else (model.PSFi, model.OTFi)
    psf, otf = np.array(psf), np.abs(otf)
    if not np.isfinite(psf).all() or not psf.max() > 0 or not psf.sum() > 0:
        return False, ["dark"]
    if c["kind"] == "scope":
        res = p["pixel_size"]
        zres = c.get("step", res if p.get("zres") is None else p["zres"])
    else:
        res, zres = p["res"], c.get("step", p["zres"])
    fig = figure()
    labels = [c["kind"], "otf" if c["otf"] else "psf", "zrange" if "zrange" in p else "zres"]
    if c["otf"]:
        with sut("plot_otf"):
            out, axs = model.plot_otf(fig=fig)
        otf = np.maximum(otf / otf.max(), np.finfo(float).eps)
        check_otf(axs, otf, zres, res, p["na"], p["ni"], p["wl"])
    else:
        dof = p["wl"] / (p["ni"] - np.sqrt(p["ni"] ** 2 - p["na"] ** 2))
        if psf.shape[0] * zres > 7 * dof or psf.shape[1] * res > 15 * p["wl"] / 2 / p["na"]:
            return False, ["cropped"]
        with sut("plot_psf"):
            out, axs = model.plot_psf(fig=fig, mip=c["mip"])
        check_psf(axs, psf, zres, res, c["mip"])
    require(out is fig, "the figure isn't the one given")
    return zres != res, labels


@st.composite
def wide(draw):
    p = draw(gen.optics(sizes=st.sampled_from((48, 53, 64, 65)), max_frac=0.98, min_frac=0.7))
    zres, zsize = draw(gen.frac(0.2, 2)) * p["wl"], draw(st.integers(3, 40))
    if draw(st.integers(0, 2)) == 0:
        # planes of their own
        z = ((np.arange(zsize) - zsize // 2) * zres).tolist()
        other = draw(st.sampled_from((None, p["res"], 2 * zres, 0.3 * zres)))
        extra = dict(zrange=z[::-1] if draw(st.booleans()) and zsize % 2 else z)
        if other is not None:
            extra["zres"] = other
        return dict(p=p | extra, scope=draw(st.booleans()), step=zres)
    of = 1
    scope = draw(st.booleans())
    if scope and draw(st.integers(0, 2)) == 0:
        # microscopes show camera pixels
        of, zsize = 3, draw(st.integers(3, 9))
    return dict(p=p | dict(zres=zres, zsize=zsize), scope=scope, step=zres, of=of)


@PROP.law("large fields", wide(), 100, thorough=1500)
def large(c):
    """Of a large field the plot shows 32 Abbe limits by 16 depths of field around the brightest pixel."""
    p = c["p"]
    with sut("model"):
        if c["scope"]:
            q = {k: p[k] for k in ("wl", "na", "ni", "size", "zres", "zsize", "zrange") if k in p}
            model = scopes.build(q | dict(kind="Widefield", model="hanser", pixel_size=p["res"], oversample_factor=c.get("of", 1)))
            psf = model.PSF
        else:
            model = gen.psf_model(p)
            psf = model.PSFi
    psf = np.array(psf)
    lateral = 32 * p["wl"] / 2 / p["na"] / p["res"]
    axial = 16 * p["wl"] / (p["ni"] - np.sqrt(p["ni"] ** 2 - p["na"] ** 2)) / c["step"]
    cut = []
    for n, w in zip(psf.shape, (axial, lateral, lateral)):
        if abs(w % 1 - 0.5) < 1e-6:
            return False, ["rounding"]
        w, c0 = int(np.floor(w + 0.5)), n // 2
        cut.append(slice(max(0, c0 - w // 2), c0 - w // 2 + w))
    with sut("plot_psf"):
        _, axs = model.plot_psf(fig=figure())
    part = psf[tuple(cut)]
    check_psf(axs, part, c["step"], p["res"], True)
    return part.shape != psf.shape, ["cropped" if part.shape != psf.shape else "whole", f"x{c.get('of', 1)}"]


@st.composite
def uneven(draw):
    p = draw(gen.optics(sizes=st.sampled_from((5, 6, 8))))
    p["zrange"] = draw(gen.zplanes(p["wl"], p["na"], p["ni"], 6))
    if draw(st.booleans()):
        # nearly even
        n, step = draw(st.integers(3, 8)), draw(gen.logfrac(0.01, 2)) * p["wl"]
        z = [i * step for i in range(n)]
        z[draw(st.integers(0, n - 1))] += draw(gen.logfrac(1e-3, 2)) * step
        p["zrange"] = z
    if draw(st.integers(0, 3)) == 0:
        p["scope"] = draw(st.sampled_from(("Widefield", "Apotome", "SIM3D")))
    return p


@PROP.law("uneven planes", uneven(), 300, thorough=6000)
def uneven_law(p):
    p = dict(p)
    scope = p.pop("scope", None)
    z = np.asarray(p["zrange"])
    d = np.diff(z)
    if len(d) >= 2 and np.ptp(d) < 1e-4 * np.abs(d).max():
        return False, ["even"]
    with sut("model"):
        if scope:
            q = {k: p[k] for k in ("wl", "na", "ni", "size", "zrange")}
            q |= dict(kind=scope, model="hanser", pixel_size=p["res"], oversample_factor=1)
            if scope == "SIM3D":
                q |= dict(na_exc=None, wl_exc=None, wiener=None, dc_suppress=True, orientations=[0])
            model = scopes.build(q)
        else:
            model = gen.psf_model(p)
    for name in ("plot_psf", "plot_otf"):
        must_raise(f"{name} with z = {z.tolist()}", RuntimeError, lambda: getattr(model, name)(fig=figure()))
    return True, [f"{min(len(z), 3)} planes", scope or "model"]
