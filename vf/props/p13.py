"""P13: calls have no hidden effects on one another."""

import concurrent.futures
import contextlib
import copy
import random
import sys
import warnings

import numpy as np
from hypothesis import strategies as st

from .. import calls as many
from .. import fresh, gen, scopes
from ..core import Property, require, sut

PROP = Property(
    "P13",
    "cases are programs of up to 10 calls (functions of every module, PSF models, aberrations, microscopes, retrievals, "
    "some of them twice), run three times: in order with all results kept until the end, in another order with each "
    "result overwritten by the caller, and by up to 4 threads; histories of calls with near twins (data mirrored, "
    "shuffled or changed in place, one parameter or value different), each compared with the call made in a forked "
    "process without a history; sequences of plots beside a figure of the caller's; non-trivial: at least 2 different calls of functions or classes that return arrays",
    [
        "threads are switched every 10 microseconds of running Python, at points that aren't controlled",
        "each call of the program makes its own models: reading one model from several threads isn't part of it",
    ],
)  # fmt: skip

SIZES = st.sampled_from((4, 5, 6, 7, 8, 9))
PLAIN = ("zernike", "noll2degrees", "degrees2noll", "easy_fft", "easy_ifft", "fft_pad", "bin", "radial", "center", "remove_bg")
PLAIN += ("prep", "psqrt", "pcoefs", "slices", "extents", "squeeze", "cart2pol")
ALIASES = ("wl", "na", "ni", "res", "size")


@st.composite
def calls(draw):
    kind = draw(st.sampled_from(("plain", "plain", "plain", "hanser", "sheppard", "aberrated", "scope", "retrieval")))
    if kind == "plain":
        return dict(kind=draw(st.sampled_from(PLAIN)), a=draw(st.integers(1, 9)), b=draw(st.integers(1, 6)), seed=draw(st.integers(0, 3)))
    if kind == "hanser":
        return dict(kind=kind, p=draw(gen.hanser(sizes=SIZES, max_planes=3)), read=draw(st.permutations(("PSFa", "OTFa", "PSFi", "OTFi"))))
    if kind == "sheppard":
        return dict(kind=kind, p=draw(gen.sheppard(sizes=SIZES, max_z=9)), read=draw(st.permutations(("PSFa", "OTFa", "PSFi", "OTFi"))))
    if kind == "aberrated":
        names = draw(st.lists(st.tuples(st.integers(2, 15), gen.frac(-1, 1)).map(list), min_size=1, max_size=3))
        return dict(kind=kind, p=draw(gen.hanser(sizes=SIZES, max_planes=3)), names=names)
    if kind == "scope":
        return dict(kind=kind, p=draw(scopes.any_scope(max_fine=21, max_planes=5)))
    p = draw(gen.optics(sizes=SIZES)) | dict(zres=1.0, zsize=3)
    p["zres"] = p["wl"] * draw(gen.frac(0.3, 2))
    return dict(kind=kind, p=p, seed=draw(st.integers(0, 3)), zerns=draw(st.integers(1, 20)), phase_only=draw(st.booleans()))


def program(calls):
    return st.lists(calls, min_size=1, max_size=8).flatmap(
        lambda cs: st.tuples(st.just(cs), st.lists(st.integers(0, len(cs) - 1), max_size=2), gen.seeds, st.integers(2, 4))
    ).map(lambda t: dict(calls=t[0] + [t[0][i] for i in t[1]], order=t[2], threads=t[3]))  # fmt: skip


def results(c):
    """Make one call; all that it returns, in arrays."""
    from pyotf import display, microscope, otf, phaseretrieval, utils, zernike

    kind, seed = c["kind"], c.get("seed", 0)
    g = np.random.default_rng(seed)
    if kind in PLAIN:
        a, b = c["a"], c["b"]
        data = g.standard_normal((3, a + 3, b + 4))
        counts = g.integers(5, 40, (3, a + 3, b + 4))
        if kind == "zernike":
            r = np.linspace(0, 1.2, a + 3)
            return [zernike.zernike(r, r * 5, [b, a, 1])]
        if kind == "noll2degrees":
            return list(zernike.noll2degrees(np.arange(1, a * b + 2)))
        if kind == "degrees2noll":
            return [np.asarray(zernike.degrees2noll(np.array([a, b]), np.array([-a, b])))]
        if kind in ("easy_fft", "easy_ifft"):
            return [getattr(utils, kind)(data, axes=(0, 2) if a % 2 else None)]
        if kind == "fft_pad":
            return [utils.fft_pad(data, (b + 2, a + 5, 7), mode="constant")]
        if kind == "bin":
            return [utils.bin_ndarray(data, bin_size=(1, 2, 2), operation="mean")]
        if kind == "radial":
            return list(utils.radial_profile(data[0]))
        if kind == "center":
            return [utils.center_data(data)]
        if kind == "remove_bg":
            return [utils.remove_bg(counts, 1.0 + a / 10)]
        if kind == "prep":
            return [utils.prep_data_for_PR(counts, a + b, 1.1)]
        if kind == "psqrt":
            return [utils.psqrt(data)]
        if kind == "cart2pol":
            return list(utils.cart2pol(data[0], data[1]))
        if kind == "pcoefs":
            return [otf.named_aberration_to_pcoefs(zernike.noll2name[a], b / 3)]
        if kind == "slices":
            return [np.array([[s.start, s.stop] for s in utils.slice_maker((a, b), (b, a))])]
        if kind == "extents":
            return [np.array(display.max_min(a, b / 7)), np.array(display.fft_max_min(a, b / 7))]
        return [np.array([display.z_squeeze(1 + a / 9, 1 + b / 9, 0.8)])]
    if kind in ("hanser", "sheppard"):
        model = gen.psf_model(c["p"])
        return [getattr(model, name) for name in c["read"]] + [np.array(repr(model))]
    if kind == "aberrated":
        model = otf.HanserPSF(**c["p"])
        new = otf.apply_named_aberrations(model, {zernike.noll2name[j]: v for j, v in c["names"]})
        return [new.PSFi, new.OTFa, model.PSFa]
    if kind == "scope":
        scope = getattr(microscope, c["p"]["kind"] + "Microscope")(**{k: v for k, v in c["p"].items() if k != "kind"})
        return [scope.PSF, scope.OTF, np.array(repr(scope))]
    p = {k: v for k, v in c["p"].items() if k not in ("size", "zsize")}
    data = g.random((c["p"]["zsize"], c["p"]["size"], c["p"]["size"])) + 0.1
    r = phaseretrieval.retrieve_phase(data, p, max_iters=3, phase_only=c["phase_only"])
    zd = r.fit_to_zernikes(c["zerns"])
    return [r.mag, r.phase, r.mse, zd.mcoefs, zd.pcoefs, r.generate_psf(), zd.phase(slice(None))]


def settings():
    """The global state that calls have no business with."""
    import locale
    import logging
    import os
    import warnings

    import matplotlib

    from pyotf import display, labview, microscope, otf, phaseretrieval, utils, zernike  # noqa: F401

    return dict(
        errors=np.geterr(), printing=np.get_printoptions(), legacy_random=[x.tolist() if isinstance(x, np.ndarray) else x for x in np.random.get_state()], random=random.getstate(),
        warnings=[(f[0], str(f[1]), f[2].__name__, str(f[3])) for f in warnings.filters], plots=dict(matplotlib.rcParams),
        interactive=matplotlib.is_interactive(), folder=os.getcwd(), variables=dict(os.environ), locale=locale.setlocale(locale.LC_ALL),
        logging=(logging.root.level, len(logging.root.handlers), logging.root.manager.disable), recursion=sys.getrecursionlimit(),
    )  # fmt: skip


@contextlib.contextmanager
def odd_settings():
    """Settings no code would choose, lest a call "changes" them to what they are already."""
    np.random.seed(71077)
    np.random.random(77)
    random.seed(9091)
    with warnings.catch_warnings(), np.errstate(divide="warn", over="warn", under="warn", invalid="warn"), np.printoptions(precision=6, linewidth=91):
        warnings.resetwarnings()
        warnings.filterwarnings("ignore", message="(?s).*")
        yield


def same(a, b, what):
    require(len(a) == len(b), f"{what}: {len(b)} results instead of {len(a)}")
    for i, (x, y) in enumerate(zip(a, b)):
        x, y = np.asarray(x), np.asarray(y)
        require(x.shape == y.shape and x.dtype == y.dtype, f"{what}: result {i} is {y.dtype}{y.shape} instead of {x.dtype}{x.shape}")
        if x.dtype.kind not in "fc":
            ok = np.array_equal(x, y)
        else:
            top = np.nanmax(np.abs(np.where(np.isfinite(x), x, 0)), initial=0)
            ok = np.allclose(y, x, rtol=0, atol=1e-11 * top, equal_nan=True)
        require(ok, f"{what}: result {i} is different")


def copies(arrays):
    return [np.array(a) for a in arrays]


def overwrite(arrays):
    for a in arrays:
        if isinstance(a, np.ndarray) and a.flags.writeable:
            a[...] = 77


@PROP.law("programs", program(calls()), 900)
@odd_settings()
def programs(c):
    todo = c["calls"]
    names = [x["kind"] for x in todo]
    before = copy.deepcopy(settings())
    with sut(" ".join(names)):
        # in order, everything kept
        kept = [results(x) for x in todo[:1]]
        first = [copies(k) for k in kept]
        for x in todo[1:]:
            kept.append(results(x))
            first.append(copies(kept[-1]))
    for i, (k, f) in enumerate(zip(kept, first)):
        same(f, k, f"{names[i]} ({i} of {names}), after the calls that followed")
    for i, x in enumerate(todo):
        for j in range(i):
            if todo[j] == x:
                same(first[j], first[i], f"{names[i]}, called again ({j} and {i} of {names})")
    for k in kept:
        overwrite(k)
    # in another order, everything overwritten
    order = np.random.default_rng(c["order"]).permutation(len(todo))
    for i in order:
        with sut(f"{names[i]} (in another order)"):
            got = results(todo[i])
        same(first[i], got, f"{names[i]}, in the order {order.tolist()} of {names} and with earlier results overwritten")
        overwrite(got)
    after = settings()
    for k, v in before.items():
        require(repr(after[k]) == repr(v), f"calls of {names} changed global settings: {k}")
    # in threads
    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        with concurrent.futures.ThreadPoolExecutor(c["threads"]) as pool, sut("calls in threads"):
            jobs = [pool.submit(lambda x: copies(results(x)), x) for x in todo]
            got = [j.result() for j in jobs]
    finally:
        sys.setswitchinterval(interval)
    for i, g in enumerate(got):
        same(first[i], g, f"{names[i]}, in {c['threads']} threads with {names}")
    return len({str(x) for x in todo}) > 1, [f"{len(todo)} calls"] + sorted(set(names))


@st.composite
def histories(draw):
    """Calls and near twins of them, in some order."""
    out = []
    for _ in range(draw(st.integers(1, 3))):
        if draw(st.integers(0, 2)):
            c = draw(many.array_call())
            out += [c] + [draw(many.twin(c)) for _ in range(draw(st.integers(1, 3)))]
        else:
            c = draw(many.model_call())
            out += [c] + [draw(many.model_twin(c)) for _ in range(draw(st.integers(1, 2)))]
    return [out[i] for i in draw(st.permutations(range(len(out))))]


def expected(c):
    return fresh.call("vf.calls", "fresh_run", c)


def attempt(what, want, f):
    """The call's result, which is that of a process without a history (an error, too)."""
    try:
        got = f()
    except Exception as e:
        require(not want[0], f"{what} raised {type(e).__name__}: {e}, unlike in a process of its own")
        kind = want[1].split(":")[0]
        require(type(e).__name__ == kind, f"{what} raised {type(e).__name__} instead of {kind}")
        return []
    require(want[0], f"{what} didn't raise {want[1]} as in a process of its own")
    same(want[1], [np.asarray(x) for x in got], f"{what} compared with a process of its own")
    return got


@PROP.law("like in a process of its own", histories(), 500, thorough=10000)
def alone(cs):
    """Whatever has been called before, with however similar arguments."""
    for c in cs:
        attempt(f"{c['fn']} (one of {[x['fn'] for x in cs]})", expected(c), lambda: many.run(c))
    return len({str(c) for c in cs}) > 1, sorted({c["fn"] for c in cs})


@st.composite
def buffers(draw):
    c = draw(many.array_call())
    return [c] + [draw(many.twin(c, arrays_only=True)) for _ in range(draw(st.integers(1, 3)))]


@PROP.law("arrays changed in place", buffers(), 900, thorough=20000)
def in_place(cs):
    """The caller fills the same arrays with other values and calls again."""
    x = many.inputs(cs[0])
    for c in cs:
        for mine, new in zip(x, many.inputs(c)):
            mine[...] = new
        keep = copies(x)
        attempt(f"{c['fn']} of an array that was changed in place", expected(c), lambda: many.run(c, x))
        for mine, old in zip(x, keep):
            require(np.array_equal(mine, old), f"{c['fn']} changed its argument")
    return len({str(c) for c in cs}) > 1, sorted({c["fn"] for c in cs})


PLOTS = ("psf_plot", "otf_plot", "model psf", "model otf", "scope psf", "scope otf", "result", "convergence", "pupil", "coefs", "named coefs")


@st.composite
def galleries(draw):
    kinds = draw(st.lists(st.sampled_from(PLOTS), min_size=1, max_size=4))
    params = {"image.cmap": "gray", "figure.figsize": [3.0, 2.0], "axes.grid": True, "figure.max_open_warning": 7, "image.origin": "lower"}
    return dict(kinds=kinds, seed=draw(st.integers(0, 5)), params={k: params[k] for k in draw(st.lists(st.sampled_from(sorted(params)), unique=True))})


def picture(fig):
    """What there is to see in a figure."""
    out = []
    for a in fig.axes:
        out += [np.ma.filled(i.get_array(), 77.0) for i in a.images] + [np.array(x.get_xydata(), float) for x in a.lines]
        out += [np.array(p.get_path().transformed(p.get_patch_transform()).vertices) for p in a.patches]
        out += [np.array(a.get_xlim() + a.get_ylim()), np.array([ord(t) for t in a.get_title() + a.get_xlabel() + a.get_ylabel()])]
    return out


def draw_plot(kind, seed):
    """Make a plot by pyotf's own means; its figure, and the arrays it shows."""
    from pyotf import display, microscope, otf, phaseretrieval

    g = np.random.default_rng(seed)
    optics = dict(wl=520.0, na=0.8, ni=1.0, res=150.0 + seed)
    if kind in ("psf_plot", "otf_plot"):
        data = g.random((3, 7, 7)) + 0.1
        kw = optics if kind == "otf_plot" else dict(res=optics["res"])
        return getattr(display, kind)(data, zres=300.0, **kw)[0], [data]
    if kind.startswith("model"):
        model = (otf.HanserPSF if seed % 2 else otf.SheppardPSF)(**optics, size=8, zres=240.0, zsize=9)
        return getattr(model, "plot_" + kind[-3:])()[0], [model.PSFi, model.OTFi]
    if kind.startswith("scope"):
        o = {k: v for k, v in optics.items() if k != "res"}
        scope = microscope.ApotomeMicroscope(model="hanser", size=9, pixel_size=optics["res"], oversample_factor=1, **o)
        return getattr(scope, "plot_" + kind[-3:])()[0], [scope.PSF, scope.OTF]
    r = phaseretrieval.retrieve_phase(g.random((3, 8, 8)) + 0.1, optics | dict(zres=300.0), 3)
    zd = r.fit_to_zernikes(15)
    plot = {"result": r.plot, "convergence": r.plot_convergence, "pupil": zd.plot, "coefs": zd.plot_coefs, "named coefs": zd.plot_named_coefs}
    return plot[kind]()[0], [r.mag, r.phase, r.mse, zd.mcoefs, zd.pcoefs]


@PROP.law("plots leave no trace", galleries(), 40, thorough=1200)
@odd_settings()
def traces(c):
    """Neither settings nor other figures change, and a plot is the same whatever was plotted before."""
    import matplotlib
    import matplotlib.pyplot as plt

    try:
        with matplotlib.rc_context(c["params"]):
            mine, ax = plt.subplots()
            ax.plot([1, 2, 3], [4, 1, 2])
            ax.set_title("mine")
            before, was = copy.deepcopy(settings()), picture(mine)
            made = []
            for k in c["kinds"]:
                with sut(f"plot of {k}"):
                    fig, shown = draw_plot(k, c["seed"])
                require(fig is not mine and all(fig is not f for f, _, _ in made), f"plot of {k} went into a figure that was there before")
                made.append((fig, picture(fig), k))
                after = settings()
                for name, v in before.items():
                    require(repr(after[name]) == repr(v), f"plot of {k} changed global settings: {name}")
            require(plt.rcParams == before["plots"], "plots changed matplotlib's settings")
            same(was, picture(mine), f"the caller's own figure, after plots of {c['kinds']}")
            for i, (fig, seen, k) in enumerate(made):
                same(seen, picture(fig), f"plot {i} of {c['kinds']}, after those that followed")
                for fig2, seen2, k2 in made[:i]:
                    if k2 == k:
                        same(seen2, seen, f"plot of {k}, made again")
    finally:
        plt.close("all")
    return len(set(c["kinds"])) > 1, sorted(set(c["kinds"]))


REFUSED = {
    "uneven plot": lambda a: uneven(a).plot_psf() if a % 2 else uneven(a).plot_otf(),
    "uneven zres": lambda a: uneven(a).zres,
    "model": lambda a: models()[a % 2](**({k: v for k, v in OPTICS.items() if k != "na"} | dict(na=(0.8, -1.0, 0.0, 7.0)[a % 4], size=8, zres=200.0, zsize=(5, -1)[a % 3 == 0]))),
    "model, vec_corr": lambda a: models()[a % 2](**OPTICS, size=8, zres=200.0, zsize=5, vec_corr="wrong").PSFi,
    "model, condition": lambda a: models()[a % 2](**OPTICS, size=8, zres=200.0, zsize=5, condition="wrong").PSFi,
    "dual": lambda a: models()[1](**OPTICS, size=8, zres=200.0, zsize=5 + a % 4, dual=True).OTFa,
    "coarse": lambda a: models()[a % 2](**(OPTICS | dict(res=9000.0)), size=4 + a, zres=9000.0, zsize=3).OTFi,
    "aberration": lambda a: named(a),
    "zernike": lambda a: call("zernike", "zernike", np.linspace(0, 1, 3), np.zeros(3), *([-a], [a, a + 1], [a, -a, 0], ["x"])[a % 4]),
    "noll2degrees": lambda a: call("zernike", "noll2degrees", (-a, 0, 1.5, "x")[a % 4]),
    "degrees2noll": lambda a: call("zernike", "degrees2noll", a, a + (1, 2, 3)[a % 3]),
    "fft_pad": lambda a: call("utils", "fft_pad", np.ones((a + 2, 5)), ((3,), (1, 2, 3), "x", (-1, 4))[a % 4]),
    "bin": lambda a: call("utils", "bin_ndarray", np.ones((a + 2, 5)), **({"bin_size": (a + 1, 2)}, {"new_shape": (a + 3, 5)}, {"bin_size": 1, "operation": "wrong"}, {})[a % 4]),
    "remove_bg": lambda a: call("utils", "remove_bg", np.array([]) if a % 2 else np.array([-1, -2, 3]), 1.0),
    "prep": lambda a: call("utils", "prep_data_for_PR", np.ones((3, a + 2, a + 2), int), (a + 5, -1)[a % 2], 1.1),
    "radial": lambda a: call("utils", "radial_profile", np.ones((a,) * (1 + a % 3)) if a % 2 else np.full((a + 1, a + 1), np.nan)),
    "psqrt": lambda a: call("utils", "psqrt", ("x", None, np.array(["a"]))[a % 3]),
    "ratios": lambda a: call("utils", "easy_fft", np.ones((a, 3)), axes=(5,)),
    "squeeze": lambda a: call("display", "z_squeeze", 1.0, 1.5, (1.2, 7.0)[a % 2]),
    "display": lambda a: call("display", ("psf_plot", "otf_plot")[a % 2], np.ones((3, a + 2)) if a % 3 else np.zeros((3, 4, 4))),
    "scope": lambda a: scope(a),
    "retrieval": lambda a: call("phaseretrieval", "retrieve_phase", np.zeros((3, 6, 6)) if a % 2 else np.ones((3, 6, 5 + a)), OPTICS | dict(zres=200.0), a % 4),
    "parameters": lambda a: call("phaseretrieval", "PhaseRetrievalParameters" if a % 2 else "retrieve_phase", np.ones((3, 6, 6)), {"wl": 5}),
    "few coefficients": lambda a: few(a),
    "many coefficients": lambda a: few(9 * a + 16),
    "constant data": lambda a: few(a, np.ones((3, 8, 8))),
}  # fmt: skip
OPTICS = dict(wl=520.0, na=0.8, ni=1.0, res=150.0)


def call(module, name, *args, **kw):
    from importlib import import_module

    return getattr(import_module("pyotf." + module), name)(*args, **kw)


def models():
    from pyotf import otf

    return otf.HanserPSF, otf.SheppardPSF


def uneven(a):
    return models()[0](**OPTICS, size=8, zrange=np.arange(a % 4) ** 2.0 * 100)


def named(a):
    model = models()[0](**OPTICS, size=8, zres=200.0, zsize=3)
    which = ({"no such": 1.0}, {"defocus": "x"}, {"defocus": np.nan}, {"defocus": np.ones(3)})[a % 4]
    return call("otf", "apply_named_aberrations", model, which).PSFi


def scope(a):
    kw = dict(model=("hanser", "wrong", "sheppard")[a % 3], size=9, pixel_size=150.0, oversample_factor=(1, 2, 3, -1)[a % 4], wl=520.0, na=0.8, ni=1.0)
    kind = ("Widefield", "Apotome", "Confocal")[a // 3 % 3]
    return call("microscope", kind + "Microscope", **kw, **({"pinhole_size": -1.0, "wl_exc": 500.0} if kind == "Confocal" else {})).PSF


def few(n, data=None):
    """The plots of a fit to so many polynomials."""
    data = np.random.default_rng(n).random((3, 8, 8)) + 0.1 if data is None else data
    r = call("phaseretrieval", "retrieve_phase", data, OPTICS | dict(zres=300.0), 2)
    zd = r.fit_to_zernikes(n)
    for plot in (zd.plot_coefs, zd.plot_named_coefs, zd.plot, r.plot, r.plot_convergence):
        try:
            plot()
        except Exception:
            pass


@PROP.law("refused calls leave no trace", st.lists(st.tuples(st.sampled_from(sorted(REFUSED)), st.integers(1, 12)), min_size=1, max_size=6), 150, thorough=4000)
@odd_settings()
def refused(calls):
    """Calls with odd arguments, plots that can't be made: whether refused or not, settings stay as they were."""
    import matplotlib.pyplot as plt

    before = {k: repr(v) for k, v in settings().items()}
    outcomes = set()
    try:
        for kind, a in calls:
            try:
                REFUSED[kind](a)
                outcomes.add("accepted")
            except Exception as e:
                outcomes.add("refused")
                what = f" (which raised {type(e).__name__})"
            else:
                what = ""
            for k, v in settings().items():
                require(repr(v) == before[k], f"{kind} with {a}{what} changed global settings: {k}")
    finally:
        plt.close("all")
    return "refused" in outcomes, sorted({k for k, _ in calls} | outcomes)
