"""P34: the plots of a phase retrieval show its own numbers under the right names."""

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Property, close, require, sut

PROP = Property(
    "P34",
    "cases are retrievals from random data with few iterations, decomposed into any number of modes, and their plots: "
    "pupil, convergence, coefficients and named coefficients, some in axes of the caller; non-trivial: every distinct "
    "case with at least 2 iterations or 2 modes",
    ["what is looked at is the data, names and titles in the plots, not layout or colours"],
)  # fmt: skip


def clean(t):
    return " ".join(str(t).split()).lower()


@st.composite
def cases(draw):
    p = dict(wl=draw(gen.frac(400, 700)), ni=draw(gen.frac(1.0, 1.5)))
    p["na"] = p["ni"] * draw(gen.frac(0.5, 0.95))
    p["res"] = draw(gen.frac(0.5, 0.95)) * p["wl"] / 2 / p["na"]
    p["zres"] = p["wl"] * draw(gen.frac(0.2, 1))
    return dict(
        p=p, size=draw(st.integers(7, 14)), nz=draw(st.integers(2, 5)), seed=draw(gen.seeds), iters=draw(st.integers(1, 9)),
        modes=draw(st.one_of(st.integers(1, 20), st.integers(1, 40))), own=draw(st.booleans()),
        zeros=draw(st.sampled_from((0, 0, 0.2, 0.6, 1))),
        sphase=draw(st.tuples(st.integers(0, 6), st.integers(7, 40))),
        perfect=draw(st.sampled_from((False, False, True))), what=draw(st.sampled_from(("pupil", "convergence", "coefs", "named", "fitted pupil"))),
    )  # fmt: skip


def check_pupil(axs, mag, phase):
    images = {clean(a.get_title()): a.images for a in axs}
    require(set(images) == {"pupil phase", "pupil magnitude"}, f"the panels are {sorted(images)}")
    for v in images.values():
        require(len(v) == 1, f"there are {len(v)} images in a panel")
    got = images["pupil magnitude"][0].get_array()
    close(np.ma.filled(got, 0), mag, "magnitude shown", tol=1e-12)
    got = images["pupil phase"][0].get_array()
    lit = mag != 0
    hidden = np.ma.getmaskarray(got)
    require(not hidden[lit].any(), "the phase is hidden inside of the pupil")
    require(hidden[~lit].all(), "a phase is shown where the pupil is dark")
    close(np.ma.getdata(got)[lit], phase[lit], "phase shown", tol=1e-12, scale=1)


@PROP.law("plots", cases(), 400, thorough=8000)
def plots(c):
    import matplotlib.pyplot as plt

    from pyotf.phaseretrieval import ZernikeDecomposition, retrieve_phase

    data = np.random.default_rng(c["seed"]).random((c["nz"], c["size"], c["size"])) + 0.1
    what = c["what"]
    try:
        with sut("retrieval"):
            r = retrieve_phase(data, c["p"], c["iters"], 0, 0)
            zd = r.fit_to_zernikes(c["modes"])
            if c["zeros"]:
                # some of the coefficients are exactly zero, or all
                g = np.random.default_rng(c["seed"])
                keep = [g.random(c["modes"]) > c["zeros"] for _ in range(2)]
                zd = ZernikeDecomposition(zd.mcoefs * keep[0], zd.pcoefs * keep[1], zd.zerns)
        if c["perfect"]:
            # a retrieval may arrive: then errors or changes are exactly zero
            r.mse[-1] = r.mse_diff[-1] = r.pupil_diff[-1] = 0
        numbers = dict(vars(r)) | dict(vars(zd))
        numbers = {k: (v, v.copy()) for k, v in numbers.items() if isinstance(v, np.ndarray)}
        if what in ("pupil", "fitted pupil"):
            axs = plt.subplots(1, 2)[1] if c["own"] else None
            kw = {} if axs is None else dict(axs=axs)
            with sut(f"plot ({what})"):
                if what == "pupil":
                    mag, phase = r.mag, r.phase
                    fig, shown = r.plot(**kw)
                else:
                    s = slice(*c["sphase"])
                    mag = np.tensordot(zd.mcoefs, zd.zerns, 1)
                    phase = np.tensordot(zd.pcoefs[s], zd.zerns[s], 1)
                    fig, shown = zd.plot(sphase=s, **kw)
            if axs is not None:
                require(set(shown) == set(axs), "the plot isn't in the axes that were given")
            # (outside of the pupil the fitted magnitude is exactly 0)
            check_pupil(shown, mag, phase)
        elif what == "convergence":
            with sut("plot_convergence"):
                fig, axs = r.plot_convergence()
            want = dict(zip(("mean squared error", "relative change in mse", "relative change in pupil"), (r.mse, r.mse_diff, r.pupil_diff)))
            require({clean(a.get_title()) for a in axs} == set(want), "the panels have other titles")
            for a in axs:
                y = want[clean(a.get_title())]
                require(len(a.lines) == 1, f"{len(a.lines)} lines in a panel")
                x, got = a.lines[0].get_data()
                require(np.array_equal(np.asarray(got, float), y, equal_nan=True), f"{a.get_title()} isn't shown as it was")
                require(np.array_equal(x, np.arange(len(y))), "the iterations are shown out of order")
                require(a.get_yscale() == "log", "the scale isn't logarithmic")
        elif what == "coefs":
            with sut("plot_coefs"):
                fig, axs = zd.plot_coefs()
            want = {"magnitude coefficients": zd.mcoefs, "phase coefficients": zd.pcoefs}
            require({clean(a.get_title()) for a in axs} == set(want), "the panels have other titles")
            require("noll" in axs[-1].get_xlabel().lower(), "the modes' axis isn't named")
            for a in axs:
                close(bars(a), np.column_stack([np.arange(1, c["modes"] + 1), want[clean(a.get_title())]]), a.get_title(), scale=1)
        else:
            with sut("plot_named_coefs"):
                fig, ax = zd.plot_named_coefs()
                fig.canvas.draw()
            names = {round(t): clean(label.get_text()) for t, label in zip(ax.get_xticks(), ax.get_xticklabels())}
            require("phase" in ax.get_ylabel().lower(), "the coefficients' axis isn't named")
            got = bars(ax)
            n = min(15, c["modes"])
            require(len(got) == max(0, n - 4), f"{len(got)} bars for {c['modes']} modes")
            for x, y in got:
                j = round(x)
                require(j in names, f"the bar at {x} has no name")
                require(names[j] in ref.NAMES, f"{names[j]} isn't an aberration")
                k = ref.NAMES.index(names[j])
                close(y, zd.pcoefs[k], f"coefficient of {names[j]}", scale=1)
            require(len({names[round(x)] for x, _ in got}) == len(got), "a name occurs twice")
        for k, (a, b) in numbers.items():
            require(np.array_equal(a, b, equal_nan=True), f"{k} of the result was changed by the plot ({what})")
    finally:
        plt.close("all")
    return c["iters"] > 1 or c["modes"] > 1, [what, "with zeros" if c["perfect"] else "as retrieved"]


def bars(ax):
    return np.array([(b.get_x() + b.get_width() / 2, b.get_height()) for b in ax.patches]).reshape(-1, 2)
