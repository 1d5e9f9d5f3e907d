"""P21: phase retrieval treats the data's brightness, orientation, plane order and units even-handedly."""

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Property, array, close, require, sut
from .p06 import flip
from .p19 import data_of, params_of, scenes

PROP = Property(
    "P21",
    "cases are random scenes (as for P19), a fixed number of iterations, and one transformation of the data or the "
    "parameters with a known effect on the pupil; non-trivial: at least 9 frequencies inside of the pupil and 2 planes",
    ["cases in which round off grows without limit are skipped (the reference iteration finds them); tolerance 1e-7"],
)

KINDS = ("brightness", "transpose", "flip y", "flip x", "planes", "conjugate", "units")


@st.composite
def cases(draw, most=8, **kw):
    c = draw(scenes(**kw))
    c["iters"] = draw(st.integers(1, most))
    c["phase_only"] = draw(st.booleans())
    c["what"] = draw(st.sampled_from(KINDS))
    c["e"] = draw(st.one_of(st.integers(-8, 8), st.integers(-40, 40)))
    return c


@PROP.law("equivariance", cases(), 1500)
def equivariance(c):
    from pyotf.phaseretrieval import retrieve_phase

    data, p, what = data_of(c), params_of(c), c["what"]
    if ref.retrieval(data, c["p"], c["iters"], phase_only=c["phase_only"])[-1] < 1e-6:
        return False, ["ill defined"]
    p.pop("zres", None)
    p["zrange"] = ref.zrange_of(c["p"]).tolist()
    q, other = dict(p), data
    same = lambda pupil: pupil
    undo = same
    if what == "brightness":
        s = 4.0 ** c["e"]
        other, undo = data.astype(float) * s, (same if c["phase_only"] else lambda pupil: pupil / 2.0 ** c["e"])
    elif what == "transpose":
        other, undo = np.swapaxes(data, 1, 2), lambda pupil: pupil.T
    elif what.startswith("flip"):
        ax = 1 if what == "flip y" else 2
        other, undo = flip(data, ax), lambda pupil: flip(pupil, ax - 1)
    elif what == "planes":
        order = np.random.default_rng(c["seed"]).permutation(len(data))
        other, q["zrange"] = data[order], [p["zrange"][i] for i in order]
    elif what == "conjugate":
        other, undo = flip(data, 1, 2), np.conj
        q["zrange"] = [-z for z in p["zrange"]]
    else:
        s = 2.0 ** c["e"]
        q |= dict(wl=p["wl"] * s, res=p["res"] * s, zrange=[z * s for z in p["zrange"]])
    with sut("retrieve_phase"):
        a = retrieve_phase(data, p, c["iters"], 0, 0, c["phase_only"])
        b = retrieve_phase(other, q, c["iters"], 0, 0, c["phase_only"])
        want = array(a.complex_pupil, "pupil")
        close(undo(b.complex_pupil), want, f"pupil after {what}", tol=1e-7)
        require(len(a.mse) == len(b.mse), f"{len(a.mse)} and {len(b.mse)} iterations")
        if what != "brightness":
            close(b.mse, a.mse, f"mse after {what}", tol=1e-6)
    return gen.pupil_points(c["p"]) >= 9 and len(data) > 1, [what, c["kind"], "phase only" if c["phase_only"] else "both"]


@PROP.law("large images", cases(4, sizes=gen.large_sizes), 32)
def large(c):
    return equivariance(c)
