"""P24: the LabVIEW wrapper is preparation followed by phase retrieval, in plain lists."""

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Property, close, require, sut
from .p19 import data_of, scenes

PROP = Property(
    "P24",
    "cases are random integer image stacks (an aberrated PSF on a background; square or oblong; nested lists or arrays) "
    "with random optics and options, compared with the reference preparation and iteration; non-trivial: at least 9 "
    "frequencies inside of the pupil, 2 planes and 2 iterations",
    ["phases are compared modulo 2 pi, where the pupil's magnitude is at least 1e-3 of its largest, tolerance 1e-4",
     "cases in which round off grows without limit are skipped, as for P19"],
)  # fmt: skip


@st.composite
def cases(draw, **kw):
    c = draw(scenes(**kw))
    c["kind"] = "integer"
    c["counts"] = draw(st.sampled_from((1000, 1000, 1000, 60, 30_000, 70_000, 5_000_000)))
    c["p"]["zres"] = c["p"].pop("zres", None) or draw(gen.frac(0.2, 3)) * c["p"]["wl"]
    c["p"]["zsize"] = draw(st.integers(1, 5))
    c["p"].pop("zrange", None)
    return dict(
        scene=c, cut=draw(st.integers(0, 3)), axis=draw(st.integers(1, 2)), bg=draw(st.integers(0, 40)), iters=draw(st.integers(1, 9)),
        tols=[draw(st.sampled_from((0.0, 1e-3, 0.1))) for _ in range(2)], phase_only=draw(st.booleans()),
        form=draw(st.sampled_from(("lists", "array", "tuple options"))),
    )  # fmt: skip


@PROP.law("wrapper", cases(), 900)
def wrapper(c):
    from pyotf.labview import labview

    p = c["scene"]["p"]
    data = data_of(c["scene"]) + c["bg"]
    n = data.shape[1]
    # an oblong field of view is padded
    cut = max(0, min(c["cut"], n - 4))
    if cut:
        data = np.take(data, np.arange(n - cut), axis=c["axis"])
    values, counts = np.unique(data, return_counts=True)
    prepped = data - 1.5 * int(values[counts.argmax()])
    from .p15 import expected_pad

    prepped = np.maximum(expected_pad(prepped, (len(data), n, n), mode="constant"), 0)
    if not prepped.any():
        return False, ["nothing but background"]
    want = ref.retrieval(prepped, p, c["iters"], *c["tols"], c["phase_only"])
    if want[-1] < 1e-6:
        return False, ["ill defined"]
    given = data.tolist() if c["form"] == "lists" else data
    opt = dict(zip(("max_iters", "pupil_tol", "mse_tol", "phase_only"), (c["iters"], *c["tols"], c["phase_only"])))
    args = [p[k] for k in ("wl", "na", "ni", "res", "zres")]
    with sut("labview"):
        got = labview(given, *args, *opt.values()) if c["form"].startswith("tuple") else labview(given, *args, **opt)
    require(isinstance(got, list) and all(isinstance(r, list) for r in got), "isn't a list of lists")
    require(all(isinstance(v, float) for r in got for v in r), "isn't made of plain numbers")
    phase = np.array(got)
    pupil, mask = want[3], want[4]
    require(phase.shape == mask.shape, f"shape {phase.shape}, not {mask.shape}")
    require(not phase[~mask].any(), "the phase outside of the pupil isn't zero")
    lit = mask & (np.abs(pupil) > 1e-3 * np.abs(pupil).max())
    close(np.exp(1j * phase[lit]), np.exp(1j * np.angle(pupil[lit])), "phase", tol=1e-4)
    # to all digits, and in the same order of 2 pi: that of the two steps on their own
    from pyotf.phaseretrieval import retrieve_phase
    from pyotf.utils import prep_data_for_PR

    with sut("preparation and retrieval"):
        own = retrieve_phase(prep_data_for_PR(data), {k: p[k] for k in ("wl", "na", "ni", "res", "zres")}, **opt)
    close(np.exp(1j * phase[lit]), np.exp(1j * own.phase[lit]), "phase (compared with the two steps)", tol=1e-9)
    return gen.pupil_points(p) >= 9 and len(data) > 1 and len(want[0]) > 1, [c["form"], "oblong" if cut else "square"]


@PROP.law("large images", cases(sizes=gen.large_sizes), 24)
def large(c):
    return wrapper(c)
