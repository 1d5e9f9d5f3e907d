"""P08: the two models describe the same microscope."""

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Property, array, require, sut

PROP = Property(
    "P08",
    "cases are random optics (NA of 0.75 to 0.95 times the index, pixels of 0.6 to 0.9 times the limits, 40 to 49 pixels, "
    "24 to 33 planes, any polarization and condition) of which both models' PSFs are compared; non-trivial: all cases",
    [
        "the models sample the Ewald sphere differently, so agreement is a correlation: of the intensities at least 0.7 "
        "(0.8 within two planes of the focus), of each amplitude component near focus at least 0.3, at least twice that "
        "with the conjugate; 1500 random cases in the interior gave at least 0.86 (0.94), 0.5 and 4.5 times",
        "the sign between the axial components (of the dipole along z) and the transverse ones is a convention in which "
        "the models differ, and of no consequence for the intensity: phases are compared within either group",
        "without polarization only the condition 'none' is used (see the known finding of P02)",
    ],
)  # fmt: skip


@st.composite
def cases(draw):
    wl = draw(gen.frac(400, 700)) * draw(st.sampled_from((1, 1e-3, 1e-6)))
    ni = draw(gen.frac(1.0, 1.6))
    na = ni * draw(gen.frac(0.75, 0.95))
    p = dict(
        wl=wl, ni=ni, na=na, size=draw(st.sampled_from((40, 41, 48, 49))), zsize=draw(st.sampled_from((24, 25, 32, 33))),
        res=draw(gen.frac(0.6, 0.9)) * wl / 2 / na, zres=draw(gen.frac(0.6, 0.9)) * wl / 2 / ni,
        vec_corr=draw(st.sampled_from(gen.VEC)), condition="none",
    )  # fmt: skip
    if p["vec_corr"] != "none":
        p["condition"] = draw(st.sampled_from(gen.COND))
    return p


def overlap(a, b):
    return abs((a * b.conj()).sum()) / np.sqrt((np.abs(a) ** 2).sum() * (np.abs(b) ** 2).sum())


@PROP.law("agreement", cases(), 240, thorough=6000)
def agreement(p):
    with sut("models"):
        h, s = gen.psf_model(p), gen.psf_model(p | dict(dual=False))
        ncomp = {"none": 1, "total": 6}.get(p["vec_corr"], 2)
        shape = (ncomp, p["zsize"], p["size"], p["size"])
        ha, sa = array(h.PSFa, "Hanser's PSFa", shape, "c"), array(s.PSFa, "Sheppard's PSFa", shape, "c")
        hi, si = array(h.PSFi, "Hanser's PSFi", shape[1:]), array(s.PSFi, "Sheppard's PSFi", shape[1:])
    m = p["zsize"] // 2
    near = slice(m - 2, m + 3)
    c = overlap(hi, si)
    require(c >= 0.7, f"the correlation of the intensities is {c:.3f}")
    c = overlap(hi[near], si[near])
    require(c >= 0.8, f"the correlation of the intensities near focus is {c:.3f}")
    for i in range(ncomp):
        a, b = ha[i, near], sa[i, near]
        c, d = overlap(a, b), overlap(a, b.conj())
        require(c >= 0.3, f"the correlation of the amplitudes of component {i} is {c:.3f}")
        require(c >= 2 * d, f"component {i} resembles the conjugate ({d:.3f}) as much as itself ({c:.3f})")
    # the two axial components have the same phase between the models, and so have the transverse ones
    phase = [(a * b.conj()).sum() for a, b in zip(ha[:, near], sa[:, near])]
    axial = {"z": 2, "total": 2}.get(p["vec_corr"], 0)
    for group in (phase[:axial], phase[axial:]):
        for v in group[1:]:
            turn = abs(np.angle(v / group[0]))
            require(turn < 0.5, f"the components' phases between the models differ by {turn:.3f}")
    if p["vec_corr"] in ("x", "y"):
        with sut("model"):
            other = gen.psf_model(p | dict(dual=False, vec_corr="yx"["xy".index(p["vec_corr"])])).PSFi
        require(overlap(hi[m], si[m]) > overlap(hi[m], other[m]), "x and y polarization are mixed up between the models")
    return True, ["vec " + p["vec_corr"]]
