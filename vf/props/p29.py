"""P29: a microscope's PSF and OTF always belong to its current settings."""

import copy
import pickle

import numpy as np
from hypothesis import strategies as st

from .. import gen, scopes
from ..core import Property, Violation, array, close, require, sut

PROP = Property(
    "P29",
    "cases are histories of up to 12 operations on up to three microscopes of one class: settings changed (also to the "
    "value they have), changes refused, PSF, OTF and model_psf read, deep copies and pickling; every result is compared "
    "with that of a newly built microscope, and the last ones with the reference model; non-trivial: a result read "
    "after a change that came after another read of the same microscope",
    [
        "settings: wl_exc, pinhole_size; na_exc, wl_exc, wiener, orientations, dc_suppress, coherent and dc",
        "the parameters of the PSF model are fixed when a microscope is built",
    ],
)  # fmt: skip

NAMES = ("PSF", "PSF", "OTF", "model_psf")


@st.composite
def histories(draw, max_fine=21):
    kind = draw(st.sampled_from(("Confocal", "Confocal", "SIM2D", "SIM3D", "LatticeSIM", "BaseSIM", "BaseSIM")))
    strategy = scopes.confocals if kind == "Confocal" else lambda **kw: scopes.sims(kinds=(kind,), **kw)
    p = draw(strategy(max_fine=max_fine, max_planes=5, models=("hanser", "hanser", "hanser", "sheppard")))
    others = [draw(gen.frac(0.7, 1.0)) for _ in range(3)]
    pools = dict(wl_exc=[p["wl"] * f for f in others])
    if kind == "Confocal":
        pools["wl_exc"] += [p["wl_exc"], p["wl"]]
        one = scopes.pinhole_radius(p | dict(pinhole_size=1.0))
        pools["pinhole_size"] = [0, p["pinhole_size"], 1, 3.0 / one, draw(gen.frac(0.3, 3)), draw(gen.frac(2, 8)) / one]
        invalid = [("wl_exc", -1.0), ("wl_exc", "x"), ("pinhole_size", -0.5), ("pinhole_size", "1")]
    else:
        pools["na_exc"] = [p["na"] * f for f in others]
        for k in ("wl_exc", "na_exc"):
            if p[k] is not None:
                pools[k].append(p[k])
        pools["wiener"] = [None, 0, 0.0, 0.1, 0.3, 1, draw(gen.logfrac(1e-2, 2))]
        pools["orientations"] = [draw(scopes.orientation_lists) for _ in range(3)]
        for k in ("coherent", "dc", "dc_suppress"):
            pools[k] = [True, False]
        invalid = [
            ("wl_exc", -1.0), ("wl_exc", "x"), ("na_exc", -0.1), ("na_exc", None), ("wiener", -0.1), ("wiener", -1),
            ("coherent", 1), ("dc", None), ("dc_suppress", "yes"),
        ]  # fmt: skip
    who = st.integers(0, 2)
    change = st.sampled_from(sorted(pools)).flatmap(
        lambda k: st.tuples(st.just("set"), who, st.tuples(st.just(k), st.sampled_from(pools[k])))
    )
    read = st.tuples(st.just("read"), who, st.sampled_from(NAMES))
    ops = st.one_of(
        read, read, change, change, change, st.tuples(st.just("bad"), who, st.sampled_from(invalid)),
        st.tuples(st.just("clone"), who, st.sampled_from(("deepcopy", "pickle", "new"))),
        st.tuples(
            st.just("nudge"), who,
            st.tuples(st.sampled_from(sorted({"wl_exc", "na_exc", "wiener", "pinhole_size"} & set(pools))), st.sampled_from((1e-4, 1e-6, 1e-8))),
        ),
        st.tuples(st.just("edit"), who, st.tuples(gen.frac(0, 3), st.booleans())) if kind != "Confocal" else read,
    )  # fmt: skip
    return dict(p=p, ops=draw(st.lists(ops, min_size=4, max_size=12)))


FIXED = {
    "SIM2D": dict(coherent=False, dc=False),
    "SIM3D": dict(coherent=False, dc=True),
    "LatticeSIM": dict(coherent=True, dc=True, orientations=[0, np.pi / 2]),
}


def general(p):
    """The same microscope, with all of its settings spelled out."""
    if p["kind"] in FIXED:
        p = FIXED[p["kind"]] | p | dict(kind="BaseSIM")
    return p


def value(s, name):
    with sut(f"reading {name}"):
        return array(getattr(s, name), name)


def same(got, want, what, tol):
    if np.isnan(want).all():
        require(np.isnan(got).all(), f"{what} isn't dark")
    else:
        close(got, want, what, tol=tol, scale=np.abs(want).max())


@PROP.law("histories", histories(), 1800)
def histories_law(c):
    kind = c["p"]["kind"]
    with sut("building the microscope"):
        states = [dict(obj=scopes.build(c["p"]), p=general(c["p"]), read=False, stale=False)]
    nontrivial, labels = False, {kind}
    ops = []
    for op, who, arg in c["ops"]:
        # (values that are almost the same are set between two reads)
        ops += [("read", who, "OTF"), (op, who, arg), ("read", who, "PSF")] if op == "nudge" else [(op, who, arg)]
    for op, who, arg in ops:
        s = states[who % len(states)]
        labels.add(op)
        if op == "nudge":
            key, eps = arg
            with sut(f"reading {key}"):
                now = getattr(s["obj"], key)
            op, arg = "set", (key, None if now is None else now * (1 - eps))
        if op == "read":
            with sut("a new microscope"):
                want = np.array(getattr(scopes.build(s["p"]), arg))
            same(value(s["obj"], arg), want, f"{arg} (compared with a new microscope)", 1e-11)
            nontrivial |= s["stale"]
            s["read"], s["stale"] = True, False
        elif op == "set":
            key, v = arg
            with sut(f"setting {key} to {v!r}"):
                setattr(s["obj"], key, v)
                got = getattr(s["obj"], key)
            require(np.all(np.asarray(got) == np.asarray(v)) and (got is None) == (v is None), f"{key} is {got!r}, not {v!r}")
            if s["p"].get(key) != v:
                s["stale"] |= s["read"]
            s["p"] = s["p"] | {key: v}
        elif op == "edit":
            # the caller's list of orientations changes; maybe it is set again
            mine = list(s["p"]["orientations"])
            with sut("setting the orientations"):
                s["obj"].orientations = mine
                if arg[1]:
                    s["obj"].OTF
                keep = list(mine)
                mine[0] += arg[0]
                if arg[1]:
                    s["obj"].orientations = keep = list(mine) if len(mine) % 2 else mine
                got = s["obj"].orientations
            require(list(got) == list(keep), f"orientations are {got!r}, not {keep!r}")
            s["p"] = s["p"] | dict(orientations=list(keep))
            s["stale"] |= s["read"]
        elif op == "bad":
            key, v = arg
            try:
                setattr(s["obj"], key, v)
            except (TypeError, ValueError):
                continue
            except Exception as e:
                raise Violation(f"{key} = {v!r} raised {type(e).__name__}: {e}") from e
            raise Violation(f"{key} = {v!r} was accepted")
        else:
            if len(states) == 3:
                continue
            with sut(f"{arg} of a microscope"):
                if arg == "deepcopy":
                    obj = copy.deepcopy(s["obj"])
                elif arg == "pickle":
                    obj = pickle.loads(pickle.dumps(s["obj"]))
                else:
                    obj = scopes.build(s["p"])
            states.append(s | dict(obj=obj, read=s["read"] and arg != "new", stale=s["stale"] and arg != "new"))
    for s in states:
        psf, otf = value(s["obj"], "PSF"), value(s["obj"], "OTF")
        with sut("a new microscope"):
            fresh = scopes.build(s["p"])
            same(psf, fresh.PSF, "PSF in the end (compared with a new microscope)", 1e-11)
            same(otf, fresh.OTF, "OTF in the end (compared with a new microscope)", 1e-11)
        nontrivial |= s["stale"]
        try:
            want = scopes.reference(s["p"])
        except scopes.Skip:
            labels.add("no reference")
            continue
        close(psf, want, "PSF in the end (compared with the reference)", tol=1e-8)
    return nontrivial, sorted(labels)


@PROP.law("large fields", histories(max_fine=129), 60)
def large(c):
    return histories_law(c)
