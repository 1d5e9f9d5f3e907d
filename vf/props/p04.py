"""P04: results always belong to the current parameters, whatever happened before."""

import copy
import pickle

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Property, Violation, array, close, require, sut

PROP = Property(
    "P04",
    "cases are histories of up to 14 operations on up to three models of one class: parameter changes (also to the "
    "value it has), rejected changes, reads, custom pupils, copies, deep copies and pickling; after every read the "
    "result is compared with that of a newly built model; non-trivial: a read of a result after a change that came "
    "after another read of the same model",
    ["the pools of values are made so that every combination is a valid set of parameters"],
)  # fmt: skip

NAMES = ("PSFa", "OTFa", "PSFi", "OTFi")


@st.composite
def histories(draw, large=False):
    kind = draw(st.sampled_from(("hanser", "hanser", "sheppard")))
    unit = draw(st.sampled_from((1.0, 1.0, 1e-3, 1e-9)))
    wl = [unit * v for v in draw(st.lists(gen.frac(400, 700), min_size=2, max_size=2))]
    ni = draw(st.lists(gen.frac(1.0, 1.6), min_size=2, max_size=2))
    na = [draw(gen.frac(0.4, 0.9)) * min(ni) for _ in range(2)]
    abbe = min(wl) / (2 * max(na))
    res = [draw(gen.frac(0.4, 0.95)) * abbe for _ in range(2)]
    if kind == "hanser":
        zres = [draw(gen.frac(0.1, 2)) * wl[0] for _ in range(2)]
        zsizes, sizes = (1, 2, 3, 4, 5), (5, 6, 8, 9)
    else:
        zres = [draw(gen.frac(0.4, 0.95)) * min(wl) / (2 * max(ni)) for _ in range(2)]
        zsizes, sizes = (6, 7, 10, 11), (6, 7, 10, 11)
    if large:
        sizes = (48, 64, 65, 96, 128)
    pools = dict(
        wl=wl, ni=ni, na=na, res=res, zres=zres, size=draw(st.lists(st.sampled_from(sizes), min_size=2, max_size=2)),
        zsize=draw(st.lists(st.sampled_from(zsizes), min_size=2, max_size=2)), vec_corr=list(gen.VEC),
        condition=list(gen.COND),
    )  # fmt: skip
    if kind == "sheppard":
        pools["dual"] = [False, True]
    else:
        pools["zrange"] = [draw(gen.zplanes(wl[0], na[0], ni[0], 4)) for _ in range(2)] + [[0.0]]
    together = draw(st.sampled_from((("wl", "res"), ("wl", "res", "zres"), ("wl", "na", "ni"), ("res", "zres"), ("wl", "na"), ("na", "ni"))))
    if draw(st.integers(0, 3)) == 0:
        # values that keep the ratio of two parameters, once both are changed
        f = draw(st.sampled_from((0.5, 0.5, 0.8, 0.875)))
        for k in together:
            pools[k][1] = pools[k][0] * f
        if max(na) > 0.95 * min(ni):
            na[:] = [v * 0.95 * min(ni) / max(na) for v in na]
        low = min(pools["wl"]) / (2 * max(pools["na"]))
        while max(pools["res"]) >= low:
            pools["res"] = [r / 2 for r in pools["res"]]
        if kind == "sheppard":
            low = min(pools["wl"]) / (2 * max(pools["ni"]))
            while max(pools["zres"]) >= low:
                pools["zres"] = [r / 2 for r in pools["zres"]]
        if draw(st.booleans()):
            pools["size"] = [sizes[0], 2 * sizes[0]]
    nudges = ("na", "res", "zres") + ("zrange",) * (kind == "hanser")
    start = {k: draw(st.sampled_from(v)) for k, v in pools.items() if k != "zrange"}
    who = st.integers(0, 2)
    invalid = [
        ("wl", -1.0), ("wl", "x"), ("na", -0.5), ("na", None), ("ni", -1), ("ni", [1.0]), ("size", 8.0), ("size", -8),
        ("zsize", 4.0), ("zsize", -3), ("res", 10 * max(wl) / min(na)), ("res", max(wl) / (2 * min(na)) * 1.01), ("zres", 0),
        ("zres", -1.0), ("vec_corr", "w"), ("vec_corr", "X"), ("condition", "abbe"), ("condition", None),
    ]  # fmt: skip
    if kind == "sheppard":
        invalid += [("dual", 1), ("dual", "yes"), ("zres", max(wl) / min(ni))]
    ops = st.one_of(
        st.tuples(st.just("read"), who, st.sampled_from(NAMES)),
        st.tuples(st.just("read"), who, st.sampled_from(NAMES)),
        st.sampled_from(sorted(pools)).flatmap(
            lambda k: st.tuples(st.just("set"), who, st.tuples(st.just(k), st.sampled_from(pools[k])))
        ),
        st.sampled_from(sorted(pools)).flatmap(
            lambda k: st.tuples(st.just("set"), who, st.tuples(st.just(k), st.sampled_from(pools[k])))
        ),
        st.sampled_from((0, 1)).map(lambda i: ("several", 0, [(k, pools[k][i]) for k in together])),
        st.tuples(st.just("bad"), who, st.sampled_from(invalid)),
        st.tuples(st.just("clone"), who, st.sampled_from(("copy", "deepcopy", "pickle", "new"))),
        st.tuples(st.just("pupil"), who, gen.seeds) if kind == "hanser" else st.tuples(st.just("all"), who, st.none()),
        st.tuples(st.just("nudge"), who, st.tuples(st.sampled_from(nudges), st.sampled_from((1e-4, 1e-6, 1e-8)))),
        *([st.tuples(st.sampled_from(("shift", "shift", "poke")), who, gen.frac(-2, 2).map(lambda f: f * wl[0]))] if kind == "hanser" else []),
    )
    return dict(kind=kind, start=start, ops=draw(st.lists(ops, min_size=5, max_size=14)))


def build(kind, params, pupil=None):
    p = dict(params)
    if kind == "hanser":
        p.pop("dual", None)
    model = gen.psf_model(p)
    if pupil is not None:
        model.apply_pupil(pupil)
    return model


@PROP.law("histories", histories(), 2400)
def histories_law(c):
    kind = c["kind"]
    with sut("building the model"):
        states = [dict(obj=build(kind, c["start"]), params=dict(c["start"]), pupil=None, read=False, stale=False)]
    nontrivial, labels = False, {kind}

    def check(s, name):
        with sut(f"reading {name}"):
            got = getattr(s["obj"], name)
        with sut("a new model"):
            fresh = build(kind, s["params"], s["pupil"])
            want = getattr(fresh, name)
        want = array(want, f"{name} of a new model")
        close(got, want, f"{name} (compared with a new model)", tol=1e-11)
        if kind == "hanser" and name in ("PSFa", "PSFi"):
            pupil = None if s["pupil"] is None else ref.recentre(s["pupil"])
            psfa = ref.hanser_psfa(s["params"], pupil)
            edge = np.abs(gen.radii(s["params"]["size"], s["params"]["res"]) - s["params"]["na"] / s["params"]["wl"])
            if s["pupil"] is not None or edge.min() > 1e-9 * s["params"]["na"] / s["params"]["wl"]:
                close(got, psfa if name == "PSFa" else ref.intensity(psfa), f"{name} (compared with the definition)", tol=ref.precision(s["params"]))

    ops = []
    for op, who, arg in c["ops"]:
        if op == "nudge":
            # (values that are almost the same are set between two reads)
            ops += [("read", who, "OTFi"), (op, who, arg), ("read", who, "PSFa")]
        else:
            ops += [("set", who, x) for x in arg] if op == "several" else [(op, who, arg)]
    for op, who, arg in ops:
        s = states[who % len(states)]
        labels.add(op)
        if op == "nudge":
            # (to smaller values, which are valid)
            key, eps = arg
            with sut(f"reading {key}"):
                now = getattr(s["obj"], key)
            op, arg = "set", (key, (now * (1 - eps)).tolist() if key == "zrange" else now * (1 - eps))
        if op in ("read", "all"):
            nontrivial |= s["stale"]
            for name in NAMES if op == "all" else (arg,):
                check(s, name)
            s["read"], s["stale"] = True, False
        elif op == "set":
            key, value = arg
            with sut(f"setting {key} to {value}"):
                setattr(s["obj"], key, value)
            changed = key == "zrange" or s["params"].get(key) != value
            s["params"][key] = value
            if key in ("zsize", "zres"):
                s["params"].pop("zrange", None)
            if changed or key in ("zsize", "zres", "res", "vec_corr", "condition", "dual", "zrange"):
                # (these setters start over from the nominal pupil, even when the value is the same)
                if changed:
                    s["pupil"] = None
                elif s["pupil"] is not None:
                    # not specified: a new start with a known state
                    s["obj"].apply_pupil(s["pupil"])
            s["stale"] |= s["read"] and changed
        elif op == "bad":
            key, value = arg
            try:
                setattr(s["obj"], key, value)
            except (ValueError, TypeError):
                pass
            except Exception as e:
                raise Violation(f"setting {key} to {value!r} raised {type(e).__name__}: {e}") from e
            else:
                raise Violation(f"setting {key} to {value!r} was accepted")
            s["stale"] |= s["read"]
        elif op == "clone":
            with sut(f"{arg} of a model"):
                if arg == "copy":
                    obj = copy.copy(s["obj"])
                elif arg == "deepcopy":
                    obj = copy.deepcopy(s["obj"])
                elif arg == "pickle":
                    obj = pickle.loads(pickle.dumps(s["obj"]))
                else:
                    obj = build(kind, s["params"], s["pupil"])
            if len(states) < 3:
                states.append(dict(s, obj=obj, params=dict(s["params"])))
        elif op in ("shift", "poke"):
            with sut("reading zrange"):
                old = np.array(s["obj"].zrange)
            if op == "shift":
                with sut("zrange += shift"):
                    s["obj"].zrange += arg
                new = old + arg
            else:
                # whether or not this reaches the model, results have to belong to the planes it says it has
                with sut("zrange[...] += shift"):
                    z = s["obj"].zrange
                    z[...] += arg
                    new = np.array(s["obj"].zrange)
            if not np.array_equal(new, ref.zrange_of(s["params"])):
                s["params"]["zrange"] = new.tolist()
            if not np.array_equal(old, new):
                s["pupil"] = None
                s["stale"] |= s["read"]
            elif op == "shift" and s["pupil"] is not None:
                s["obj"].apply_pupil(s["pupil"])
        elif op == "pupil":
            n = s["params"]["size"]
            pupil = gen.rng_array(arg, (n, n), "complex")
            with sut("apply_pupil"):
                s["obj"].apply_pupil(pupil)
            s["pupil"] = pupil
            s["stale"] |= s["read"]
        for s in states:
            for key, value in s["params"].items():
                if key != "zrange":
                    with sut(f"reading {key}"):
                        now = getattr(s["obj"], key)
                    require(now == value, f"{key} is {now!r} instead of {value!r}")
            if kind == "hanser":
                with sut("reading zrange"):
                    now = s["obj"].zrange
                close(now, ref.zrange_of(s["params"]), "zrange", tol=1e-12)
    for s in states:
        for name in NAMES:
            check(s, name)
    return nontrivial, sorted(labels)


@PROP.law("large grids", histories(True), 48)
def large(c):
    return histories_law(c)
