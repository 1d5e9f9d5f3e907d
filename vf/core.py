"""Laws, cases, violations, and the runner.

A *law* is one executable statement about pyotf: a Hypothesis strategy that builds a JSON-able case,
and a function that runs the case against the code in /repo and against an oracle.  A property is decided
by all of its laws.  Everything a case needs is in the case, so that a failing one replays on its own.
"""

import contextlib
import hashlib
import json
import os
import sys
import time
import traceback
import warnings

REPO = os.environ.get("VF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VF_OUT", HERE)  # where evidence and replay files go
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def bootstrap():
    """Import pyotf from the working tree and Hypothesis from wherever it is."""
    sys.dont_write_bytecode = True
    os.environ.setdefault("MPLBACKEND", "Agg")
    sys.path.insert(0, REPO)
    if TOOLS not in sys.path:
        sys.path.append(TOOLS)  # last: numpy & co. come from the project's own environment
    warnings.simplefilter("ignore")
    import logging

    logging.disable(logging.CRITICAL)
    import hypothesis  # noqa: F401
    import pyotf

    where = os.path.realpath(os.path.dirname(pyotf.__file__))
    if where != os.path.realpath(os.path.join(REPO, "pyotf")):
        raise RuntimeError(f"pyotf comes from {where}, not from {REPO}")


class Violation(Exception):
    """The code under test broke the property."""


class Known(Exception):
    """The code under test showed exactly the failure of a listed known finding."""

    def __init__(self, key, message):
        super().__init__(message)
        self.key = key


@contextlib.contextmanager
def sut(what):
    """Anything the code under test raises in here, on an input it has to accept, is a violation."""
    try:
        yield
    except (Violation, Known):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        at = next((f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb) if REPO in f.filename), "?")
        raise Violation(f"{what}: raised {type(e).__name__}: {e} (in {at})") from e


def must_raise(what, exc, fn):
    """The call has to raise one of exc (and nothing else)."""
    try:
        got = fn()
    except exc:
        return
    except Exception as e:
        raise Violation(f"{what}: raised {type(e).__name__} ({e}) instead of {exc}") from e
    raise Violation(f"{what}: was accepted and gave {str(got)[:200]}")


def require(cond, what):
    if not cond:
        raise Violation(what)


def array(a, what, shape=None, kind=None):
    """The value has to be a numeric array (of that shape, and kind: 'f' real, 'c' complex)."""
    import numpy as np

    if not isinstance(a, (np.ndarray, np.generic, float, int, complex)):
        raise Violation(f"{what}: is a {type(a).__name__}, not an array")
    a = np.asarray(a)
    if a.dtype.kind not in "biufc":
        raise Violation(f"{what}: has dtype {a.dtype}")
    if shape is not None and a.shape != tuple(shape):
        raise Violation(f"{what}: has shape {a.shape}, not {tuple(shape)}")
    if kind is not None and a.dtype.kind != kind:
        raise Violation(f"{what}: has dtype {a.dtype}, not kind {kind!r}")
    return a


def close(actual, expected, what, tol=1e-9, scale=None, kind=None):
    """Same shape, finite, and equal to within tol times the largest expected magnitude (or scale)."""
    import numpy as np

    expected = np.asarray(expected)
    actual = array(actual, what, expected.shape, kind)
    if expected.size == 0:
        return
    if not np.isfinite(actual).all():
        raise Violation(f"{what}: has non-finite values")
    if scale is None:
        scale = np.abs(expected).max()
    if scale == 0:
        scale = 1.0
    err = np.abs(actual - expected)
    worst = err.max()
    if not worst <= tol * scale:
        i = np.unravel_index(err.argmax(), err.shape) if err.shape else ()
        raise Violation(
            f"{what}: off by {worst / scale:.3g} (relative, tolerance {tol:g}) at {tuple(int(j) for j in i)}: "
            f"{actual[i]!r} instead of {expected[i]!r}"
        )


class Law:
    def __init__(self, name, strategy, check, quick, thorough, explicit=()):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough, self.explicit = 5 * quick, thorough, list(explicit)


class Property:
    """All the laws of one property, with what its evidence has to say."""

    def __init__(self, pid, rule, assumptions=()):
        self.pid, self.rule, self.assumptions, self.laws = pid, rule, list(assumptions), []

    def law(self, name, strategy, quick, thorough=None, explicit=()):
        """Register a law: the function returns (nontrivial, labels)."""

        def deco(fn):
            self.laws.append(Law(name, strategy, fn, quick, thorough or quick * 25, explicit))
            return fn

        return deco


def canonical(case):
    return json.dumps(case, sort_keys=True, default=_jsonable)


def _jsonable(x):
    import numpy as np

    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (tuple, set)):
        return list(x)
    raise TypeError(f"{type(x)} in a case")


def digest(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], "big")


def run_case(law, case):
    """One evaluation, isolated from the library's warnings and random state."""
    import numpy as np

    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            return law.check(json.loads(canonical(case)))
        except (Violation, Known):
            raise
        except Exception as e:
            # raised by the code under test on an input it has to accept
            for f in reversed(traceback.extract_tb(e.__traceback__)):
                if f.filename.startswith(REPO + os.sep):
                    raise Violation(
                        f"raised {type(e).__name__}: {e} (in {os.path.basename(f.filename)}:{f.name})"
                    ) from e
            raise


def campaign(law, seed, examples, save=None, explicit=True, shrink=True):
    """Search one law with Hypothesis. Returns a dictionary of counts and, maybe, the failure."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine

    engine.MAX_SHRINKING_SECONDS = 40
    # independent cases: no near copies of earlier ones
    engine.ConjectureRunner.generate_mutations_from = lambda self, data: None
    out = dict(evaluations=0, distinct=set(), labels={}, samples=[], known={}, failure=None, error=None)
    state = dict(first=None, last=None)

    def one(case):
        out["evaluations"] += 1
        try:
            nontrivial, labels = run_case(law, case)
        except Known as k:
            out["known"].setdefault(k.key, [str(k), json.loads(canonical(case))])
            nontrivial, labels = True, ["known finding"]
        except Violation as v:
            state["last"] = (case, str(v))
            if state["first"] is None:
                state["first"] = (case, str(v))
            if save:
                save(case, str(v))
            raise
        for lab in labels:
            out["labels"][lab] = out["labels"].get(lab, 0) + 1
        if nontrivial:
            h = digest(canonical(case))
            if h not in out["distinct"]:
                out["distinct"].add(h)
                if len(out["samples"]) < 2:
                    out["samples"].append(json.loads(canonical(case)))

    try:
        if explicit:
            for case in law.explicit:
                one(case)
        if examples:
            phases = [Phase.generate] + ([Phase.shrink] if shrink else [])
            f = settings(
                max_examples=examples,
                deadline=None,
                database=None,
                report_multiple_bugs=False,
                print_blob=False,
                phases=phases,
                suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large, HealthCheck.large_base_example],
            )(given(law.strategy)(one))
            hypothesis.seed(seed)(f)()
    except Violation:
        pass
    except Exception as e:
        # a failure that does not repeat is still a failure of this (deterministic) campaign
        if state["last"] is None:
            out["error"] = "".join(traceback.format_exception(e))
    if state["last"] is not None:
        out["failure"] = settle(law, state, seed, examples)
    return out


def settle(law, state, seed, examples):
    """Choose what to replay: the smallest case that fails on its own, or else the whole campaign."""
    for case, message in (state["last"], state["first"]):
        try:
            run_case(law, case)
        except Violation as v:
            return dict(kind="case", law=law.name, case=json.loads(canonical(case)), message=str(v))
        except Exception:
            pass
    case, message = state["first"]
    return dict(
        kind="campaign", law=law.name, seed=seed, examples=examples, case=json.loads(canonical(case)), message=message
    )


def known_findings():
    """Keys of the findings the committed file lists, by property."""
    out = {}
    path = os.path.join(HERE, "known_findings.txt")
    for line in open(path, encoding="utf-8"):
        if line.startswith("finding: "):
            parts = dict(w.split("=", 1) for w in line.split()[1:3])
            out.setdefault(parts["property"], {})[parts["key"]] = line.split(None, 3)[3].strip()
    return out


def now():
    return time.time()
