"""P14: easy_fft and easy_ifft are the centred discrete Fourier transform and its exact inverse."""

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Property, close, require, sut

PROP = Property(
    "P14",
    "cases are random arrays (real, complex, integer, single precision, non-contiguous) of 1 to 4 dimensions with even, "
    "odd and prime lengths, transformed along all or some axes given in any form; non-trivial: some transformed axis is "
    "longer than 1",
    ["the reference is an explicit Fourier matrix between samples counted from n // 2, tolerance 1e-12 (1e-4 for single "
     "precision) of the largest value"],
)  # fmt: skip

KINDS = ("real", "complex", "integer", "single", "transposed", "point", "almost real", "almost Hermitian", "faint", "bright")


@st.composite
def big_cases(draw):
    shape = draw(st.sampled_from(([1024], [1500], [999], [128, 128], [300, 7], [2, 200, 150], [64, 65, 3], [3, 4, 128, 127])))
    nd = len(shape)
    axes = draw(st.one_of(st.none(), st.lists(st.integers(0, nd - 1), min_size=1, max_size=nd, unique=True)))
    return dict(shape=shape, axes=axes, tuple=draw(st.booleans()), kind=draw(st.sampled_from(KINDS)), seed=draw(gen.seeds))


@st.composite
def cases(draw):
    shape = draw(st.lists(st.sampled_from((1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 16)), min_size=1, max_size=4))
    if len(shape) == 1:
        shape = [draw(st.integers(1, 260))]
    elif len(shape) == 2 and draw(st.booleans()):
        shape = [draw(st.integers(1, 70)), draw(st.integers(1, 40))]
    while np.prod(shape) > 3000:
        shape[int(np.argmax(shape))] //= 2
    nd = len(shape)
    axes = draw(st.one_of(st.none(), st.lists(st.integers(0, nd - 1), min_size=1, max_size=nd, unique=True)))
    if axes is not None and draw(st.booleans()):
        axes = [a - nd if draw(st.booleans()) else a for a in axes]
    return dict(shape=shape, axes=axes, tuple=draw(st.booleans()), kind=draw(st.sampled_from(KINDS)), seed=draw(gen.seeds))


def data_of(c):
    shape = tuple(c["shape"])
    g = np.random.default_rng(c["seed"])
    if c["kind"] == "integer":
        return g.integers(-100, 100, shape)
    if c["kind"] == "almost real":
        return g.random(shape) + 10 ** g.uniform(-11.5, -6) * 1j * g.standard_normal(shape)
    if c["kind"] == "almost Hermitian":
        # its transform is almost real
        a = g.random(shape) + 10 ** g.uniform(-11.5, -6) * 1j * g.standard_normal(shape)
        return ref.dft(a, range(len(shape)), inverse=True)
    if c["kind"] == "point":
        a = np.zeros(shape)
        a[tuple(g.integers(n) for n in shape)] = 1
        return a
    if c["kind"] in ("faint", "bright"):
        return gen.rng_array(c["seed"], shape, "complex") * (1e-40 if c["kind"] == "faint" else 1e40)
    if c["kind"] == "transposed":
        return g.standard_normal(shape[::-1]).T
    if c["kind"] == "single":
        return g.standard_normal(shape).astype(np.float32)
    return gen.rng_array(c["seed"], shape, "complex" if c["kind"] == "complex" else "normal")


@PROP.law("transform", cases(), 2500)
def transform(c):
    from pyotf.utils import easy_fft, easy_ifft

    data = data_of(c)
    keep = data.copy()
    axes = c["axes"]
    kw = {} if axes is None else dict(axes=tuple(axes) if c["tuple"] else axes)
    norm = [a % data.ndim for a in (range(data.ndim) if axes is None else axes)]
    tol = 1e-4 if c["kind"] == "single" else 1e-12
    n = int(np.prod([data.shape[a] for a in norm]))
    with sut("easy_fft and easy_ifft"):
        f, b = easy_fft(data, **kw), easy_ifft(data, **kw)
        close(f, ref.dft(data, norm), "easy_fft", tol=tol, kind="c")
        close(b, ref.dft(data, norm, inverse=True), "easy_ifft", tol=tol, kind="c")
        close(easy_ifft(f, **kw), data, "easy_ifft(easy_fft())", tol=tol)
        close(easy_fft(b, **kw), data, "easy_fft(easy_ifft())", tol=tol)
    require(np.array_equal(data, keep), "the caller's data was changed")
    # Parseval
    close((np.abs(f) ** 2).sum() / n, (np.abs(data.astype(complex)) ** 2).sum(), "energy", tol=max(tol, 1e-9))
    return n > 1, [c["kind"], f"{data.ndim}-d", "odd" if any(data.shape[a] % 2 and data.shape[a] > 1 for a in norm) else "even"]


@st.composite
def shifts(draw):
    c = draw(cases())
    c["axes"] = None
    c["s"] = [draw(st.integers(-20, 20)) for _ in c["shape"]]
    return c


@PROP.law("large arrays", big_cases(), 64)
def large(c):
    return transform(c)


@PROP.law("shift theorem", shifts(), 600)
def shift_theorem(c):
    """A shift by s is the phase exp(-2 pi i k s), with k counted from n // 2."""
    from pyotf.utils import easy_fft

    data = data_of(c)
    with sut("easy_fft"):
        a = easy_fft(data)
        b = easy_fft(np.roll(data, c["s"], axis=tuple(range(data.ndim))))
    for ax, s in enumerate(c["s"]):
        n = data.shape[ax]
        phase = np.exp(-2j * np.pi * ((ref.centred(n) * s) % n) / n)
        a = a * phase.reshape((-1,) + (1,) * (data.ndim - ax - 1))
    close(b, a, "transform of the shifted data", tol=1e-4 if c["kind"] == "single" else 1e-12)
    return data.size > 1 and any(c["s"]), [c["kind"]]
