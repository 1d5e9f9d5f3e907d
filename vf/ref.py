"""Reference models: written from the definitions, with centred coordinates and explicit sums."""

from fractions import Fraction
from math import factorial

import numpy as np


# ---------------------------------------------------------------- grids and transforms
def centred(n):
    """Integer coordinates of n samples with the origin at sample n // 2."""
    return np.arange(n) - n // 2


def freqs(n, d):
    """Centred frequencies of the n point grid with step d."""
    return centred(n) / (n * d)


def dft_matrix(n, sign):
    """Transform matrix between centred samples."""
    j = centred(n)
    # exact phases: reduce modulo n in integers
    return np.exp(sign * 2j * np.pi * ((j[:, None] * j[None]) % n) / n)


def dft(data, axes, inverse=False):
    """Centred discrete Fourier transform along some axes, by matrix products."""
    data = np.asarray(data, dtype=complex)
    for ax in axes:
        n = data.shape[ax]
        m = dft_matrix(n, +1 if inverse else -1)
        if inverse:
            m = m / n
        data = np.moveaxis(np.tensordot(m, data, axes=(1, ax)), 0, ax)
    return data


# ---------------------------------------------------------------- Hanser's model
def zrange_of(p):
    if p.get("zrange") is not None:
        return np.atleast_1d(np.asarray(p["zrange"], dtype=float))
    zres = p["res"] if p.get("zres") is None else p["zres"]
    zsize = p["size"] if p.get("zsize") is None else p["zsize"]
    return centred(zsize) * zres


def hanser_geometry(p):
    """Centred kr, phi, kz, and the circular pupil."""
    k = freqs(p["size"], p["res"])
    ky, kx = np.meshgrid(k, k, indexing="ij")
    kr = np.sqrt(kx * kx + ky * ky)
    phi = np.arctan2(ky, kx)
    kmag = p["ni"] / p["wl"]
    kz = np.sqrt(np.maximum(kmag * kmag - kr * kr, 0))
    return kr, phi, kz, kr < p["na"] / p["wl"]


def hanser_factors(p):
    """Amplitude of each polarization component over the pupil (apodization included)."""
    kr, phi, kz, _ = hanser_geometry(p)
    kmag = p["ni"] / p["wl"]
    sin = np.where(kr < kmag, kr / kmag, 0)
    cos = np.sqrt(1 - sin * sin)
    a = {"none": np.ones_like(cos), "sine": cos**-0.5, "herschel": 1 / cos}[p.get("condition", "sine")]
    sp, cp = np.sin(phi), np.cos(phi)
    comps = dict(
        none=[np.ones_like(cos)],
        z=[sin * cp, sin * sp],
        y=[(cos - 1) * sp * cp, cos * sp**2 + cp**2],
        x=[cos * cp**2 + sp**2, (cos - 1) * sp * cp],
    )
    comps["total"] = comps["z"] + comps["y"] + comps["x"]
    return [a * c for c in comps[p.get("vec_corr", "none")]]


def hanser_psfa(p, pupil=None):
    """Amplitude PSF: (components, z, y, x). The pupil, if given, is centred."""
    kr, phi, kz, mask = hanser_geometry(p)
    if pupil is None:
        pupil = mask.astype(complex)
    n = p["size"]
    e = dft_matrix(n, +1) / n
    z = zrange_of(p)
    out = np.empty((len(hanser_factors(p)), len(z), n, n), dtype=complex)
    for c, f in enumerate(hanser_factors(p)):
        for i, zz in enumerate(z):
            out[c, i] = e @ (pupil * f * np.exp(2j * np.pi * kz * zz)) @ e.T
    return out


def precision(p, tol=1e-9):
    """Tolerance for images of pupils that extend beyond the NA.

    Where kr approaches ni / wl the apodization grows without limit, and so does the effect of round off.
    """
    kr = hanser_geometry(p)[0]
    s = kr * p["wl"] / p["ni"]
    # (exactly there the model takes light to be along the axis)
    return max(tol, 1e-14 / max(np.abs(1 - s * s)[s != 1].min(), 1e-300))


def intensity(psfa):
    return (psfa.real**2 + psfa.imag**2).sum(0)


def uncentre(pupil):
    """From the origin in the middle to the origin first, which is what apply_pupil expects."""
    n, m = pupil.shape
    return np.roll(pupil, (-(n // 2), -(m // 2)), axis=(0, 1))


def recentre(pupil):
    n, m = pupil.shape
    return np.roll(pupil, (n // 2, m // 2), axis=(0, 1))


# ---------------------------------------------------------------- Sheppard's model
def sheppard_otfa(p):
    """Amplitude OTF (components, kz, ky, kx), and the voxels which round off could move in or out."""
    n, nz = p["size"], p["zsize"]
    zres = p["res"] if p.get("zres") is None else p["zres"]
    k, kzax = freqs(n, p["res"]), freqs(nz, zres)
    kz, ky, kx = np.meshgrid(kzax, k, k, indexing="ij")
    kr = np.sqrt(kx**2 + ky**2 + kz**2)
    kmag = p["ni"] / p["wl"]
    dk, dkz = 1 / (n * p["res"]), 1 / (nz * zres)
    # half thickness of the shell: the size of a voxel in the direction of the point
    safe = np.where(kr == 0, 1, kr)
    thick = np.where(kr == 0, 0, np.sqrt((kz * dkz) ** 2 + (ky * dk) ** 2 + (kx * dk) ** 2) / safe)
    kz_min = np.sqrt(kmag**2 - (p["na"] / p["wl"]) ** 2)
    kzz = np.abs(kz) if p.get("dual") else kz
    shell = thick - np.abs(kr - kmag)
    cap = kzz - (kz_min + thick)
    inside = (shell > 0) & (cap > 0)
    eps = 1e-9 * kmag
    doubtful = ((np.abs(shell) < eps) & (cap > -eps)) | ((np.abs(cap) < eps) & (shell > -eps))
    m, nn, s = kx / safe, ky / safe, np.abs(kz) / safe
    sgn = np.sign(kz)
    s = np.where(s == 0, 1, s)
    a = {"none": np.ones_like(s), "sine": s**-0.5, "herschel": 1 / s}[p.get("condition", "sine")]
    comps = dict(
        none=[np.ones_like(s)],
        z=[-m * sgn, -nn * sgn],
        y=[-nn * m / (1 + s), 1 - nn**2 / (1 + s)],
        x=[1 - m**2 / (1 + s), -m * nn / (1 + s)],
    )
    comps["total"] = comps["z"] + comps["y"] + comps["x"]
    out = np.array([np.where(inside, a * c, 0) for c in comps[p.get("vec_corr", "none")]], dtype=complex)
    return out, doubtful


# ---------------------------------------------------------------- Zernike polynomials
def noll_to_nm(j):
    """Noll's rule: rows of increasing n, |m| increasing, even j for cosines (m > 0), odd j for sines."""
    n = 0
    while j > (n + 1) * (n + 2) // 2:
        n += 1
    k = j - n * (n + 1) // 2 - 1  # position in the row
    # |m| of the row: n odd 1 1 3 3 ..., n even 0 2 2 4 4 ...
    m = 2 * ((k + 1) // 2) if n % 2 == 0 else 2 * (k // 2) + 1
    if m and j % 2:
        m = -m
    return n, m


def nm_to_noll(n, m):
    start = n * (n + 1) // 2 + 1
    for j in range(start, start + n + 1):
        if noll_to_nm(j) == (n, m):
            return j
    raise ValueError((n, m))


def radial_coefficients(n, m):
    """Exact coefficients of R_n^|m|, as {power: integer}."""
    m = abs(m)
    return {
        n - 2 * k: (-1) ** k * factorial(n - k) // (factorial(k) * factorial((n + m) // 2 - k) * factorial((n - m) // 2 - k))
        for k in range((n - m) // 2 + 1)
    }


def radial_exact(n, m, r):
    """R_n^|m|(r) in rational arithmetic for the float r."""
    r = Fraction(float(r))
    return float(sum(c * r**p for p, c in radial_coefficients(n, m).items()))


def radial(n, m, r):
    """R_n^|m| on an array of radii, through the stable three term recursion of the Jacobi polynomials."""
    m = abs(m)
    r = np.asarray(r, dtype=float)
    k = (n - m) // 2
    x = 2 * r**2 - 1
    # P_k^{(0, m)}(x), then R = r^m P_k^{(0, m)}(2 r^2 - 1)
    a, b = 0.0, float(m)
    p0 = np.ones_like(x)
    if k == 0:
        return r**m * p0
    p1 = (a + 1) + (a + b + 2) * (x - 1) / 2
    for i in range(2, k + 1):
        c = 2 * i + a + b
        p0, p1 = p1, (
            ((c - 1) * (c * (c - 2) * x + a * a - b * b)) * p1 - 2 * (i + a - 1) * (i + b - 1) * c * p0
        ) / (2 * i * (i + a + b) * (c - 2))
    return r**m * p1


def zernike_nm(r, theta, n, m, norm=True):
    r, theta = np.asarray(r, float), np.asarray(theta, float)
    if (n - m) % 2:
        return np.zeros(r.shape)
    z = radial(n, m, np.minimum(r, 1)) * (np.sin(-m * theta) if m < 0 else np.cos(m * theta))
    if norm:
        z = z * np.sqrt((n + 1) * (1 if m == 0 else 2))
    return np.where(r <= 1, z, 0.0)


def zernike_j(r, theta, j, norm=True):
    return zernike_nm(r, theta, *noll_to_nm(j), norm=norm)


NAMES = (
    "piston", "tip", "tilt", "defocus", "oblique astigmatism", "vertical astigmatism", "vertical coma",
    "horizontal coma", "vertical trefoil", "oblique trefoil", "primary spherical", "vertical secondary astigmatism",
    "oblique secondary astigmatism", "vertical quadrafoil", "oblique quadrafoil",
)  # fmt: skip


# ---------------------------------------------------------------- phase retrieval
def retrieval(data, p, iters, pupil_tol=0.0, mse_tol=0.0, phase_only=False):
    """Hanser's iteration. Returns the histories, the pupil (centred) and how far the case is from being ill defined.

    p needs wl, na, ni, res, size and zrange (or zres, zsize).
    """
    args = data, p, iters, pupil_tol, mse_tol, phase_only
    out, other = _retrieval(*args, 0.0), _retrieval(*args, 1e-13)
    # some iterations amplify round off without limit
    top = np.abs(out[3]).max()
    if len(out[0]) != len(other[0]) or not np.abs(out[3] - other[3]).max() <= 1e-9 * top:
        return out[:-1] + (0.0,)
    return out


def _retrieval(data, p, iters, pupil_tol, mse_tol, phase_only, wobble):
    q = {k: p[k] for k in ("wl", "na", "ni", "res", "zrange", "zres") if k in p}
    q |= dict(size=data.shape[1], zsize=data.shape[0], vec_corr="none", condition="none")
    _, _, kz, mask = hanser_geometry(q)
    z = zrange_of(q)
    n = q["size"]
    defocus = np.exp(2j * np.pi * kz * z[:, None, None])
    fwd, back = dft_matrix(n, +1) / n, dft_matrix(n, -1)
    data = np.asarray(data, float)
    measured = np.sqrt(np.maximum(data, 0.0))
    pupil = mask.astype(complex)
    noise = np.random.default_rng(5).standard_normal((iters, 2) + mask.shape) * wobble
    mse, mse_diff, pupil_diff = [], [], []
    previous = None
    margin = np.inf
    for i in range(iters):
        psfa = fwd @ (pupil * (1 + noise[i, 0] + 1j * noise[i, 1]) * defocus) @ fwd.T
        mse.append(((data - np.abs(psfa) ** 2) ** 2).mean())
        if i == 0 or mse[-2] == 0:
            mse_diff.append(np.nan)
            pupil_diff.append(np.nan)
        else:
            mse_diff.append(abs(mse[-2] - mse[-1]) / mse[-2])
            pupil_diff.append((np.abs(previous - pupil) ** 2).mean() / (np.abs(previous) ** 2).mean())
        checks = [(pupil_diff[-1], pupil_tol), (mse_diff[-1], mse_tol), (mse[-1], mse_tol)]
        for v, t in checks:
            if t > 0 and not np.isnan(v):
                margin = min(margin, abs(v / t - 1))
        if any(v < t for v, t in checks):
            break
        previous = pupil
        if mse[-1] < 1e-16 * (data.astype(float) ** 2).mean():
            margin = 0.0  # only round off is left to improve
        # where the model is dark its phase is undefined
        amp = np.abs(psfa)
        lit = measured > 1e-9 * measured.max(initial=0)
        if lit.any():
            margin = min(margin, 1e3 * (amp[lit] / amp.max()).min())
        new = back @ (measured * np.exp(1j * np.angle(psfa))) @ back.T
        pupil = (new / defocus).mean(0) * mask
        if phase_only:
            inside = np.abs(pupil[mask])
            if len(inside):
                margin = min(margin, 1e3 * inside.min() / max(inside.max(), 1e-300))
            pupil = np.where(mask, np.exp(1j * np.angle(pupil)), 0)
    return np.array(mse), np.array(mse_diff), np.array(pupil_diff), pupil, mask, margin
