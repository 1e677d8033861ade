"""Strategies (small JSON cases) and the builders that turn them into numpy inputs."""
import numpy as np
from hypothesis import strategies as st

from .ref import C

seeds = st.integers(0, 2**31 - 1)


def freq_cases(nmin=2, nmax=60, kinds=("lin", "gap", "jit", "rand", "desc", "shuf")):
    return st.fixed_dictionaries(
        {
            "kind": st.sampled_from(kinds),
            "n": st.integers(nmin, nmax),
            "f0": st.sampled_from([130.0, 300.0, 700.0, 900.0, 1400.0, 3000.0]),
            "frac": st.sampled_from([0.02, 0.1, 0.3, 0.7]),
            "seed": seeds,
        }
    )


def freqs(c):
    """Channel frequencies (Hz): regular, with gaps, jittered, random, descending or shuffled."""
    n, f0, bw = c["n"], c["f0"] * 1e6, c["f0"] * 1e6 * c["frac"]
    r = np.random.RandomState(c["seed"])
    k = c["kind"]
    if k == "gap" and n >= 3:
        m = n + max(2, n // 3)
        idx = np.sort(r.choice(m, n, replace=False))
        return f0 + idx * (bw / max(1, m - 1))
    if k == "rand":
        f = np.sort(f0 + bw * r.rand(n))
        # keep channels distinct
        return f + np.arange(n) * bw * 1e-4
    f = f0 + bw * np.arange(n) / max(1, n - 1)
    if k == "jit" and n > 1:
        f = f + (r.rand(n) - 0.5) * 0.6 * bw / (n - 1)
    if k == "desc":
        f = f[::-1].copy()
    if k == "shuf":
        f = f[r.permutation(n)]
    return f


def l2_of(f):
    return (C / np.asarray(f, float)) ** 2


def phi_cases(nmin=3, nmax=80, kinds=("sym", "asym", "pos", "irr", "desc")):
    return st.fixed_dictionaries(
        {
            "kind": st.sampled_from(kinds),
            "n": st.integers(nmin, nmax),
            "os": st.sampled_from([2.0, 4.0, 10.0, 25.0]),
            "seed": seeds,
        }
    )


def phis(c, l2, max_phase=3e4):
    """Faraday depths: symmetric, offset, one-sided, irregular or descending; phase kept within max_phase."""
    rng = max(np.ptp(l2), 1e-9)
    fwhm = 3.8 / rng
    d = fwhm / c["os"]
    n = c["n"]
    r = np.random.RandomState(c["seed"])
    k = c["kind"]
    if k == "sym":
        if n % 2 == 0:
            n += 1
        phi = (np.arange(n) - n // 2) * d
    elif k == "asym":
        phi = (np.arange(n) - n * r.rand() * 1.5) * d
    elif k == "pos":
        phi = np.arange(1, n + 1) * d
    elif k == "desc":
        phi = ((np.arange(n) - n * r.rand()) * d)[::-1].copy()
    else:
        phi = np.sort((r.rand(n) - 0.4) * n * d)
        phi = phi + np.arange(n) * d * 1e-3
    lim = max_phase / (2 * max(rng, 1e-9))
    if np.abs(phi).max() > lim:
        phi = phi * (lim / np.abs(phi).max())
    return phi


def weights(kind, n, r):
    if kind == "none":
        return None
    if kind == "ones":
        return np.ones(n)
    if kind == "rand":
        return r.rand(n) + 0.05
    if kind == "dyn":  # large dynamic range
        return 10.0 ** r.uniform(-4, 4, n)
    if kind == "zeros":
        w = r.rand(n) + 0.05
        w[r.rand(n) < 0.3] = 0.0
        if not w.any():
            w[0] = 1.0
        return w
    if kind == "nan":
        w = r.rand(n) + 0.05
        w[r.rand(n) < 0.3] = np.nan
        if not np.isfinite(w).any():
            w[0] = 1.0
        return w
    raise ValueError(kind)


def thin(l2, p, psi_deg, rm):
    return p * np.exp(2j * (np.radians(psi_deg) + rm * l2))


def wider(case, **over):
    """The same cases with some of their parts drawn from wider (survey-sized) ranges."""
    return st.tuples(case, st.fixed_dictionaries(over)).map(lambda t: {**t[0], **t[1]})
