"""Generators for RM-CLEAN inputs and the reference relations between its outputs."""
import numpy as np
from hypothesis import strategies as st

from . import ref
from .gen import freq_cases, freqs, l2_of, seeds


def clean_cases(shapes, **extra):
    d = {
        "freq": freq_cases(6, 40, kinds=("lin", "gap", "jit", "rand")),
        "half": st.integers(4, 40),
        "off": st.sampled_from([0, 0, 0, 1, -1]),
        "os": st.sampled_from([2.0, 4.0, 8.0]),
        "shape": st.sampled_from(shapes),
        "ncomp": st.integers(0, 4),
        "noise": st.sampled_from([0.0, 0.02, 0.2]),
        "edge": st.booleans(),
        "vox": st.booleans(),
        "cut": st.sampled_from([0.05, 0.2, 0.5, 1.5]),
        "gain": st.sampled_from([0.05, 0.1, 0.3, 1.0]),
        "maxit": st.sampled_from([1, 3, 20, 200]),
        "dt": st.sampled_from(["c8", "c16"]),
        "scale": st.sampled_from([1.0, 1.0, 1e-6, 1e4]),
        "seed": seeds,
    }
    d.update(extra)
    return st.fixed_dictionaries(d)


def build(c):
    """FDF cube (direct sums), matching RMSF cube on the double grid, widths; sources may sit at the edges."""
    r = np.random.RandomState(c["seed"])
    l2 = l2_of(freqs(c["freq"]))
    n = len(l2)
    fw = 3.8 / np.ptp(l2)
    d = fw / c["os"]
    nphi = 2 * c["half"] + 1
    # off: zero one sample away from the centre of the grid (further off the clipped RMSF would not cover the grid)
    off = c.get("off", 0)
    phi = (np.arange(nphi) - c["half"] + off) * d
    e = (nphi + 1) // 2
    phi2 = (np.arange(nphi + 2 * e) - (c["half"] + e) + off) * d
    shape = tuple(c["shape"])
    npix = int(np.prod(shape)) if shape else 1
    F = np.zeros((nphi, npix), complex)
    R = np.zeros((len(phi2), npix), complex)
    for k in range(npix):
        w = r.rand(n) + 0.2
        if c["vox"] and k % 2:
            w[r.rand(n) < 0.3] = 0
            if (w > 0).sum() < 2:
                w[:2] = 1
        l20 = ref.lam0(w, l2)
        p = c["noise"] * (r.randn(n) + 1j * r.randn(n))
        for j in range(c["ncomp"]):
            ph = phi[0 if r.rand() < 0.5 else -1] + d * r.uniform(-1.5, 1.5) if c["edge"] else r.uniform(phi[0], phi[-1])
            if j == 0 and not c["edge"] and r.rand() < 0.4:
                ph = phi[r.randint(nphi)]
            p = p + r.uniform(0.2, 1.5) * np.exp(2j * (np.pi * r.rand() + ph * (l2 - l20)))
        F[:, k] = ref.fdf(p, w, l2, phi, l20)
        R[:, k] = ref.rmsf(w, l2, phi2, l20)
    F *= c["scale"]
    fws = fw * (0.8 + 0.4 * r.rand(*shape)) if shape else np.array(fw)
    return dict(r=r, phi=phi, phi2=phi2, F=F.reshape((nphi,) + shape).astype(c["dt"]), R=R.reshape((len(phi2),) + shape).astype(c["dt"]),
                fw=np.asarray(fws), cutoff=c["cut"] * c["scale"], dphi=d, npix=npix, scale=c["scale"])


def flat(x, n):
    return np.asarray(x).reshape(n, -1)


def conv_rmsf(cc, R, phi):
    """sum_k cc_k * RMSF(phi - phi_k), RMSF on the double grid of phi, i.e. with its zero sample (len(R) - n) / 2 samples after that of phi."""
    n = len(phi)
    c0 = int(np.argmin(np.abs(phi))) + (len(R) - n) // 2
    out = np.zeros(n, complex)
    for k in np.nonzero(cc)[0]:
        out += cc[k] * R[c0 - k + np.arange(n)]
    return out


def conv_gauss(cc, fw, phi):
    out = np.zeros(len(phi), complex)
    for k in np.nonzero(cc)[0]:
        out += cc[k] * ref.gauss(phi, phi[k], fw)
    return out
