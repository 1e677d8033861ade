"""Reference models, written from the published definitions and not from the code under test."""
import numpy as np

C = 299792458.0


def fdf(p, w, l2, phi, l20):
    """Weighted DFT of one spectrum; channels where p or w is NaN are absent."""
    p = np.asarray(p, dtype=complex)
    w = np.asarray(w, dtype=float)
    good = np.isfinite(p) & np.isfinite(w) & (w != 0)
    if not good.any():
        return np.full(len(phi), np.nan + 1j * np.nan)
    ph = np.exp(-2j * np.outer(np.asarray(phi, float), np.asarray(l2, float)[good] - l20))
    return ph @ (p[good] * w[good]) / w[good].sum()


def rmsf(w, l2, phi, l20):
    return fdf(np.ones(len(l2)), w, l2, phi, l20)


def lam0(w, l2):
    w = np.where(np.isfinite(w), w, 0.0).astype(float)
    return float((w * l2).sum() / w.sum())


def gauss(x, mean, fwhm):
    return np.exp(-4.0 * np.log(2.0) * ((x - mean) / fwhm) ** 2)


def parabola_vertex(x, y):
    """Vertex of the parabola through three points (Newton form, independent of the code's algebra)."""
    x1, x2, x3 = [float(v) for v in x]
    y1, y2, y3 = [float(v) for v in y]
    d1 = (y2 - y1) / (x2 - x1)
    d2 = (y3 - y2) / (x3 - x2)
    a = (d2 - d1) / (x3 - x1)
    # slope at x2 of the interpolating parabola
    s2 = d1 + a * (x2 - x1)
    xv = x2 - s2 / (2 * a)
    yv = y2 - s2 * s2 / (4 * a)
    return xv, yv


def mad_std(a):
    a = np.asarray(a, float).ravel()
    a = a[np.isfinite(a)]
    return float(np.median(np.abs(a - np.median(a))) / 0.6745)
