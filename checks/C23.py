"""C23: cube Stokes I fitting and re-referencing equal the 1D operations per pixel.

Technique: property-based differential testing of the cube fitting and re-referencing tools against the 1D fit of each spectrum, an independent noise and mask definition, and an independent polynomial shift with complex-step error propagation
Assurance: exploration of generated inputs; no proof
"""
import contextlib
import io
import multiprocessing
import os
import sys
import tempfile
import warnings

import numpy as np
from astropy.io import fits as pf
from astropy.wcs import WCS
from hypothesis import strategies as st

from vlib.clilib import serial_pools
from vlib.gen import freq_cases, freqs, seeds, wider
from vlib.harness import check, skip, sub

from RMtools_3D import do_fitIcube as DF
from RMtools_3D import rescale_I_model_3D as RS
from RMutils.util_misc import calculate_StokesI_model, fit_StokesI_model

ASSUMPTIONS = ["the sky axes come first in the header", "every channel of the cube has enough valid pixels for a noise estimate, or none", "pixels whose automatic order selection or noise cut is decided by rounding are not judged"]
CC = 299792458.0


@contextlib.contextmanager
def serial(on=True):
    pmap = getattr(DF, "process_map", None)
    try:
        with contextlib.ExitStack() as stack:
            if on:
                stack.enter_context(serial_pools(DF, RS))
                if pmap:
                    DF.process_map = lambda f, *a, **k: list(map(f, *a))
            stack.enter_context(contextlib.redirect_stdout(io.StringIO()))
            stack.enter_context(contextlib.redirect_stderr(io.StringIO()))
            yield
    finally:
        if pmap:
            DF.process_map = pmap
        multiprocessing.set_start_method(None, force=True)


def mad(a):
    return np.median(np.abs(a - np.median(a))) / 0.6745


def noise_mask(I, thr):
    """Per-channel noise (MAD of the sky after a 3-sigma cut) and mask; also whether rounding could decide a cut."""
    n = len(I)
    rms, mask, amb = np.full(n, np.nan), np.zeros(I.shape[1:], bool), False
    for i in range(n):
        v = I[i][np.isfinite(I[i])].astype(float)
        if not len(v):
            continue
        if thr > 0:
            amb |= bool((np.abs(v - thr) < 1e-6 * thr).any())
            v1 = v[v < thr]
        else:
            v1 = v[v != 0]
        if not len(v1):
            return None, None, True
        cut = np.median(v1) + 3 * mad(v1)
        s = np.ptp(v) + np.abs(v).max()
        amb |= bool((np.abs(v - cut) < 1e-5 * s).any())
        w = v[v < cut]
        if len(w) < 3:
            return None, None, True
        rms[i] = mad(w)
        if rms[i] <= 1e-6 * s:
            return None, None, True
        src = thr if thr > 0 else np.median(w) - thr * rms[i]
        amb |= bool((np.abs(v - src) < 1e-5 * s).any())
        with np.errstate(invalid="ignore"):
            mask |= np.nan_to_num(I[i].astype(float), nan=-np.inf) > src
    return rms, mask, amb


def header(lay, n, extra):
    h = pf.Header()
    h["SIMPLE"], h["BITPIX"], h["NAXIS"] = True, -32, len(lay)
    for i, a in enumerate(lay):
        h["NAXIS%d" % (i + 1)] = n[a]
    for i, a in enumerate(lay):
        k = str(i + 1)
        h["CTYPE" + k] = {"x": "RA---SIN", "y": "DEC--SIN", "f": "FREQ", "s": "STOKES"}[a]
        h["CRPIX" + k] = {"x": 3.5, "y": -2.0, "f": 1.0, "s": 1.0}[a]
        h["CRVAL" + k] = {"x": 200.5, "y": -20.25, "f": n["f0"], "s": 1.0}[a]
        h["CDELT" + k] = {"x": -0.01, "y": 0.012, "f": n["df"], "s": 1.0}[a]
        if a != "s":
            h["CUNIT" + k] = {"x": "deg", "y": "deg", "f": "Hz"}[a]
    for k, v in {"b": {"BUNIT": "Jy/beam"}, "t": {"BTYPE": "Intensity", "BUNIT": "Jy/beam"}, "n": {}}[extra].items():
        h[k] = v
    return h


def todisk(I, lay, n):
    sh = tuple(n[a] for a in reversed(lay))
    ax = len(lay) - 1 - lay.index("f")
    rest = tuple(n[a] for a in reversed(lay) if a != "f")
    return np.ascontiguousarray(np.moveaxis(I.reshape((I.shape[0],) + rest), 0, ax)).reshape(sh)


def make_cube(c, r, f):
    n, ny, nx = len(f), c["ny"], c["nx"]
    x = f[:, None, None] / f.mean()
    I = 0.05 * r.randn(n, ny, nx) * (0.5 + r.rand(n, 1, 1))
    k = max(1, ny * nx // 6)
    for _ in range(k):
        y0, x0 = r.randint(ny), r.randint(nx)
        I[:, y0, x0] += (r.uniform(1, 30) * x[:, 0, 0] ** r.uniform(-2, 1)) * (1 + 0.3 * np.log(x[:, 0, 0]) ** 2)
    I = I + (1.0 if c["bias"] else 0.0)
    if c["nanchan"]:
        I[r.randint(n)] = np.nan
    if c["nanpix"]:
        j = r.rand(n, ny, nx) < 0.05
        I[j] = np.nan
        I[:, r.randint(ny), r.randint(nx)] = np.nan
    return (I * c["scale"]).astype("f4")


gen = {"freq": freq_cases(8, 24, kinds=("lin", "gap", "desc", "jit")), "ny": st.integers(1, 6), "nx": st.integers(1, 6), "lay": st.sampled_from(["xyf", "xysf", "xyfs"]), "extra": st.sampled_from(["b", "b", "t", "n"]),
       "order": st.integers(-3, 3), "fit": st.sampled_from(["log", "linear"]), "mask": st.booleans(), "thr": st.sampled_from([-3.0, -5.0, 0.5, 2.0]), "bias": st.booleans(), "nanchan": st.booleans(), "nanpix": st.booleans(),
       "scale": st.sampled_from([1.0, 1e-4, 1e3]), "seed": seeds}


def products(d, pre, k):
    out = {}
    for nm in ["coeff%d" % i for i in range(k + 1)] + ["coeff%derr" % i for i in range(k + 1)] + ["reffreq", "covariance", "mask", "model.i"]:
        p = os.path.join(d, pre + nm + ".fits")
        check(os.path.exists(p), lambda: "%s was not written" % os.path.basename(p))
        with pf.open(p) as hd:
            out[nm] = (np.array(hd[0].data, float), hd[0].header.copy())
    return out


def judge(c, I, f, out, h, noise_file, ret=None):
    """Compares the products of one run with the 1D fit of every spectrum; returns the number of fitted pixels."""
    thr = c["thr"] * (c["scale"] if c["thr"] > 0 else 1)
    rms, mask, amb = noise_mask(I, thr)
    shape = I.shape[1:]
    check(np.allclose(noise_file, rms, rtol=2e-5, atol=1e-6 * float(np.nanmax(np.abs(I))), equal_nan=True), lambda: "noise written %s, MAD of the sky after the cut %s" % (noise_file[:4], rms[:4]))
    if not c["mask"]:
        mask = np.ones(shape, bool)
    m, _ = out["mask"]
    check(m.shape == shape and np.array_equal(m == 1, mask) and np.isnan(m[~mask]).all(), "mask of the pixels with emission")
    k = abs(c["order"])
    M, hm = out["model.i"]
    check(M.shape == I.shape, lambda: "model cube of shape %s, data %s" % (M.shape, I.shape))
    if ret is not None:
        check(np.allclose(ret, M, rtol=1e-6, atol=0, equal_nan=True), "returned model cube differs from the written one")
    w0 = WCS(h).celestial
    for nm, (a, g) in out.items():
        w = WCS(g).celestial
        check(w.naxis == 2 and np.allclose(w.wcs.crval, w0.wcs.crval) and np.allclose(w.wcs.crpix, w0.wcs.crpix) and np.allclose(w.wcs.cdelt, w0.wcs.cdelt) and list(w.wcs.ctype) == list(w0.wcs.ctype), "%s: sky coordinates" % nm)
        check(a.shape[-2:] == shape, lambda: "%s: shape %s" % (nm, a.shape))
    check("FREQ" in str(hm.get("CTYPE3")) and abs(hm["CRVAL3"] - h["CRVAL%d" % (1 + c["lay"].index("f"))]) < 1, lambda: "frequency axis of the model cube is %r" % hm.get("CTYPE3"))
    cov = out["covariance"][0]
    check(cov.shape == (6, 6) + shape, "shape of the covariance maps")
    nfit = 0
    for ij in np.ndindex(*shape):
        s = (slice(None),) + ij
        got = np.array([out["coeff%d" % q][0][ij] for q in range(k + 1)])
        err = np.array([out["coeff%derr" % q][0][ij] for q in range(k + 1)])
        rf = out["reffreq"][0][ij]
        if not mask[ij]:
            check(np.isnan(got).all() and np.isnan(err).all() and np.isnan(rf) and np.isnan(M[s]).all() and np.isnan(cov[s[:1] + s]).all(), lambda: "pixel %s has no emission but is not blank" % (ij,))
            continue
        good = np.isfinite(I[s]) & np.isfinite(rms)
        if good.sum() == 0:
            check(not np.isfinite(M[s]).any() or not np.isfinite(rf), lambda: "pixel %s has no data but has a model" % (ij,))
            continue
        if good.sum() < k + 3:
            continue
        a = fit_StokesI_model(f, I[s].astype(float), rms, polyOrd=c["order"], fit_function=c["fit"])
        b = fit_StokesI_model(f, I[s].astype(float), rms * 1.001, polyOrd=c["order"], fit_function=c["fit"])
        b2 = fit_StokesI_model(f, I[s].astype(float) * (1 + 1e-6 * np.cos(np.arange(len(f)))), rms, polyOrd=c["order"], fit_function=c["fit"])
        ma, mb, mb2 = (calculate_StokesI_model(z, f) for z in (a, b, b2))
        wob = np.maximum(np.abs(ma - mb), np.abs(ma - mb2))
        if a.polyOrd != b.polyOrd or a.polyOrd != b2.polyOrd or not np.isfinite(ma).all() or np.nanmax(wob / rms) > 0.02:
            continue  # the fit itself is unstable here (no convergence)
        if np.median(np.abs(ma)[good] / rms[good]) < 4 and (c["fit"] == "log" or a.polyOrd > 1):
            continue  # log polynomials of pure noise have no unique minimum
        nfit += 1
        check(abs(rf - a.reference_frequency_Hz) <= 1e-6 * rf, lambda: "pixel %s: reference frequency %.8g, 1D fit %.8g" % (ij, rf, a.reference_frequency_Hz))
        t = 10 * wob + 0.05 * rms + 3e-5 * np.abs(ma)
        z = np.isfinite(rms)
        check((np.abs(M[s] - ma)[z] <= t[z]).all(), lambda: "pixel %s: model %s, 1D fit %s" % (ij, M[s][:3], ma[:3]))
        p, pe = np.asarray(a.params, float)[::-1][: k + 1], np.asarray(a.perror, float)[::-1][: k + 1]
        wp = np.max([np.abs(p - np.asarray(q.params, float)[::-1][: k + 1]) for q in (b, b2)], axis=0)
        we = np.max([np.abs(pe - np.asarray(q.perror, float)[::-1][: k + 1]) for q in (b, b2)], axis=0)
        check((np.abs(got - p) <= 1e-5 * np.abs(p) + 0.05 * pe + 10 * wp).all(), lambda: "pixel %s: coefficients %s, 1D fit %s" % (ij, got, p))
        check((np.abs(err - pe) <= 0.03 * pe + 10 * we).all(), lambda: "pixel %s: coefficient errors %s, 1D fit %s" % (ij, err, pe))
        C = np.asarray(a.pcov, float)
        if np.isfinite(C).all():
            sd = np.sqrt(np.abs(np.diag(C)))
            tol = 0.06 + 20 * np.max(we / np.where(pe > 0, pe, np.inf))
            check((np.abs(cov[(slice(None), slice(None)) + ij] - C) <= tol * np.outer(sd, sd) + 1e-37).all(), lambda: "pixel %s: covariance matrix" % (ij,))
    return nfit


def limit(c):
    """Orders that stay well conditioned over the band."""
    k = 1 if c["freq"]["frac"] < 0.05 else 2 if c["freq"]["frac"] < 0.2 else 3
    return dict(c, order=max(-k, min(k, c["order"])))


def write_inputs(d, c, r):
    f = freqs(c["freq"])
    n = {"x": c["nx"], "y": c["ny"], "s": 1, "f": len(f), "f0": float(f[0]), "df": float(f[1] - f[0])}
    I = make_cube(c, r, f)
    h = header(c["lay"], n, c["extra"])
    pf.writeto(os.path.join(d, "I.fits"), todisk(I, c["lay"], n), h)
    return f, I, h


@sub("cube", st.fixed_dictionaries(gen), quick=160, thorough=6000, timeout=120,
     rule="noisy cubes with sources, offsets, flagged pixels and channels, three axis layouts and images down to one row or column, fitted with every order, function and mask option; products on disk against the 1D fit of each spectrum; non-trivial with a fitted pixel")
def cube(c):
    c = limit(c)
    r = np.random.RandomState(c["seed"])
    with tempfile.TemporaryDirectory() as d, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        f, I, h = write_inputs(d, c, r)
        thr = c["thr"] * (c["scale"] if c["thr"] > 0 else 1)
        rms, mask, amb = noise_mask(I, thr)
        if amb or c["ny"] * c["nx"] < 4 or (c["mask"] and not mask.any()):
            skip()
        with serial():
            data, head = DF.open_datacube(os.path.join(d, "I.fits"))
            keep = data.copy()
            m = DF.make_model_I(data, head, f, polyOrd=c["order"], threshold=thr, fit_function=c["fit"], apply_mask=c["mask"], outDir=d, prefixOut="p_")
        check(np.array_equal(keep, data, equal_nan=True), "the data were changed")
        out = products(d, "p_", abs(c["order"]))
        check(not os.path.exists(os.path.join(d, "p_coeff%d.fits" % (abs(c["order"]) + 1))), "more coefficient maps than the order")
        return judge(c, I, f, out, h, np.atleast_1d(np.loadtxt(os.path.join(d, "p_noise.dat"))), m) > 0


def shift(p, x, kind):
    """Coefficients (highest order first) of the same model about a reference frequency x times as high."""
    p = list(p)
    if kind == "linear":
        return np.array([v * x ** (5 - i) for i, v in enumerate(p)])
    s = np.log10(x)
    P = np.polynomial.Polynomial(np.array([0.0] + p[4::-1]))
    q = P(np.polynomial.Polynomial([s, 1.0])).coef
    q = np.r_[q, np.zeros(6 - len(q))]
    return np.array(list(q[5:0:-1]) + [p[5] * 10 ** q[0]])


def jacobian(p, x, kind):
    J = np.zeros((6, 6))
    if kind == "linear":
        return np.diag([x**5, x**4, x**3, x**2, x, 1.0])
    s = np.log10(x)
    from math import comb

    # coefficient k (k = 5..1) of P(s + L) is sum_j C(j, k) s^(j-k) p_j
    for k in range(1, 6):
        for j in range(k, 6):
            J[5 - k, 5 - j] = comb(j, k) * s ** (j - k)
    g = p[5] * 10 ** sum(p[5 - j] * s**j for j in range(1, 6))
    for j in range(1, 6):
        J[5, 5 - j] = g * np.log(10) * s**j
    J[5, 5] = g / p[5]
    return J


def same_model(p, cov, x, kind, q, e, what):
    p = np.asarray(p, float)
    want = shift(p, x, kind)
    mag = np.abs(shift(np.abs(p), max(x, 1 / x) if kind == "log" else x, kind))
    g = abs(want[5])
    t = 2e-6 * np.maximum(mag, 1e-30)
    if kind == "log":
        lg = abs(np.log10(x))
        t[5] = 2e-6 * g * (1 + np.polyval(list(np.abs(p[:5])) + [0.0], lg) * 2.4)
    t = t + np.abs(shift(p, x * (1 + 4e-7), kind) - want)
    if not np.isfinite(want).all() or g > 1e30 or (0 < g < 1e-30):
        return False
    check((np.abs(np.asarray(q, float) - want) <= t).all(), lambda: "%s: coefficients %s, the same model at %.6g times the frequency has %s" % (what, q, x, want))
    J = jacobian(p, x, kind)
    cov = np.asarray(cov, float)
    V = np.diag(J @ cov @ J.T)
    A = np.diag(np.abs(J) @ np.abs(cov) @ np.abs(J).T)
    e = np.asarray(e, float)
    t5 = np.zeros(6)
    t5[5] = t[5] / g if g else 0
    ok = np.where(np.isnan(e), V <= 1e-5 * A, np.abs(e**2 - V) <= (1e-5 + 4 * t5) * A + 1e-37)
    check(ok.all(), lambda: "%s: errors %s, propagated %s" % (what, e, np.sqrt(np.abs(V))))
    return True


@sub("rescale", st.fixed_dictionaries({"ny": st.integers(1, 5), "nx": st.integers(1, 5), "order": st.integers(0, 5), "fit": st.sampled_from(["log", "linear"]), "new": st.sampled_from(["one", "map", "same"]), "wide": st.booleans(), "nan": st.booleans(),
                                       "dt": st.sampled_from(["f4", ">f4", "f8"]), "zero": st.booleans(), "scale": st.sampled_from([1.0, 1e-4, 1e3]), "cores": st.sampled_from([1, 2]), "rt": st.booleans(), "seed": seeds}), quick=500, thorough=20000,
     rule="random coefficient and covariance maps of both functions with per-pixel reference frequencies, blank pixels and planes of zeros, re-referenced to one frequency or a map, written and read back; non-trivial with more than one pixel")
def rescale(c):
    r = np.random.RandomState(c["seed"])
    shape, o = (c["ny"], c["nx"]), c["order"]
    co = np.zeros((6,) + shape)
    co[5 - o:] = r.uniform(-2, 2, (o + 1,) + shape) * 10.0 ** r.uniform(-2, 0.3, (o + 1,) + shape)
    co[5] = (0.1 + r.rand(*shape)) * np.where(r.rand(*shape) < 0.3, -1, 1)
    if c["zero"] and o >= 2:
        co[5 - r.randint(1, o)] = 0
    if c["fit"] == "linear":
        co *= c["scale"]
    else:
        co[5] *= c["scale"]
    cov = np.zeros((6, 6) + shape)
    for ij in np.ndindex(*shape):
        B = r.randn(o + 1, o + 1)
        s = 10.0 ** r.uniform(-3, -1, o + 1) * (c["scale"] if c["fit"] == "linear" else np.r_[np.ones(o), c["scale"]])
        cov[(slice(5 - o, 6), slice(5 - o, 6)) + ij] = (B @ B.T) * np.outer(s, s)
    f0 = 1e9 * (0.9 + 0.2 * r.rand(*shape))
    w = 3.0 if c["wide"] else 1.1
    x = np.exp(r.uniform(-np.log(w), np.log(w), shape))
    f1 = {"one": np.full(shape, 1e9 * x.flat[0]), "map": f0 * x, "same": f0.copy()}[c["new"]]
    if c["nan"] and co[0].size > 1:
        ij = tuple(r.randint(k) for k in shape)
        for a in (co, cov):
            a[(Ellipsis,) + ij] = np.nan
        f0[ij] = np.nan
        if c["new"] == "same":
            f1[ij] = np.nan
    co, cov, f0 = co.astype(c["dt"]), cov.astype(c["dt"]), f0.astype(c["dt"])
    if c["new"] == "same":
        f1 = f0.copy()
    keep = [a.copy() for a in (cov, f0, f1, co)]
    with serial(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        g, q, e = RS.rescale_I_model_3D(cov, f0, f1, co, c["fit"], num_cores=c["cores"])
    check(all(np.array_equal(a, b, equal_nan=True) for a, b in zip(keep, (cov, f0, f1, co))), "an input map was changed")
    check(np.array_equal(g, f1, equal_nan=True) and q.shape == co.shape and e.shape == co.shape, "shapes of the re-referenced maps")
    for ij in np.ndindex(*shape):
        s = (slice(None),) + ij
        if np.isnan(f0[ij]):
            check(np.isnan(q[s][5]), "a blank pixel has coefficients")
            continue
        same_model(co[s], cov[(slice(None), slice(None)) + ij], float(f1[ij]) / float(f0[ij]), c["fit"], q[s], e[s], "pixel %s" % (ij,))
    if not np.isnan(f1).any():
        h = header("xy", {"x": c["nx"], "y": c["ny"], "f0": 0, "df": 0}, "b")
        del h["BITPIX"], h["SIMPLE"], h["NAXIS1"], h["NAXIS2"], h["NAXIS"]
        h["HISTORY"] = "Fit model is %d-order %s-polynomial" % (o, c["fit"])
        with tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(io.StringIO()):
            RS.write_new_parameters(f1, q, e, os.path.join(d, "a_"), h)
            top = 5 - min(i for i in range(6) if np.any(np.nan_to_num(np.asarray(q[i], float)) != 0))
            made = sorted(os.listdir(d))
            check(made == sorted("a_newcoeff%d%s.fits" % (i, s) for i in range(top + 1) for s in ("", "err")), lambda: "maps written for a model of order %d: %s" % (top, made))
            for i in range(top + 1):
                for s, a in (("", q), ("err", e)):
                    with pf.open(os.path.join(d, "a_newcoeff%d%s.fits" % (i, s))) as hd:
                        check(np.array_equal(np.asarray(hd[0].data, float), np.asarray(a[5 - i], float), equal_nan=True), "newcoeff%d%s holds other values" % (i, s))
                        check(abs(hd[0].header["REFFREQ"] - f1[0, 0]) <= 1e-6 * f1[0, 0] and hd[0].header["CRVAL1"] == h["CRVAL1"], "header of the re-referenced map")
    return co[0].size > 1


toolgen = dict(gen, ff=st.booleans(), how=st.sampled_from(["mean", "f", "l"]), x=st.sampled_from([0.95, 1.0, 1.08]), par=st.booleans(), verb=st.booleans(), chunk=st.integers(1, 5))


@sub("tool", st.fixed_dictionaries(toolgen), quick=32, thorough=800, timeout=200, min_shard=4,
     rule="both command lines in sequence on files (frequencies from a file or the header, several processes), fit products against the 1D fits and re-referenced maps against the shifted polynomials; non-trivial with a fitted pixel")
def tool(c):
    c = limit(c)
    r = np.random.RandomState(c["seed"])
    if not c["ff"]:
        c = dict(c, freq=dict(c["freq"], kind="lin"))
    with tempfile.TemporaryDirectory() as d, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        f, I, h = write_inputs(d, c, r)
        thr = c["thr"] * (c["scale"] if c["thr"] > 0 else 1)
        rms, mask, amb = noise_mask(I, thr)
        if amb or c["ny"] * c["nx"] < 4 or (c["mask"] and not mask.any()):
            skip()
        np.savetxt(os.path.join(d, "f.dat"), f)
        o = os.path.join(d, "out")
        os.mkdir(o)
        argv = sys.argv
        try:
            sys.argv = ["fitIcube", os.path.join(d, "I.fits"), "-p", str(c["order"]), "-f", c["fit"], "-t", repr(thr), "-o", "p_", "-odir", o, "-n", "2", "-c", str(c["chunk"])] + ["-v"] * c["verb"] + (["-m"] if c["mask"] else []) + (["-freqFile", os.path.join(d, "f.dat")] if c["ff"] else [])
            with serial(not c["par"]):
                DF.main()
            out = products(o, "p_", abs(c["order"]))
            nfit = judge(c, I, f, out, h, np.atleast_1d(np.loadtxt(os.path.join(o, "p_noise.dat"))))
            rf = out["reffreq"][0]
            if not np.isfinite(rf).any():
                return False
            args = []
            if c["how"] == "f":
                new = float(np.nanmean(rf)) * c["x"]
                args = ["-f", repr(new)]
            elif c["how"] == "l":
                l20 = float((CC / (np.nanmean(rf) * c["x"])) ** 2)
                new = CC / np.sqrt(l20)
                pf.writeto(os.path.join(d, "fdf.fits"), np.zeros((2, 2, 2), "f4"), pf.Header({"LAMSQ0": l20}))
                args = ["-l", os.path.join(d, "fdf.fits")]
            else:
                new = float(np.nanmean(rf))
            sys.argv = ["rescale", os.path.join(o, "p_covariance.fits")] + args
            with serial(not c["par"]):
                RS.command_line()
        finally:
            sys.argv = argv
        k = max(i for i in range(abs(c["order"]) + 1) if np.any(np.nan_to_num(out["coeff%d" % i][0]) != 0))
        for i in range(k + 1):
            check(os.path.exists(os.path.join(o, "p_newcoeff%d.fits" % i)), "newcoeff%d was not written" % i)
        check(not os.path.exists(os.path.join(o, "p_newcoeff%d.fits" % (k + 1))), "more re-referenced maps than coefficients")
        q = np.zeros((6,) + rf.shape)
        e = np.zeros((6,) + rf.shape)
        for i in range(k + 1):
            with pf.open(os.path.join(o, "p_newcoeff%d.fits" % i)) as hd:
                q[5 - i] = hd[0].data
                check(abs(hd[0].header["REFFREQ"] - new) <= 1e-6 * new, lambda: "REFFREQ %.9g, expected %.9g" % (hd[0].header["REFFREQ"], new))
            e[5 - i] = pf.getdata(os.path.join(o, "p_newcoeff%derr.fits" % i))
        cov = out["covariance"][0]
        for ij in np.ndindex(*rf.shape):
            p = np.zeros(6)
            for i in range(k + 1):
                p[5 - i] = out["coeff%d" % i][0][ij]
            if not np.isfinite(p).all() or not np.isfinite(rf[ij]) or p[5] == 0 or np.abs(p).max() > 1e3:
                continue
            s = (slice(None),) + ij
            if np.abs(rf[ij] / new - 1) < 0.3 and np.isfinite(cov[(slice(None), slice(None)) + ij]).all():
                same_model(p, cov[(slice(None), slice(None)) + ij], new / rf[ij], c["fit"], q[s], e[s], "pixel %s" % (ij,))
    return nfit > 0


# the same at the size of survey data
sub("rescale_large", wider(st.fixed_dictionaries({"order": st.integers(0, 5), "fit": st.sampled_from(["log", "linear"]), "new": st.sampled_from(["one", "map", "same"]), "wide": st.booleans(), "nan": st.booleans(),
    "dt": st.sampled_from(["f4", ">f4", "f8"]), "zero": st.booleans(), "scale": st.sampled_from([1.0, 1e-4, 1e3]), "cores": st.sampled_from([1, 2, 3]), "rt": st.booleans(), "seed": seeds}), ny=st.integers(6, 16), nx=st.integers(6, 16)), quick=24, thorough=200, min_shard=1,
    rule="as rescale, with 36 to 256 pixels; non-trivial as there")(rescale)
sub("cube_large", wider(st.fixed_dictionaries(gen), ny=st.integers(7, 11), nx=st.integers(7, 11)), quick=12, thorough=100, min_shard=1, timeout=140,
    rule="as cube, with 49 to 121 pixels; non-trivial as there")(cube)
