"""C10: re-referencing a Stokes I model changes its description, not the model.

Technique: property-based testing with metamorphic relations (model values, there-and-back, composition, invariance of the propagated model variance) and a numerically differentiated reference for the covariance
Assurance: exploration of generated inputs; no proof
"""
import warnings

import numpy as np
from hypothesis import strategies as st

from vlib.gen import freqs, seeds, wider
from vlib.harness import check, skip, sub

from RMtools_1D.do_RMsynth_1D import run_rmsynth
from RMutils.util_misc import FitResult, calculate_StokesI_model, fit_StokesI_model, renormalize_StokesI_model

ASSUMPTIONS = ["log-polynomial coefficients bounded so that the model stays finite", "frequency ratios between 0.3 and 3"]


def value(p, x, kind):
    if kind == "linear":
        return np.polyval(p, x)
    return p[5] * 10 ** np.polyval(list(p[:5]) + [0.0], np.log10(x))


def numjac(fun, p, h):
    p = np.asarray(p, np.longdouble)
    cols = []
    for i in range(len(p)):
        d = np.zeros(len(p), np.longdouble)
        d[i] = h * max(abs(p[i]), 1)
        cols.append((np.asarray(fun(p + d), np.longdouble) - np.asarray(fun(p - d), np.longdouble)) / (2 * d[i]))
    return np.stack(cols, 1)


def result(c, r):
    o = c["order"]
    p = np.zeros(6)
    p[5 - o:] = r.uniform(-3, 3, o + 1) * 10.0 ** r.uniform(-2, 0.5, o + 1)
    if c["fit"] == "log":
        p[5] = np.abs(p[5]) + 0.01
    p = p * (c["scale"] if c["fit"] == "linear" else 1)
    if c["fit"] == "log":
        p[5] *= c["scale"]
    cov = np.zeros((6, 6))
    B = r.randn(o + 1, o + 1)
    s = 10.0 ** r.uniform(-3, 0, o + 1) * np.abs(p[5 - o:])
    cov[5 - o:, 5 - o:] = (B @ B.T) * np.outer(s, s)
    if c["diag"]:
        cov = np.diag(np.diag(cov))
    f0 = c["f0"] * 1e6
    return FitResult(params=p if c["arr"] else list(p), fitStatus=1, chiSq=3.5, chiSqRed=0.7, AIC=9.5, polyOrd=o, nIter=4, reference_frequency_Hz=f0, dof=5, pcov=cov,
                     perror=np.sqrt(np.diag(cov)), fit_function=c["fit"]), p, cov, f0


@sub("model", st.fixed_dictionaries({"order": st.integers(0, 5), "fit": st.sampled_from(["linear", "log"]), "f0": st.sampled_from([1.0, 150.0, 900.0, 1400.0, 3000.0]), "x": st.floats(0.3, 3), "y": st.floats(0.3, 3),
                                     "scale": st.sampled_from([1.0, 1e-5, 1e4]), "diag": st.booleans(), "arr": st.booleans(), "seed": seeds}), quick=3000, thorough=100000,
     rule="random polynomials of order 0-5 and covariances of both kinds re-referenced to two other frequencies; non-trivial for order >= 1 and a changed frequency")
def model(c):
    r = np.random.RandomState(c["seed"])
    m, p, cov, f0 = result(c, r)
    keep = (np.array(m.params), m.pcov.copy(), np.array(m.perror))
    f1, f2 = f0 * c["x"], f0 * c["y"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a = renormalize_StokesI_model(m, f1)
        b = renormalize_StokesI_model(a, f2)
        d = renormalize_StokesI_model(m, f2)
        back = renormalize_StokesI_model(a, f0)
        same = renormalize_StokesI_model(m, f0)
    check(np.array_equal(keep[0], m.params) and np.array_equal(keep[1], m.pcov) and np.array_equal(keep[2], m.perror), "the fit passed in was changed")
    g = f0 * np.linspace(0.4, 2.5, 23)
    want = value(p, g / f0, c["fit"])
    if not np.all(np.isfinite(want)) or np.abs(np.log10(np.abs(want) + 1e-300)).max() > 100:
        skip()
    # how much of the model cancels between terms (rounding floor)
    def mag(q, fr):
        x = fr
        return np.abs(np.polyval(np.abs(q), x)) if c["fit"] == "linear" else np.abs(value(q, x, "log")) * (1 + np.polyval(list(np.abs(q[:5])) + [0.0], np.abs(np.log10(x))))
    for n, q, fr in (("first", a, f1), ("second via first", b, f2), ("second", d, f2), ("back", back, f0), ("same", same, f0)):
        check(q.reference_frequency_Hz == fr, "%s: reference frequency not the requested one" % n)
        got = calculate_StokesI_model(q, g)
        tol = 1e-10 * (mag(np.asarray(q.params, float), g / fr) + mag(p, g / f0))
        check(np.all(np.abs(got - want) <= tol), lambda: "%s: the model flux changed by up to %.3g (relative)" % (n, np.max(np.abs(got - want) / np.abs(want))))
        check((q.fitStatus, q.chiSq, q.chiSqRed, q.AIC, q.polyOrd, q.nIter, q.dof, q.fit_function) == (m.fitStatus, m.chiSq, m.chiSqRed, m.AIC, m.polyOrd, m.nIter, m.dof, m.fit_function), "other entries of the fit changed")
        check(not np.any(np.asarray(q.params)[:5 - c["order"]]), "coefficients above the order appeared")
    # coefficients: constant term is the flux at the reference frequency
    for q, fr in ((a, f1), (d, f2)):
        if c["fit"] == "log":
            e = value(p, fr / f0, "log")
            check(abs(q.params[5] - e) <= 1e-9 * abs(e), "the constant of the log model is not the flux at the reference frequency")
    sc = np.maximum(np.abs(np.asarray(d.params, float)), np.abs(p).max() * 1e-3 if c["fit"] == "log" else 1e-300)
    check(np.all(np.abs(np.asarray(b.params) - d.params) <= 1e-8 * sc + 1e-9 * (np.abs(p[:5]).max() * 50 if c["fit"] == "log" else 0)), lambda: "direct %s, via another frequency %s" % (d.params, b.params))
    check(np.allclose(same.params, p, rtol=1e-12) and np.allclose(same.pcov, cov, rtol=1e-10, atol=0) , "re-referencing to the same frequency changes the fit")
    # covariance: linear propagation through the change of variables
    def change(q):
        q = [np.longdouble(v) for v in q]
        x = np.longdouble(c["x"])
        if c["fit"] == "linear":
            return [q[k] * x ** (5 - k) for k in range(6)]
        s = np.log10(x)
        # Taylor shift of the exponent polynomial
        ex = np.array([q[0], q[1], q[2], q[3], q[4], np.longdouble(0)])
        out = [np.longdouble(0)] * 6
        from math import comb
        for k in range(6):
            deg = 5 - k
            for j in range(deg + 1):
                out[5 - j] += ex[k] * comb(deg, j) * s ** (deg - j)
        return out[:5] + [q[5] * np.longdouble(10) ** out[5]]

    J = numjac(change, p, 1e-6).astype(float)
    ncov = J @ cov @ J.T
    sd = np.sqrt(np.diag(ncov))
    got = np.asarray(a.pcov, float)
    floor = np.outer(sd, sd) + 1e-30
    check(np.all(np.abs(np.asarray(a.perror) - sd) <= 1e-5 * sd + 1e-7 * np.sqrt(np.trace(cov)) * 0), lambda: "coefficient errors %s, linear propagation gives %s" % (np.asarray(a.perror), sd))
    check(np.all(np.abs(got - ncov) <= 1e-5 * floor), "covariance is not that of linear propagation")
    check(np.allclose(np.asarray(b.pcov, float), np.asarray(d.pcov, float), rtol=1e-5, atol=1e-6 * np.abs(np.asarray(d.pcov, float)).max() * 0 + 0) or np.all(np.abs(np.asarray(b.pcov, float) - d.pcov) <= 1e-5 * (np.outer(d.perror, d.perror) + 1e-300)), "covariance depends on the route")
    # the propagated variance of the model flux is a property of the model
    for fr in (0.8, 1.3):
        gA = numjac(lambda q: [value(q, np.longdouble(fr), c["fit"])], p, 1e-6).astype(float)[0]
        gB = numjac(lambda q: [value(q, np.longdouble(fr * f0 / f1), c["fit"])], np.asarray(a.params, float), 1e-6).astype(float)[0]
        vA, vB = gA @ cov @ gA, gB @ got @ gB
        lim = np.abs(gB) @ np.abs(got) @ np.abs(gB)
        check(abs(vA - vB) <= 1e-4 * abs(vA) + 1e-7 * lim, lambda: "the variance of the model flux changed from %.6g to %.6g" % (vA, vB))
    return c["order"] >= 1 and abs(c["x"] - 1) > 1e-3


@sub("fitted", st.fixed_dictionaries({"n": st.integers(10, 60), "fit": st.sampled_from(["linear", "log"]), "order": st.integers(0, 3), "fk": st.sampled_from(["lin", "gap", "desc", "shuf"]), "f0": st.sampled_from([200.0, 900.0, 1400.0]),
                                      "noise": st.sampled_from([1e-3, 0.03]), "wt": st.sampled_from(["variance", "uniform"]), "bits": st.sampled_from([32, 64]), "seed": seeds}), quick=400, thorough=10000,
     rule="1D runs on fitted Stokes I spectra: the reported coefficients and reference frequency must describe the model that was fitted; non-trivial when the reported frequency differs from the fit's own")
def fitted(c):
    r = np.random.RandomState(c["seed"])
    f = freqs({"kind": c["fk"], "n": c["n"], "f0": c["f0"], "frac": 0.3, "seed": c["seed"]})
    n = len(f)
    al = r.uniform(-2, 2)
    I = 2 * (f / f.mean()) ** al
    sI = c["noise"] * (0.5 + r.rand(n))
    I = I + sI * r.randn(n)
    q, u = 0.3 * np.cos(2 * r.rand() + 20 * (3e8 / f) ** 2), 0.3 * np.sin(2 * r.rand() + 20 * (3e8 / f) ** 2)
    sQ = 0.01 * (0.2 + 3 * r.rand(n))
    dt = "f%d" % (c["bits"] // 8)
    if c["bits"] == 32:  # both sides see what the tool sees
        f, I, sI = (a.astype("f4").astype(float) for a in (f, I, sI))
    fwhm = 3.8 / np.ptp((3e8 / f) ** 2)
    md, ad = run_rmsynth([f, I, q * I, u * I, sI, sQ, sQ], polyOrd=c["order"], phiMax_radm2=5 * fwhm, dPhi_radm2=fwhm / 5, weightType=c["wt"], nBits=c["bits"], fit_function=c["fit"])
    m = fit_StokesI_model(f.astype(dt).astype(float), I.astype(dt).astype(float), sI.astype(dt).astype(float), c["order"], c["fit"])
    p = np.array([float(x) for x in md["polyCoeffs"].split(",")])
    e = np.array([float(x) for x in md["polyCoefferr"].split(",")])
    f0 = md["freq0_Hz"]
    check(abs(f0 - 299792458.0 / np.sqrt(md["lam0Sq_m2"])) <= 1e-6 * f0, lambda: "freq0 %.9g is not the frequency of lam0Sq %.9g" % (f0, md["lam0Sq_m2"]))
    check(md["polyOrd"] == c["order"] and md["fit_function"] == c["fit"], "order or function")
    if len(p) != 6:
        p = np.r_[np.zeros(6 - len(p)), p]
        e = np.r_[np.zeros(6 - len(e)), e]
    want = calculate_StokesI_model(m, f)
    got = value(p, f / f0, c["fit"])
    # the coefficients are written with single precision
    tol = (3e-7 if c["bits"] == 64 else 1e-5) * max(1, np.abs(p).sum())
    check(np.all(np.abs(got - want) <= tol * np.abs(want).max()), lambda: "the reported coefficients do not describe the fitted model (off by %.3g)" % np.abs(got - want).max())
    i0 = value(p, 1.0, c["fit"])
    check(abs(md["Ifreq0"] - i0) <= tol * abs(i0), lambda: "Ifreq0 %.8g, the model gives %.8g" % (md["Ifreq0"], i0))
    J = numjac(lambda v: value(v, (f / f0).astype(np.longdouble), c["fit"]), p[:], 1e-6).astype(float)[:, 5 - c["order"]:] / sI[:, None]
    nrm = np.sqrt((J**2).sum(0))
    H = (J / nrm).T @ (J / nrm)
    if np.linalg.cond(H) < 1e6 and c["order"] <= 2:
        sd = np.sqrt(np.diag(np.linalg.inv(H))) / nrm
        check(np.all(np.abs(e[5 - c["order"]:] - sd) <= 0.05 * sd), lambda: "coefficient errors %s, the data allow %s" % (e, sd))
    return abs(f0 / m.reference_frequency_Hz - 1) > 1e-6


# the same at the size of survey data
sub("fitted_large", wider(st.fixed_dictionaries({"fit": st.sampled_from(["linear", "log"]), "order": st.integers(0, 3), "fk": st.sampled_from(["lin", "gap", "desc", "shuf"]), "f0": st.sampled_from([200.0, 900.0, 1400.0]),
    "noise": st.sampled_from([1e-3, 0.03]), "wt": st.sampled_from(["variance", "uniform"]), "bits": st.sampled_from([32, 64]), "seed": seeds}), n=st.integers(100, 600)), quick=48, thorough=300, min_shard=2,
    rule="as fitted, with hundreds of channels; non-trivial as there")(fitted)
