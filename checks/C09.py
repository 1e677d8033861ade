"""C09: the Stokes I fit returns the least-squares polynomial of the right order.

Technique: property-based testing against an independent weighted least-squares solution (closed form for linear polynomials, a different optimiser and an analytic Jacobian for log polynomials), plus metamorphic relations (deleting NaN channels, scaling the flux)
Assurance: exploration of generated inputs; no proof
"""
import numpy as np
from hypothesis import strategies as st
from scipy.optimize import least_squares

from vlib.gen import freq_cases, freqs, seeds, wider
from vlib.harness import check, skip, sub

from RMutils.util_misc import calculate_StokesI_model, create_frac_spectra, fit_StokesI_model

ASSUMPTIONS = ["orders above 2 are generated only for bands wide enough for the polynomial to be well conditioned in double precision", "positive errors", "automatic selection is not judged when two AIC values are within 0.02 (1 for orders 4 and 5, where the tool may stop within 1 of the minimum)"]

LN10 = np.log(10)


def model(p, x, kind):
    """p ordered from the highest order to the constant, six numbers."""
    if kind == "linear":
        return np.polyval(p, x)
    L = np.log10(x)
    return p[5] * 10 ** (np.polyval(list(p[:5]) + [0.0], L))


def jac(p, x, kind, order):
    if kind == "linear":
        return np.stack([x ** k for k in range(order, -1, -1)], 1)
    L = np.log10(x)
    m = model(p, x, kind)
    cols = [LN10 * m * L**k for k in range(order, 0, -1)] + [m / p[5]]
    return np.stack(cols, 1)


def lsq(f, I, dI, order, kind, start):
    """Independent weighted least squares in centred, scaled coordinates; returns chi2 and the model."""
    if kind == "linear" or order == 0:
        x = (f - f.mean()) / np.ptp(f) * 2
        A = np.stack([x**k for k in range(order + 1)], 1)
        s = np.linalg.lstsq(A / dI[:, None], I / dI, rcond=None)[0]
        m = A @ s
        return float((((I - m) / dI) ** 2).sum()), m
    L = np.log10(f / np.exp(np.log(f).mean()))
    L = L / np.abs(L).max()
    A = np.stack([L**k for k in range(order + 1)], 1)
    s0 = np.linalg.lstsq(A, np.log(start), rcond=None)[0]
    def mod(s):
        return np.exp(np.clip(A @ s, -300, 300))

    r = least_squares(lambda s: (mod(s) - I) / dI, s0, jac=lambda s: A * (mod(s) / dI)[:, None], method="lm", xtol=1e-14, ftol=1e-14, gtol=1e-14, max_nfev=2000)
    m = mod(r.x)
    return float((((I - m) / dI) ** 2).sum()), m


gen = {
    "n": st.integers(8, 120), "f0": st.sampled_from([150.0, 800.0, 1400.0]), "frac": st.sampled_from([0.1, 0.3, 0.7]), "fk": st.sampled_from(["lin", "jit", "gap", "desc", "shuf"]),
    "kind": st.sampled_from(["linear", "log"]), "true": st.integers(0, 5), "order": st.integers(0, 5), "noise": st.sampled_from([1e-4, 1e-2, 0.1]),
    "dt": st.sampled_from(["f8", "f8", "f4"]), "het": st.booleans(), "nan": st.booleans(), "scale": st.sampled_from([1.0, 1e-4, 1e3]), "seed": seeds,
}


def spectrum(c):
    r = np.random.RandomState(c["seed"])
    f = freqs({"kind": c["fk"], "n": c["n"], "f0": c["f0"], "frac": c["frac"], "seed": c["seed"]})
    n = len(f)
    x = np.log(f) if c["kind"] == "log" else f
    x = (x - x.mean()) / np.ptp(x) * 2
    t = c["true"]
    co = np.r_[0.0, r.uniform(-0.5, 0.5, t) / np.arange(1, t + 1)] if t else np.zeros(1)
    y = np.polynomial.polynomial.polyval(x, co)
    I = np.exp(y) if c["kind"] == "log" else 1 + 0.8 * y / max(1, np.abs(y).max())
    dI = c["noise"] * ((0.3 + r.rand(n)) if c["het"] else np.ones(n))
    I0 = I.copy()
    I = I + dI * r.randn(n)
    good = np.ones(n, bool)
    if c["nan"]:
        good = r.rand(n) > 0.2
        good[[np.argmin(f), np.argmax(f)]] = True
    # values exactly representable in the precision handed to the tool
    f, I, dI = (a.astype(c["dt"]).astype(float) for a in (f, I * c["scale"], dI * c["scale"]))
    return r, f, I0 * c["scale"], I, dI, good


def limit(c, order):
    """Orders that stay well conditioned in f/f_ref over the band."""
    return min(order, {0.1: 2, 0.3: 3, 0.7: 5}[c["frac"]])


@sub("fixed", st.fixed_dictionaries(gen), quick=1500, thorough=60000,
     rule="noisy polynomial and power-law spectra of order 0-5 fitted with a fixed order, homo- and heteroscedastic errors, NaN channels; non-trivial when there are more channels than coefficients")
def fixed(c):
    r, f, I0, I, dI, good = spectrum(c)
    o = limit(c, c["order"])
    k = c["kind"]
    if good.sum() < o + 4:
        skip()
    I2, d2 = I.copy(), dI.copy()
    j = r.rand(len(f)) < 0.5
    I2[~good & j] = np.nan
    d2[~good & ~j] = np.nan
    f, I2, d2 = (a.astype(c["dt"]) for a in (f, I2, d2))
    ins = [f.copy(), I2.copy(), d2.copy()]
    m = fit_StokesI_model(f, I2, d2, o, k)
    f = f.astype(float)
    check(all(np.array_equal(a, b, equal_nan=True) and a.dtype == b.dtype for a, b in zip(ins, [f.astype(c["dt"]), I2, d2])), "an input array was changed")
    fg, Ig, dg = f[good], I[good], dI[good]
    rf = m.reference_frequency_Hz
    e = 1 / np.sqrt(np.mean(1 / fg**2))
    check(abs(rf - e) <= 1e-9 * e, lambda: "reference frequency %.10g, mean lambda^2 of the valid channels gives %.10g" % (rf, e))
    p = np.asarray(m.params, float)
    check(len(p) == 6 and np.all(p[:5 - o] == 0), lambda: "order %d fit has coefficients %s" % (o, p))
    xg = fg / rf
    mod = model(p, xg, k)
    out = calculate_StokesI_model(m, f)
    check(np.allclose(out[good], mod, rtol=1e-8, atol=1e-10 * c["scale"]), "the evaluated model is not the polynomial with the returned coefficients")
    chi = (((Ig - mod) / dg) ** 2).sum()
    check(abs(m.chiSq - chi) <= 1e-5 * chi + 1e-9, lambda: "chi-square reported %.8g, returned parameters give %.8g" % (m.chiSq, chi))
    best, bm = lsq(fg, Ig, dg, o, k, I0[good])
    tol = 0.02 + 1e-4 * best + (1.0 if o >= 4 else 0.0)  # the numerical derivatives of orders 4 and 5 can stop the tool's optimiser early
    check(chi <= best + tol, lambda: "chi-square of the fit %.6g, least squares reaches %.6g" % (chi, best))
    if best - chi > tol:
        skip("the reference optimiser did not converge")
    s = np.abs(mod - bm) / dg
    check(s.max() <= (1.2 if o >= 4 else 0.3), lambda: "the model differs from the least-squares solution by up to %.3g sigma" % s.max())
    check(m.polyOrd == o, "reported order")
    dof = good.sum() - o - 1
    check(m.dof == dof, lambda: "dof %d, expected %d" % (m.dof, dof))
    check(abs(m.chiSqRed - chi / dof) <= 1e-5 * chi / dof + 1e-9, lambda: "reduced chi-square %.8g, expected %.8g" % (m.chiSqRed, chi / dof))
    check(abs(m.AIC - (2 * (o + 1) + chi)) <= 1e-5 * chi + 1e-6, lambda: "AIC %.8g, expected %.8g" % (m.AIC, 2 * (o + 1) + chi))
    check(m.fit_function == k and 1 <= m.fitStatus <= 9, lambda: "status %s" % m.fitStatus)
    # errors of weighted least squares at the solution
    J = jac(p, xg, k, o) / dg[:, None]
    nrm = np.sqrt((J**2).sum(0))
    H = (J / nrm).T @ (J / nrm)
    # the tool differentiates numerically with a step of sqrt(eps) |p|: where that step is lost in the rounding of the model, its errors are too
    pk = np.abs(p[5 - o:])
    rel = 1.5e-8 * np.abs(mod).max() / (pk * np.abs(J * dg[:, None]).max(0) + 1e-300)
    if np.linalg.cond(H) < 1e9 and (rel * np.sqrt(np.linalg.cond(H))).max() < 2e-3:
        cov = np.linalg.inv(H) / np.outer(nrm, nrm)
        sd = np.sqrt(np.diag(cov))
        pe = np.asarray(m.perror, float)[5 - o:]
        check(np.all(np.abs(pe - sd) <= 0.03 * sd), lambda: "coefficient errors %s, weighted least squares gives %s (cond %.3g)" % (pe, sd, np.linalg.cond(H)))
        C = np.asarray(m.pcov, float)[5 - o:, 5 - o:]
        check(np.all(np.abs(C - cov) <= 0.05 * np.outer(sd, sd)), "covariance is not that of weighted least squares")
        check(not np.asarray(m.pcov)[:5 - o].any() and not np.asarray(m.perror)[:5 - o].any(), "unfitted coefficients have errors")
    # deleting the NaN channels changes nothing
    m2 = fit_StokesI_model(fg, Ig, dg, o, k)
    check(np.allclose(m2.params, p, rtol=1e-6, atol=1e-9 * np.abs(p).max()) and abs(m2.chiSqRed - m.chiSqRed) <= 1e-6 * m.chiSqRed + 1e-9, "NaN channels are not ignored")
    if o >= c["true"] or o >= 0 and c["true"] == 0:
        z = np.abs(out - I0)[good] / dI[good]
        check(z.max() <= 6 * np.sqrt(o + 1.0) + 1, lambda: "the fitted model is %.3g sigma away from the generating polynomial" % z.max())
    return True


@sub("auto", st.fixed_dictionaries(dict(gen, order=st.integers(1, 5))), quick=800, thorough=30000,
     rule="automatic order selection; the AIC of every order is computed independently; non-trivial when the selected order is unambiguous")
def auto(c):
    r, f, I0, I, dI, good = spectrum(c)
    o = limit(c, c["order"])
    k = c["kind"]
    if good.sum() < o + 4:
        skip()
    I2 = np.where(good, I, np.nan)
    m = fit_StokesI_model(f.astype(c["dt"]), I2.astype(c["dt"]), dI.astype(c["dt"]), -o, k)
    fg, Ig, dg = f[good], I[good], dI[good]
    aic = []
    for q in range(o + 1):
        b, _ = lsq(fg, Ig, dg, q, k, np.where(I0[good] > 0, I0[good], 1e-3 * c["scale"]))
        aic.append(2 * (q + 1) + b)
    e = 0
    amb = False
    while e < o:
        amb = amb or abs(aic[e + 1] - aic[e]) < (0.02 if e < 3 else 1.0) + 2e-4 * aic[e]
        if aic[e + 1] < aic[e]:
            e += 1
        else:
            break
    check(0 <= m.polyOrd <= o, lambda: "order %d selected, maximum %d" % (m.polyOrd, o))
    check(not np.asarray(m.params)[:5 - m.polyOrd].any(), "coefficients above the selected order")
    chi = (((Ig - model(np.asarray(m.params, float), fg / m.reference_frequency_Hz, k)) / dg) ** 2).sum()
    check(abs(m.chiSq - chi) <= 1e-5 * chi + 1e-9, "chi-square does not belong to the returned parameters")
    check(abs(m.AIC - (2 * (m.polyOrd + 1) + m.chiSq)) <= 1e-9 * abs(m.AIC), lambda: "AIC %.8g does not belong to order %d and chi-square %.8g" % (m.AIC, m.polyOrd, m.chiSq))
    check(m.dof == good.sum() - m.polyOrd - 1 and abs(m.chiSqRed * m.dof - m.chiSq) <= 1e-9 * m.chiSq, "dof or reduced chi-square")
    if amb:
        return False
    if any(m0.AIC < a - 0.01 - 1e-4 * a for m0, a in ((fit_StokesI_model(f, I2, dI, q, k), aic[q]) for q in range(min(o, e + 1) + 1))):
        skip("the reference optimiser did not converge")
    check(m.polyOrd == e, lambda: "order %d selected; AIC of orders 0.. are %s" % (m.polyOrd, aic))
    # same as asking for that order
    m2 = fit_StokesI_model(f, I2, dI, m.polyOrd, k)
    check(np.allclose(m2.params, m.params, rtol=1e-6, atol=1e-9 * np.abs(m.params).max()) and abs(m2.AIC - m.AIC) <= 1e-6 * abs(m.AIC), "automatic selection returns another fit than the fixed order")
    return True


@sub("flags", st.fixed_dictionaries({"n": st.integers(8, 60), "lo": st.sampled_from([-0.5, -0.05, 0.02, 0.3]), "noise": st.sampled_from([1e-3, 0.1, 0.6]), "order": st.sampled_from([1, 2]),
                                     "fit": st.sampled_from(["linear", "log"]), "fk": st.sampled_from(["lin", "desc", "shuf"]), "bits": st.sampled_from([32, 64]), "seed": seeds}),
     quick=500, thorough=10000,
     rule="spectra whose model goes negative or below the noise somewhere; non-trivial when a flag is expected")
def flags(c):
    r = np.random.RandomState(c["seed"])
    f = freqs({"kind": c["fk"], "n": c["n"], "f0": 900.0, "frac": 0.3, "seed": c["seed"]})
    x = (f - f.min()) / np.ptp(f)
    I = 1 - (1 - c["lo"]) * x
    if c["fit"] == "log":
        I = np.maximum(np.abs(I), 0.01)
    dI = np.full(len(f), c["noise"])
    I = I + 1e-3 * r.randn(len(f))
    dt = "f%d" % (c["bits"] // 8)
    z = np.ones(len(f))
    mod, q, u, dq, du, m = create_frac_spectra(f.astype("f8"), I.astype(dt), z, z, dI.astype(dt), z, z, c["order"], fit_function=c["fit"])
    mod = np.asarray(mod, float)
    e = 0
    if abs(mod.min()) > 1e-9 and mod.min() < 0:
        e += 128
    if np.any(np.abs(mod - dI) < 1e-6):
        skip()
    if (mod < dI).any():
        e += 64
    check(int(m.fitStatus) // 64 * 64 == e, lambda: "fit status %d; model minimum %.3g, smallest model minus error %.3g" % (m.fitStatus, mod.min(), (mod - dI).min()))
    return e > 0


# the same at the size of survey data
sub("fixed_large", wider(st.fixed_dictionaries(gen), n=st.integers(150, 900)), quick=72, thorough=300, min_shard=2,
    rule="as fixed, with hundreds of channels; non-trivial as there")(fixed)
sub("auto_large", wider(st.fixed_dictionaries(dict(gen, order=st.integers(1, 5))), n=st.integers(150, 900)), quick=48, thorough=300, min_shard=2,
    rule="as auto, with hundreds of channels; non-trivial as there")(auto)
