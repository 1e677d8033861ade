"""C21: complexity metrics measure excess scatter about the best thin model.

Technique: property-based differential testing of the scatter posterior and second moments against their definitions, metamorphic tests (sign, scale, order, flags), recovery of injected scatter, and end-to-end comparison of the values in the 1D result dictionaries
Assurance: exploration of generated inputs; no proof. The statistical recovery bounds are 6-sigma bounds on generated noise.
"""
import numpy as np
from hypothesis import strategies as st

from vlib.gen import freq_cases, freqs, l2_of, seeds, thin
from vlib.harness import check, skip, sub

from RMtools_1D import do_RMclean_1D as C1
from RMtools_1D import do_RMsynth_1D as S1
from RMutils import util_misc as M
from RMutils import util_RM as R

ASSUMPTIONS = ["the prior on the additional scatter is 1/sigma, as implemented and published with the tool", "at least two unflagged channels"]


def posterior(y, dy, med, n=1000):
    """Grid, density and cumulative of the additional scatter, by definition."""
    good = np.isfinite(y) & np.isfinite(dy)
    y, dy = y[good], dy[good]
    top = (y + dy).max() - (y - dy).min()
    s = np.linspace(top / n, top, n)
    v = dy[None, :] ** 2 + s[:, None] ** 2
    L = -np.log(s) - 0.5 * np.log(v).sum(1) - 0.5 * ((y - med) ** 2 / v).sum(1)
    p = np.exp(L - L.max())
    chi = ((y - med) ** 2 / v).sum(1) / (len(y) - 1)
    return s, p / (p.sum() * (s[1] - s[0])), np.cumsum(p) / p.sum(), chi


def point(s, cdf, q):
    i = int(np.argmax(cdf > q))
    if i == 0:
        return s[0]
    return s[i - 1] + (s[i] - s[i - 1]) * (q - cdf[i - 1]) / (cdf[i] - cdf[i - 1])


def judge(m, suf, y, dy, med, n=1000, tol=1e-6, what=""):
    s, p, cdf, chi = posterior(y, dy, med, n)
    a = m["sigmaAdd" + suf]
    check(abs(a - point(s, cdf, 0.5)) <= tol * a + 1e-9 * s[0], lambda: "%ssigmaAdd%s is %r, the posterior median is %r" % (what, suf, a, point(s, cdf, 0.5)))
    lo, hi = a - m["dSigmaAddMinus" + suf], a + m["dSigmaAddPlus" + suf]
    e = 2e-6 * s[-1] * max(1, tol / 1e-6)
    check(point(s, cdf, 0.155) - e <= lo <= point(s, cdf, 0.163) + e, lambda: "%slower error of sigmaAdd%s reaches %r, 16 per cent point %r" % (what, suf, lo, point(s, cdf, 0.16)))
    check(point(s, cdf, 0.837) - e <= hi <= point(s, cdf, 0.845) + e, lambda: "%supper error of sigmaAdd%s reaches %r, 84 per cent point %r" % (what, suf, hi, point(s, cdf, 0.84)))
    return s, p, cdf, chi


gen = {"n": st.integers(2, 120), "err": st.sampled_from(["one", "flat", "vary", "dyn"]), "add": st.sampled_from([0.0, 0.3, 3.0, 30.0]), "amp": st.sampled_from([1e-6, 1.0, 1e4]), "off": st.sampled_from([0.0, 2.0]), "med": st.booleans(),
       "nan": st.sampled_from([0, 0, 1, 4]), "samp": st.sampled_from([1000, 1000, 100, 37]), "suf": st.sampled_from(["", "Q", "C"]), "seed": seeds}


@sub("scatter", st.fixed_dictionaries(gen), quick=500, thorough=30000,
     rule="noise of generated size, errors, offset, flags, sampling: posterior curve, median and error points against their definition, sign, scale and order changes; non-trivial when the posterior is resolved by its grid")
def scatter(c):
    r = np.random.RandomState(c["seed"])
    n = c["n"]
    dy = {"one": np.ones(n), "flat": np.full(n, 0.3), "vary": r.uniform(0.5, 2, n), "dyn": 10 ** r.uniform(-2, 1, n)}[c["err"]]
    y = dy * r.randn(n) + c["add"] * r.randn(n) + c["off"]
    y, dy = y * c["amp"], dy * c["amp"]
    k = r.choice(n, min(c["nan"], n - 2), replace=False)
    (y if r.rand() < 0.5 else dy)[k] = np.nan
    if len(k) and r.rand() < 0.3:
        y[k[0]] = np.inf
    good = np.isfinite(y) & np.isfinite(dy)
    if not np.isfinite(y[good]).all() or good.sum() < 2:
        skip("too few")
    if np.isinf(y).any():
        y[np.isinf(y)] = np.nan
    med = 0.0 if c["med"] else None
    x = np.arange(n) * 0.01
    keep = x.copy(), y.copy(), dy.copy()
    m, p = R.calc_sigma_add(x, y, dy, yMed=med, noise=1.0 if c["med"] else None, nSamp=c["samp"], suffix=c["suf"])
    for a, b in zip(keep, (x, y, dy)):
        check(np.array_equal(a, b, equal_nan=True), "input modified")
    used = 0.0 if c["med"] else np.median(y[good])
    s, q, cdf, chi = judge(m, c["suf"], y, dy, used, c["samp"])
    check(set(m) == {k + c["suf"] for k in ("sigmaAdd", "dSigmaAddMinus", "dSigmaAddPlus")}, "keys")
    S, P, X = (p[k + c["suf"]] for k in ("sigmaAddArr", "probArr", "chiSqRedArr"))
    check(np.allclose(S, s, rtol=1e-9), "grid of the additional scatter")
    check(np.allclose(P, q, rtol=1e-6, atol=1e-9 * q.max()), "posterior density")
    check(abs(P.sum() * (S[1] - S[0]) - 1) < 1e-9, "posterior is not normalised")
    check(np.allclose(X, chi, rtol=1e-9), "reduced chi-square curve")
    check(np.array_equal(p["xArr" + c["suf"]], x) and np.array_equal(p["yArr" + c["suf"]], y, equal_nan=True), "curves of the data")
    # sign, scale, order
    o = r.permutation(n)
    for f, yy, dd, mm in ((1.0, -y, dy, med), (1.0, y[o], dy[o], med), (7.5, 7.5 * y, 7.5 * dy, med)):
        m2, _ = R.calc_sigma_add(x, yy, dd, yMed=mm, noise=1.0 if c["med"] else None, nSamp=c["samp"], suffix=c["suf"])
        for k in m:
            check(abs(m2[k] - f * m[k]) <= 1e-6 * abs(f * s[-1]), lambda: "%s is %r, %r when the data are negated, permuted or scaled" % (k, m[k], m2[k]))
    return bool((cdf[1:] - cdf[:-1]).max() < 0.3)


@sub("recovery", st.fixed_dictionaries({"n": st.integers(60, 400), "add": st.sampled_from([0.0, 0.0, 3.0, 10.0, 100.0]), "err": st.sampled_from(["flat", "vary"]), "amp": st.sampled_from([1e-3, 1.0]), "seed": seeds}), quick=200, thorough=10000,
     rule="60-400 normal deviates of the stated size with or without injected scatter: the estimate within 6 sigma of the injected value; non-trivial with injected scatter")
def recovery(c):
    r = np.random.RandomState(c["seed"])
    n = c["n"]
    dy = np.ones(n) if c["err"] == "flat" else r.uniform(0.7, 1.4, n)
    y = dy * r.randn(n) + c["add"] * r.randn(n)
    m, _ = R.calc_sigma_add(np.arange(n), y * c["amp"], dy * c["amp"], yMed=0.0, noise=1.0)
    a = m["sigmaAdd"] / c["amp"]
    if c["add"] == 0:
        check(a < 1.4 * np.sqrt(6 * np.sqrt(2 / n)), lambda: "additional scatter %g for pure noise (%d channels)" % (a, n))
        return False
    sd = (c["add"] ** 2 + 1.1) / np.sqrt(2 * n) / c["add"]
    check(abs(a - c["add"]) < 6.5 * sd, lambda: "additional scatter %g, injected %g (%d channels)" % (a, c["add"], n))
    check(0.4 * sd < (m["dSigmaAddMinus"] + m["dSigmaAddPlus"]) / 2 / c["amp"] < 2.5 * sd, lambda: "error %g of the additional scatter, expected %g" % (m["dSigmaAddPlus"] / c["amp"], sd))
    return True


qu = {"freq": freq_cases(3, 60), "p": st.floats(0, 0.7), "psi": st.floats(0, 180), "turn": st.floats(-6, 6), "add": st.sampled_from([0.0, 2.0, 20.0]), "second": st.booleans(), "nan": st.sampled_from([0, 0, 2]), "seed": seeds}


@sub("residual", st.fixed_dictionaries(qu), quick=300, thorough=15000,
     rule="fractional spectra of one or two sources with flags against the thin model of given depth and angle: residuals and the three estimates; non-trivial when the spectrum has more than the thin source")
def residual(c):
    r = np.random.RandomState(c["seed"])
    f = freqs(c["freq"])
    n = len(f)
    l2 = l2_of(f)
    rm = c["turn"] * 3.8 / np.ptp(l2)
    mod = thin(l2, c["p"], c["psi"], rm)
    dq, du = 0.01 * r.uniform(0.5, 2, n), 0.01 * r.uniform(0.5, 2, n)
    q = mod.real + dq * r.randn(n) * (1 + c["add"])
    u = mod.imag + du * r.randn(n) * (1 + c["add"])
    if c["second"]:
        t = thin(l2, 0.3, 20, -2 * rm)
        q, u = q + t.real, u + t.imag
    for k in range(min(c["nan"], n - 2)):
        (q, u)[k % 2][r.randint(n)] = np.nan
    if np.isfinite(q).sum() < 2 or np.isfinite(u).sum() < 2:
        skip("too few")
    keep = [x.copy() for x in (f, q, u, dq, du)]
    m, p = R.measure_qu_complexity(f, q, u, dq, du, c["p"], c["psi"], rm)
    for a, b in zip(keep, (f, q, u, dq, du)):
        check(np.array_equal(a, b, equal_nan=True), "input modified")
    rq, ru = (q - mod.real) / dq, (u - mod.imag) / du
    one = np.ones(n)
    for suf, y in (("Q", rq), ("U", ru), ("C", np.r_[rq, ru])):
        check(np.allclose(p["yArr" + suf], y, rtol=1e-6, atol=1e-5, equal_nan=True), lambda: "residual%s is not the data minus the thin model over the error" % suf)
        check(np.allclose(p["xArr" + suf], l2 if suf != "C" else np.r_[l2, l2], rtol=1e-12), "wavelengths of the residuals")
        judge(m, suf, y, np.ones(len(y)), 0.0, tol=1e-5)
        P = p["probArr" + suf]
        check(abs(np.sum(P) * (p["sigmaAddArr" + suf][1] - p["sigmaAddArr" + suf][0]) - 1) < 1e-8, "posterior is not normalised")
    check(set(m) == {k + s for k in ("sigmaAdd", "dSigmaAddMinus", "dSigmaAddPlus") for s in "QUC"}, "keys")
    return bool(c["add"] or c["second"])


@sub("mom2", st.fixed_dictionaries({"n": st.integers(1, 200), "k": st.integers(1, 12), "full": st.booleans(), "cplx": st.sampled_from(["complex64", "complex128"]), "off": st.sampled_from([0.0, 100.0, -1e4]), "step": st.sampled_from([0.1, 3.0, 200.0]), "amp": st.sampled_from([1e-9, 1.0, 1e6]), "seed": seeds}), quick=800, thorough=40000,
     rule="second moment of sparse or full complex spectra against the weighted standard deviation, with shift, scale and rotation; non-trivial with more than one component")
def mom2(c):
    r = np.random.RandomState(c["seed"])
    n = c["n"]
    phi = c["off"] + c["step"] * (np.arange(n) - n // 2)
    F = (r.randn(n) + 1j * r.randn(n)) * c["amp"]
    if not c["full"]:
        k = np.ones(n, bool)
        k[r.choice(n, min(n, c["k"]), replace=False)] = False
        F[k] = 0
    F = F.astype(c["cplx"])
    phi = phi.astype("float32" if c["cplx"] == "complex64" else "float64")
    a = np.abs(F).astype(float)
    x = phi.astype(float)
    mean = (a * x).sum() / a.sum()
    sd = np.sqrt((a * (x - mean) ** 2).sum() / a.sum())
    got = R.measure_fdf_complexity(phi, F)
    eps = 1e-5 if c["cplx"] == "complex64" else 1e-10
    tol = eps * (np.ptp(x) + 0.1 * np.abs(x).max()) * 10
    check(abs(got - sd) <= tol, lambda: "second moment %r, weighted standard deviation %r" % (got, sd))
    check(abs(M.calc_mom2_FDF(F, phi) - sd) <= tol, "calc_mom2_FDF differs")
    if c["cplx"] == "complex128":
        check(abs(R.measure_fdf_complexity(phi + 5, F * 3j) - sd) <= tol * 2 + 1e-8, "second moment changes with position, amplitude or angle")
        check(abs(R.measure_fdf_complexity(phi * 2, F[::1]) - 2 * sd) <= tol * 4, "second moment does not scale with depth")
        check(abs(R.measure_fdf_complexity(phi[::-1], F[::-1]) - sd) <= tol, "second moment depends on the order")
    return int((a > 0).sum()) > 1


end = {"freq": freq_cases(10, 50, kinds=("lin", "gap", "desc")), "p": st.floats(0.1, 0.7), "psi": st.floats(0, 180), "turn": st.floats(-3, 3), "second": st.booleans(), "cols": st.sampled_from([5, 7]), "nan": st.sampled_from([0, 0, 2]), "bits": st.sampled_from([32, 64]), "seed": seeds}


@sub("end_to_end", st.fixed_dictionaries(end), quick=120, thorough=6000,
     rule="values in the 1D RM-synthesis and RM-CLEAN dictionaries against the definitions applied to the fractional spectra and components, with the reported depth, angle and fraction; non-trivial with two sources")
def end_to_end(c):
    r = np.random.RandomState(c["seed"])
    f = freqs(c["freq"])
    n = len(f)
    l2 = l2_of(f)
    fw = 3.8 / np.ptp(l2)
    q = thin(l2, c["p"], c["psi"], c["turn"] * fw)
    if c["second"]:
        q = q + thin(l2, c["p"] * 0.6, 77, -c["turn"] * fw)
    I = np.ones(n) if c["cols"] == 5 else 5 * (f / f.mean()) ** -0.7
    dQ, dU = (0.01 * r.uniform(0.7, 1.4, n) * I for _ in "QU")
    Q, U = I * q.real + dQ * r.randn(n), I * q.imag + dU * r.randn(n)
    for k in range(c["nan"]):
        (Q, U)[k % 2][r.randint(n)] = np.nan
    cols = [f, Q, U, dQ, dU] if c["cols"] == 5 else [f, I, Q, U, 0.001 * I, dQ, dU]
    mod = None if c["cols"] == 5 else I
    m, a = S1.run_rmsynth([x.copy() for x in cols], polyOrd=2, phiMax_radm2=6 * fw, dPhi_radm2=fw / 10, nBits=c["bits"], modStokesI=mod)
    fit = thin(l2, m["fracPol"], m["polAngle0Fit_deg"], m["phiPeakPIfit_rm2"])
    y = (Q / I - fit.real) / (dQ / I), (U / I - fit.imag) / (dU / I)
    for suf, z in (("Q", y[0]), ("U", y[1]), ("C", np.r_[y])):
        judge(m, suf, np.ravel(z), np.ones(np.size(z)), 0.0, tol=2e-3 if c["bits"] == 32 else 1e-5, what="result dictionary: ")
    mc, ac = C1.run_rmclean(m, a, cutoff=-4.0, maxIter=300, gain=0.1, nBits=c["bits"])
    w = np.abs(ac["ccArr"]).astype(float)
    if w.sum() > 0:
        x = a["phiArr_radm2"].astype(float)
        sd = np.sqrt((w * (x - (w * x).sum() / w.sum()) ** 2).sum() / w.sum())
        check(abs(mc["mom2CCFDF"] - sd) <= 1e-4 * np.abs(x).max(), lambda: "mom2CCFDF %r, of the components %r" % (mc["mom2CCFDF"], sd))
    return c["second"]
