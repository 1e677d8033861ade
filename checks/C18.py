"""C18: QU-fitting likelihood, statistics and recovery are self-consistent.

Technique: property-based testing of the likelihood against a chi-square reference, of the whole fitting procedure with a stand-in sampler that returns generated posteriors (angle wrap, flags, statistics, files), and of real nested-sampling fits of simulated sources
Assurance: exploration of generated inputs; the sampler itself (bilby) is trusted, real fits use the nestle sampler, the only one of bilby's that works in this environment
"""
import json
import os
import tempfile

import bilby
import numpy as np
from hypothesis import strategies as st

from vlib.gen import freq_cases, freqs, l2_of, seeds, wider
from vlib.harness import Violation, check, skip, sub
from vlib.qulib import MODELS, PAR, FakeSampler, chi2, flag, holding, load, load0, spectra, truth

from RMtools_1D import do_QUfit_1D_mnest as Q
from RMutils.util_misc import create_frac_spectra

import logging

logging.getLogger("bilby").setLevel(logging.ERROR)
WORKERS = {"quick": 8}
ASSUMPTIONS = ["degrees of freedom are (unflagged data) - (free parameters) - 1, as the tool defines them", "reported values are posterior medians, the chi-square is that of the reported values, the information criteria use the best likelihood"]


@sub("likelihood", st.fixed_dictionaries({"m": st.sampled_from(MODELS), "freq": freq_cases(6, 40), "flag": st.sampled_from(["none", "q", "u", "qu", "mixed"]), "scale": st.sampled_from([1e-3, 0.02, 0.5]), "seed": seeds}), quick=600, thorough=20000,
     rule="the tool's log-likelihood at pairs of parameter sets against the chi-square over unflagged channels, and its chi-square function, for every model and NaN pattern; independent of channel order; non-trivial when the two chi-squares differ")
def likelihood(c):
    r = np.random.RandomState(c["seed"])
    l2 = l2_of(freqs(c["freq"]))
    n = len(l2)
    dq, du = c["scale"] * (0.5 + r.rand(n)), c["scale"] * (0.5 + r.rand(n))
    wide = 3.8 / np.ptp(l2)
    mod = load(c["m"]).model
    A, B = truth(c["m"], r, wide), truth(c["m"], r, wide)
    p = mod(A, l2)
    q, u = p.real + dq * r.randn(n), p.imag + du * r.randn(n)
    fq, fu = flag(c["flag"], q, u, dq, du, r)
    Q.load_model = load
    try:
        def ll(d, s):
            L = Q.lnlike_call(PAR[c["m"]], l2[s], q[s], dq[s], u[s], du[s], c["m"])
            L.parameters.update(d)
            return float(L.log_likelihood())

        s0, s1 = np.arange(n), r.permutation(n)
        a, b, a1 = ll(A, s0), ll(B, s0), ll(A, s1)
    finally:
        Q.load_model = load0
    ca, cb = (chi2(q, dq, u, du, mod(d, l2)) for d in (A, B))
    check(np.isfinite(a) and np.isfinite(b), "the log-likelihood is not finite")
    t = 1e-9 * (ca + cb + abs(a)) + 1e-6
    check(abs((a - b) + (ca - cb) / 2) <= t, lambda: "log-likelihoods differ by %.8g, minus half the chi-squares by %.8g" % (a - b, -(ca - cb) / 2))
    check(abs(a - a1) <= t, "the log-likelihood depends on the order of channels")
    names = PAR[c["m"]]
    for d, x in ((A, ca), (B, cb)):
        y = Q.chisq_model(names, [d[k] for k in names], l2, q, dq, u, du, mod)
        check(abs(y - x) <= 1e-9 * x + 1e-9, lambda: "chi-square %.8g, over the unflagged channels it is %.8g" % (y, x))
    return abs(ca - cb) > 1e-3


def fit(c, data, pre, sampler=None, nlive=60, mod=None):
    import matplotlib.figure
    import matplotlib.pyplot as plt

    keep = (bilby.run_sampler, bilby.core.result.Result.plot_corner, matplotlib.figure.Figure.savefig, Q.load_model, Q.plot_Ipqu_spectra_fig)
    bilby.core.result.Result.plot_corner = lambda self, *a, **k: plt.figure()
    matplotlib.figure.Figure.savefig = lambda *a, **k: None
    Q.load_model = lambda k, verbose=False: mod or load(k)
    Q.plot_Ipqu_spectra_fig = lambda *a, **k: None
    run = keep[0]
    bilby.run_sampler = sampler if sampler else (lambda **k: run(**dict(k, plot=False)))
    try:
        Q.run_qufit([x.copy() for x in data], c["m"], sampler="nestle", nlive=nlive, prefixOut=pre, noStokesI=c["cols"] == 5)
    finally:
        bilby.run_sampler, bilby.core.result.Result.plot_corner, matplotlib.figure.Figure.savefig, Q.load_model, Q.plot_Ipqu_spectra_fig = keep
    j = json.load(open(pre + "_m%d_nestle.json" % c["m"]))
    d = {}
    for line in open(pre + "_m%d_nestle.dat" % c["m"]):
        k, v = line.rstrip("\n").split("=", 1)
        d[k] = v
    check(set(d) == set(j), "the .dat and .json files have different keys")
    for k in j:
        v = j[k]
        w = d[k]
        if isinstance(v, list):
            w = eval(w, {"__builtins__": {}}, {"nan": np.nan, "inf": np.inf, "np": np})
            ok = str(w) == str(v) or (len(w) == len(v) and all(str(a) == str(b) or (np.shape(a) == np.shape(b) and np.array_equal(a, b)) for a, b in zip(w, v)))
        elif isinstance(v, str):
            ok = w == v
        else:
            ok = float(w) == v or (v != v and w == "nan")
        check(ok, lambda: "%s is %r in the .dat and %r in the .json file" % (k, d[k], v))
    return j


def stats(c, j, data, best, fixed=()):
    Q.load_model = load0
    I = data[1] if c["cols"] == 7 else np.ones_like(data[1])
    dI = data[4] if c["cols"] == 7 else np.zeros_like(data[1])
    Qa, Ua, dQ, dU = (data[2], data[3], data[5], data[6]) if c["cols"] == 7 else data[1:]
    Im, q, u, dq, du, fr = create_frac_spectra(data[0], I, Qa, Ua, dI, dQ, dU, 2, fit_function="log")
    l2 = l2_of(data[0])
    names = j["parNames"]
    check(sorted(names) == sorted(PAR[c["m"]]) and len(j["values"]) == len(j["errPlus"]) == len(j["errMinus"]) == len(names) == len(j["bounds"]), lambda: "parameters reported: %s" % names)
    v = dict(zip(names, j["values"]))
    x = chi2(q, dq, u, du, load(c["m"]).model(v, l2))
    N = int(np.isfinite(q).sum() + np.isfinite(u).sum())
    k = len(names) - len(fixed)

    def near(key, want, tol=1e-6):
        check(abs(j[key] - want) <= tol * max(abs(want), 1), lambda: "%s is %.8g, by definition %.8g" % (key, j[key], want))

    near("chiSq", x)
    near("dof", N - k - 1)
    near("chiSqRed", x / (N - k - 1))
    near("nFree", k)
    if best is None:
        best = (2 * k - j["AIC"]) / 2
    near("AIC", 2 * k - 2 * best)
    near("AICc", 2 * k - 2 * best + 2 * k * (k + 1) / (N - k - 1))
    near("BIC", k * np.log(N) - 2 * best)
    for i, nm in enumerate(names):
        lo, hi = j["bounds"][i]
        if nm.startswith("psi"):
            check(0 <= j["values"][i] < 180, lambda: "%s = %r is not in [0, 180)" % (nm, j["values"][i]))
        check(j["errPlus"][i] >= 0 and j["errMinus"][i] >= 0, "negative uncertainty")
    # the Stokes I model in the results, evaluated as documented, is the one the spectra were divided by
    p = [float(x) for x in j["Imodel"].split(",")]
    x = data[0] / j["Ifitfreq0"]
    if c["cols"] == 7:
        lg = np.log10(x)
        I2 = 10 ** sum(a * lg**n for n, a in enumerate(p[4::-1], 1)) * p[5]
        check(np.allclose(I2, Im, rtol=2e-6 * (1 + 10 * np.abs(p).max())), lambda: "the reported Stokes I model is off by a factor of up to %.8g" % np.max(np.abs(I2 / Im)))
        near("IfitChiSq", fr.chiSq)
        near("IfitChiSqRed", fr.chiSqRed)
        near("IfitPolyOrd", 2)
        e = [float(x) for x in j["Imodel_errs"].split(",")]
        check(np.allclose(e, fr.perror, rtol=1e-5), "reported errors of the Stokes I model")
    return l2


@sub("statistics", st.fixed_dictionaries({"m": st.sampled_from([1, 2, 5, 11, 111]), "freq": freq_cases(14, 40, kinds=("lin", "gap", "jit")), "flag": st.sampled_from(["none", "q", "u", "qu", "mixed"]), "cols": st.sampled_from([5, 7]), "wid": st.sampled_from([0.01, 1.0, 8.0]), "n": st.sampled_from([51, 100, 101, 200]), "fix": st.sampled_from([0, 0, 1, 2]), "seed": seeds}), quick=250, thorough=8000,
     rule="the fitting procedure with a stand-in sampler returning generated posteriors: medians, uncertainties, angles (around the 0/180 wrap too), chi-square, degrees of freedom, AIC, AICc, BIC and both result files; non-trivial when an angle posterior wraps or channels are flagged")
def statistics(c):
    r = np.random.RandomState(c["seed"])
    wide = 3.8 / np.ptp(l2_of(freqs(c["freq"])))
    tr = truth(c["m"], r, wide)
    f, l2, data = spectra(c, r, tr, 0.02)
    w = {k: (0.003 if k.startswith("frac") else c["wid"] if k.startswith("psi") else 0.01 * wide) for k in tr}
    s = FakeSampler(tr, w, c["n"], r)
    with tempfile.TemporaryDirectory() as t:
        fixed = list(r.permutation(PAR[c["m"]])[: c["fix"]])
        j = fit(c, data, os.path.join(t, "src"), sampler=s, mod=holding(c["m"], fixed, tr) if fixed else None)
    stats(c, j, data, s.L.max(), fixed)
    for k in fixed:
        i = j["parNames"].index(k)
        check(abs(j["values"][i] - tr[k]) <= 1e-9 * abs(tr[k]) and j["errPlus"][i] == j["errMinus"][i] == 0, lambda: "%s, held at %.6g, is reported as %.6g +%.3g -%.3g" % (k, tr[k], j["values"][i], j["errPlus"][i], j["errMinus"][i]))
    wrapped = False
    for i, k in enumerate(s.keys):
        x = s.S[:, i]
        if k.startswith("psi"):
            x = (x - tr[k] + 90) % 180 - 90
            wrapped |= np.ptp(s.S[:, i]) > 90
        a, m, b = np.quantile(x, [0.16, 0.5, 0.84])
        g = j["values"][j["parNames"].index(k)]
        if k.startswith("psi"):
            d = (g - m - tr[k] + 90) % 180 - 90
            g, m = d, 0.0
            b, a = b - np.quantile(x, 0.5), a - np.quantile(x, 0.5)
        else:
            b, a = b - m, a - m
        i2 = j["parNames"].index(k)
        check(abs(g - m) <= 1e-6 * max(abs(m), 1e-3) + 1e-7 * (180 if k.startswith("psi") else 1), lambda: "%s is reported %.6g away from the median of its posterior (true value %.6g, width %.3g)" % (k, g - m, tr[k], w[k]))
        check(abs(j["errPlus"][i2] - b) <= 1e-6 * b + 1e-7 and abs(j["errMinus"][i2] + a) <= 1e-6 * abs(a) + 1e-7, lambda: "uncertainties of %s are (+%.6g -%.6g), the 16/84 per cent points are (+%.6g %.6g)" % (k, j["errPlus"][i2], j["errMinus"][i2], b, a))
    check(abs(j["ln(EVIDENCE) "] + 12.5) < 1e-9 and abs(j["dLn(EVIDENCE)"] - 0.25) < 1e-9, "evidence")
    return wrapped or c["flag"] != "none"


@sub("recovery", st.fixed_dictionaries({"m": st.sampled_from([1, 1, 2]), "freq": st.fixed_dictionaries({"kind": st.sampled_from(["lin", "gap", "jit"]), "n": st.integers(16, 24), "f0": st.sampled_from([1100.0, 1400.0, 2000.0]), "frac": st.sampled_from([0.3, 0.7]), "seed": seeds}), "flag": st.sampled_from(["none", "qu", "mixed"]), "cols": st.sampled_from([5, 7]), "fix": st.sampled_from([None, None, "fracPol", "psi0_deg"]), "seed": seeds}), quick=16, thorough=400, min_shard=2, timeout=280,
     rule="real nested-sampling fits (nestle, 60 live points, more when that fails) of noisy simulated sources: parameters recovered within 6 quoted uncertainties, statistics by definition; non-trivial always")
def recovery(c):
    for nlive in (60, 250, 600):
        try:
            return recover(c, nlive)
        except Violation:
            if nlive == 600:  # with few points nested sampling can miss a narrow mode altogether
                raise


def recover(c, nlive):
    np.random.seed(c["seed"] % 2**31)
    r = np.random.RandomState(c["seed"])
    l2 = l2_of(freqs(c["freq"]))
    wide = 3.8 / np.ptp(l2)
    tr = truth(c["m"], r, min(wide, 900))
    tr["fracPol"] = r.uniform(0.2, 0.5)
    for k in tr:
        if k in ("sigmaRM_radm2", "deltaRM_radm2"):
            tr[k] = min(r.uniform(0.1, 0.5) / l2.max(), 60)
    f, l2, data = spectra(c, r, tr, 0.01)
    fixed = [c["fix"]] if c["fix"] else []
    with tempfile.TemporaryDirectory() as t:
        try:
            j = fit(c, data, os.path.join(t, "src"), nlive=nlive, mod=holding(c["m"], fixed, tr) if fixed else None)
        except SystemExit as e:
            if e.code == 130:  # bilby answers the alarm of the harness with an exit
                skip("the sampler did not finish in time")
            raise
    stats(c, j, data, None, fixed)
    v = dict(zip(j["parNames"], j["values"]))
    # grating lobes inside the prior can be as good as the true depth: judge only unambiguous ones
    mod = load(c["m"]).model
    g = dict(tr)
    x0 = np.abs(mod(tr, l2))
    n = 0
    for a in np.linspace(-1100, 1100, 4001):
        if abs(a - tr["RM_radm2"]) < wide:
            continue
        ph = np.exp(2j * (a - tr["RM_radm2"]) * l2)
        n = max(n, abs((x0 ** 2 * ph).sum()) / (x0 ** 2).sum())
    if n > 0.95:
        skip("ambiguous spectrum")
    for i, k in enumerate(j["parNames"]):
        e = v[k] - tr[k]
        if k.startswith("psi"):
            e = (e + 90) % 180 - 90
        s = j["errPlus"][i] if e < 0 else j["errMinus"][i]
        if k in ("sigmaRM_radm2", "deltaRM_radm2"):
            s = max(s, j["errPlus"][i], 0.05 / l2.max())
        s = max(s, 0.5 * (j["errPlus"][i] + j["errMinus"][i]))
        check(abs(e) <= 7 * s + 1e-3, lambda: "%s fitted as %.5g +%.3g -%.3g, the source has %.5g" % (k, v[k], j["errPlus"][i], j["errMinus"][i], tr[k]))
    check(j["chiSqRed"] < 2.6, lambda: "reduced chi-square of the fit is %.3g" % j["chiSqRed"])
    return True


# the same at the size of survey data
sub("likelihood_large", wider(st.fixed_dictionaries({"m": st.sampled_from(MODELS), "flag": st.sampled_from(["none", "q", "u", "qu", "mixed"]), "scale": st.sampled_from([1e-3, 0.02, 0.5]), "seed": seeds}), freq=freq_cases(100, 500)), quick=72, thorough=300, min_shard=2,
    rule="as likelihood, with hundreds of channels; non-trivial as there")(likelihood)
