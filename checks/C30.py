"""C30: quoted noise levels and errors are the propagated scatter of the data.

Technique: property-based testing with an exact error-propagation oracle: the response of the whole tool to a unit change of Q or U in each channel is measured by running the tool, the channel errors are propagated through those responses, and the result is compared with the noise and the errors the tool quotes
Assurance: exploration of generated inputs; no proof. The oracle uses only the tool's outputs and the declared channel errors, not its formulas.
"""
import numpy as np
from hypothesis import strategies as st

from vlib.gen import freq_cases, freqs, l2_of, seeds, thin
from vlib.harness import check, skip, sub

ASSUMPTIONS = ["Q and U of a channel have equal, independent errors", "the Stokes I spectrum has no error (the tools document that they neglect it)"]


def spectrum(c, r):
    f = freqs(c["freq"])
    n = len(f)
    l2 = l2_of(f)
    S = c["S"]
    I = S * (f / f.mean()) ** c["alpha"] if c["I"] else np.ones(n)
    d = 0.02 * (S if c["I"] else 1.0) * {"flat": np.ones(n), "rand": r.uniform(0.4, 2, n), "steep": (f / f.mean()) ** -1.5}[c["err"]]
    bad = r.rand(n) < c["bad"]
    if (~bad).sum() < 6:
        bad[:] = False
    return f, l2, I, d, bad


noise_case = {
    "freq": freq_cases(8, 28, ("lin", "gap", "jit", "desc")), "I": st.booleans(), "alpha": st.sampled_from([0.0, -0.8, 1.0, -2.5]), "S": st.sampled_from([1e-3, 1.0, 50.0]),
    "err": st.sampled_from(["flat", "rand", "steep"]), "bad": st.sampled_from([0.0, 0.0, 0.2]), "w": st.sampled_from(["variance", "uniform"]), "bits": st.sampled_from([32, 64]), "seed": seeds,
}


@sub("noise", st.fixed_dictionaries({**noise_case, "fun": st.sampled_from(["log", "linear"]), "model": st.sampled_from([False, False, True]), "super": st.sampled_from([False, False, True]), "neg": st.sampled_from([False, False, True])}), quick=60, thorough=3000,
     rule="theoretical FDF noise of 1D RM synthesis, for both weightings, spectral indices, error spectra, flags, Stokes I layouts and super-resolution, against channel errors propagated through the measured linear response; non-trivial when the error or Stokes I spectrum is not flat")
def noise(c):
    from RMtools_1D.do_RMsynth_1D import run_rmsynth

    r = np.random.RandomState(c["seed"])
    f, l2, I, d, bad = spectrum(c, r)
    n = len(f)
    if c["neg"] and c["I"] and (c["model"] or c["fun"] == "linear"):  # (sources seen in absorption, sidelobes)
        I = -I
    fw = 3.8 / np.ptp(l2)
    kw = dict(weightType=c["w"], nBits=c["bits"], phiMax_radm2=2 * fw, dPhi_radm2=fw / 2, polyOrd=2, fit_function=c["fun"])
    if c["super"]:
        kw["super_resolution"] = True
        kw["phiMax_radm2"], kw["dPhi_radm2"] = 4 * fw, fw
    if c["I"] and c["model"]:
        kw["modStokesI"] = I

    def go(P):
        P = np.where(bad, np.nan, P)
        data = [f, I, P.real, P.imag, 1e-3 * np.abs(I), d, d] if c["I"] else [f, P.real, P.imag, d, d]
        return run_rmsynth([np.array(x) for x in data], **kw)

    base = np.ones(n, complex) * 0.1 * np.abs(I)
    m, a = go(base)
    F0 = a["dirtyFDF"]
    var = 0.0
    for i in np.flatnonzero(~bad):
        P = base.copy()
        P[i] += 10 * I[i]
        t = (go(P)[1]["dirtyFDF"] - F0) / (10 * I[i])
        var = var + np.abs(t) ** 2 * d[i] ** 2
    s = np.sqrt(var)
    check(np.allclose(s, m["dFDFth"], rtol=2e-3), lambda: "quoted noise %.6g; propagated noise %.6g to %.6g (weights %s)" % (m["dFDFth"], s.min(), s.max(), c["w"]))
    if m["snrPIfit"] is not None and np.isfinite(m["snrPIfit"]):
        check(abs(m["dAmpPeakPIfit"] - s[0]) <= 2e-3 * s[0], lambda: "error of the amplitude %.6g, propagated %.6g" % (m["dAmpPeakPIfit"], s[0]))
    return c["err"] != "flat" or (c["I"] and c["alpha"] != 0)


@sub("bwdepol", st.fixed_dictionaries({**noise_case, "width": st.sampled_from(["spacing", "vary"]), "x": st.floats(-0.6, 0.6)}), quick=30, thorough=1200,
     rule="error of the amplitude quoted by adjoint RM synthesis against channel errors propagated through the measured linear response at the peak; non-trivial when the error or Stokes I spectrum is not flat")
def bwdepol(c):
    from RMtools_1D.rmtools_bwdepol import run_adjoint_rmsynth

    r = np.random.RandomState(c["seed"])
    f, l2, I, d, bad = spectrum(c, r)
    n = len(f)
    fw = 2 * np.sqrt(3) / np.ptp(l2)
    W = np.full(n, np.abs(np.diff(f)).min()) * (r.uniform(0.3, 1, n) if c["width"] == "vary" else 1)
    kw = dict(weightType=c["w"], nBits=c["bits"], phiMax_radm2=3 * fw, dPhi_radm2=fw / 3, polyOrd=2)

    def go(P):
        P = np.where(bad, np.nan, P)
        data = [f, W, I, P.real, P.imag, 1e-3 * I, d, d] if c["I"] else [f, W, P.real, P.imag, d, d]
        return run_adjoint_rmsynth(np.array(data), **kw)

    base = thin(l2, 0.5, 30, c["x"] * 3 * fw) * I
    m, a = go(base)
    F0 = a["dirtyFDF"]
    k = np.argmin(np.abs(a["phiArr_radm2"] - m["phiPeakPIfit_rm2"]))
    var = 0.0
    for i in np.flatnonzero(~bad):
        P = base.copy()
        P[i] += 10 * I[i]
        t = (go(P)[1]["dirtyFDF"] - F0) / (10 * I[i])
        var = var + np.abs(t) ** 2 * d[i] ** 2
    s = np.sqrt(var)
    lo, hi = s[max(0, k - 1) : k + 2].min(), s[max(0, k - 1) : k + 2].max()
    e = m["dAmpPeakPIfit"]
    check(lo * (1 - 2e-3) <= e <= hi * (1 + 2e-3), lambda: "error of the amplitude %.6g; propagated %.6g to %.6g (weights %s)" % (e, lo, hi, c["w"]))
    snr = m["ampPeakPIfit"] / e
    check(abs(m["snrPIfit"] / snr - 1) <= 0.02, lambda: "S/N %g, amplitude over its error %g" % (m["snrPIfit"], snr))
    return c["err"] != "flat" or (c["I"] and c["alpha"] != 0)


@sub("errors", st.fixed_dictionaries({"n": st.integers(16, 40), "f0": st.sampled_from([150.0, 400.0, 900.0, 2500.0]), "frac": st.sampled_from([0.03, 0.1, 0.25]), "x": st.floats(-4, 4), "psi": st.floats(0, 180), "snr": st.sampled_from([60.0, 300.0]),
                                      "I": st.booleans(), "S": st.sampled_from([1e-2, 5.0]), "bad": st.sampled_from([0.0, 0.2]), "w": st.sampled_from(["variance", "uniform"]), "os": st.sampled_from([4.3, 9.3]), "seed": seeds}), quick=30, thorough=1500,
     rule="errors of depth, amplitude and both angles quoted for a bright point source in evenly spaced channels against channel errors propagated through finite differences of the reported values; non-trivial when a channel is flagged or the source is off zero depth")
def errors(c):
    from RMtools_1D.do_RMsynth_1D import run_rmsynth

    r = np.random.RandomState(c["seed"])
    n = c["n"]
    f = c["f0"] * 1e6 * (1 + c["frac"] * np.arange(n) / n)
    l2 = l2_of(f)
    fw = 3.8 / np.ptp(l2)
    I = np.full(n, c["S"]) if c["I"] else np.ones(n)
    bad = np.zeros(n, bool)
    if c["bad"]:
        bad[r.choice(np.arange(1, n - 1), int(c["bad"] * n), replace=False)] = True
    good = ~bad
    d = I * np.sqrt(good.sum()) / c["snr"]
    P0 = thin(l2, 1.0, c["psi"], c["x"] * fw) * I
    P0 = np.where(bad, np.nan, P0)
    kw = dict(weightType=c["w"], nBits=64, phiMax_radm2=6 * fw, dPhi_radm2=fw / c["os"], polyOrd=1)

    def go(P):
        data = [f, I, P.real, P.imag, 1e-3 * I, d, d] if c["I"] else [f, P.real, P.imag, d, d]
        m = run_rmsynth([np.array(x) for x in data], **kw)[0]
        return np.array([m["phiPeakPIfit_rm2"], m["ampPeakPIfit"], m["polAngleFit_deg"], m["polAngle0Fit_deg"]]), m

    v0, m = go(P0)
    h = 0.02
    var = np.zeros(4)
    for i in np.flatnonzero(good):
        for u in (1, 1j):
            P = P0.copy()
            P[i] += u * h * d[i]
            dv = go(P)[0] - v0
            dv[2:] = (dv[2:] + 90) % 180 - 90
            var += (dv / h) ** 2
    s = np.sqrt(var)
    for k, a, lo, hi in (("dPhiPeakPIfit_rm2", s[0], 0.85, 1.35), ("dAmpPeakPIfit", s[1], 0.95, 1.05), ("dPolAngleFit_deg", s[2], 0.9, 1.1), ("dPolAngle0Fit_deg", s[3], 0.85, 1.25)):
        check(lo <= m[k] / a <= hi, lambda: "%s = %g; the channel errors propagate to %g" % (k, m[k], a))
    return c["bad"] > 0 or abs(c["x"]) > 0.5
