"""C08: peak measurements follow their published formulas.

Technique: property-based testing of measure_FDF_parms (and of the tools that call it) against an independent implementation of the published formulas, on generated spectra including edge peaks and blank spectra
Assurance: exploration of generated inputs; no proof
"""
import numpy as np
from hypothesis import strategies as st

from vlib import ref
from vlib.gen import freq_cases, freqs, l2_of, seeds, thin, wider
from vlib.harness import check, fail, skip, sub

from RMutils.util_RM import measure_FDF_parms

ASSUMPTIONS = ["Faraday depths increase along the array, as in every grid the tools make", "at least three usable channels (the derotated-angle error divides by N-2)"]

PEAK = ["phiPeakPIfit_rm2", "dPhiPeakPIfit_rm2", "ampPeakPIfit", "ampPeakPIfitEff", "snrPIfit", "polAngleFit_deg", "dPolAngleFit_deg", "polAngle0Fit_deg", "dPolAngle0Fit_deg"]


def adiff(a, b, period=180.0):
    return (a - b + period / 2) % period - period / 2


def verify(m, F, phi, fw, dF, l2, l20, thr, leps=1e-14):
    """Compare a measurement dictionary with the formulas.  Returns True if there was a peak to fit."""
    F = np.asarray(F)
    eps = 3e-7 if F.dtype == np.complex64 else 1e-14
    A = np.abs(F).astype(float)
    phi = np.asarray(phi, float)
    i = int(np.nanargmax(A[1:-1])) + 1
    o = np.delete(A[1:-1], i - 1)
    if len(o) and o.max() > A[i] * (1 - 4 * eps):
        skip("two samples tie for the maximum")
    # noise in the spectrum away from the peak
    w = int(np.ceil(fw / np.diff(phi).min()))
    cands = []
    for hi in (0, 1):
        for ww in (w - 1, w, w + 1):  # rounding of the width in channels
            mk = np.ones(len(F), bool)
            mk[max(0, i - 2 * ww): i + 2 * ww + hi] = False
            G = F[mk]
            if abs(len(G) / len(F) - 0.3) < 1e-9:
                cands += [ref.mad_std(np.r_[F.real, F.imag]), ref.mad_std(np.r_[G.real, G.imag])]
            else:
                G = F if len(G) / len(F) < 0.3 else G
                cands.append(ref.mad_std(np.r_[G.real, G.imag]))
    nz = m["dFDFcorMAD"]
    check(min(abs(nz - x) for x in cands) <= 1e-4 * max(cands) + 1e-30, lambda: "dFDFcorMAD is %g; the median absolute deviation away from the peak is %s" % (nz, cands))
    if dF is None:
        dF = nz
    check(abs(m["dAmpPeakPIfit"] - dF) <= 1e-5 * abs(dF), "the error on the amplitude is not the FDF noise")
    h0, h1 = phi[i] - phi[i - 1], phi[i + 1] - phi[i]
    curv = ((A[i] - A[i - 1]) / h0 - (A[i + 1] - A[i]) / h1) * 0.5 * (h0 + h1) / A[i]
    if abs(curv) < 50 * eps:
        skip("flat top")
    x, y = ref.parabola_vertex(phi[i - 1:i + 2], A[i - 1:i + 2])
    d = phi[i + 1] - phi[i - 1]
    tx = d * (1e-6 + 4 * eps / abs(curv)) + 1e-6 * np.abs(phi).max() * (F.dtype == np.complex64)
    if max(abs(x - phi.max()), abs(x - phi.min())) and min(abs(x - phi.max()), abs(x - phi.min())) < 4 * tx:
        skip("vertex on the very edge")
    if curv < 0 and y > 0.999 * A[i]:
        skip("almost flat")
    nopeak = curv < 0 or x > phi.max() or x < phi.min()
    if nopeak:
        for k in PEAK:
            check(m[k] is None or np.isnan(m[k]), lambda: "the highest interior sample is not a peak (edge), yet %s = %g is reported" % (k, m[k]))
        return False
    check(abs(m["phiPeakPIfit_rm2"] - x) <= tx, lambda: "peak depth %.9g, vertex of the parabola at %.9g" % (m["phiPeakPIfit_rm2"], x))
    check(abs(m["ampPeakPIfit"] - y) <= (1e-6 + 20 * eps + tx / d * 0.5 * abs(curv)) * y, lambda: "peak amplitude %.9g, vertex of the parabola %.9g" % (m["ampPeakPIfit"], y))
    snr = y / dF
    R = 1e-5 + 40 * eps
    check(abs(m["snrPIfit"] - snr) <= R * snr, lambda: "S/N %g, amplitude over noise %g" % (m["snrPIfit"], snr))
    if abs(snr - thr) > 10 * R * thr:
        e = np.sqrt(y * y - 2.3 * dF * dF) if snr >= thr else y
        if snr >= thr and y * y < 2.31 * dF * dF:
            skip("bias larger than the amplitude")
        check(abs(m["ampPeakPIfitEff"] - e) <= R * 30 * y, lambda: "bias-corrected amplitude %.8g, formula %.8g (S/N %g, threshold %g)" % (m["ampPeakPIfitEff"], e, snr, thr))
    check(abs(m["dPhiPeakPIfit_rm2"] - fw * dF / (2 * y)) <= R * fw * dF / y, "error on the depth is not width/(2 S/N)")
    fx = m["phiPeakPIfit_rm2"]
    re, im = np.interp(fx, phi, F.real), np.interp(fx, phi, F.imag)
    mod = np.hypot(re, im)
    if mod > 1e-3 * y:
        at = np.degrees(0.5 * (50 * eps + 2 * tx / d) * y / mod) + 1e-5
        ang = np.degrees(0.5 * np.arctan2(im, re))
        check(abs(adiff(m["polAngleFit_deg"], ang)) <= at, lambda: "angle %.8g, half the argument at the peak %.8g" % (m["polAngleFit_deg"], ang % 180))
    check(0 <= m["polAngleFit_deg"] < 180 and 0 <= m["polAngle0Fit_deg"] < 180, "angle outside [0,180)")
    a0 = m["polAngleFit_deg"] - np.degrees(fx * l20)
    check(abs(adiff(m["polAngle0Fit_deg"], a0)) <= 1e-4 + (1e-5 if F.dtype == np.complex64 else 1e-12) * abs(np.degrees(fx * l20)), lambda: "derotated angle %.8g, expected %.8g" % (m["polAngle0Fit_deg"], a0 % 180))
    da = np.degrees(dF / (2 * y))
    check(abs(m["dPolAngleFit_deg"] - da) <= R * da, lambda: "angle error %g, formula %g" % (m["dPolAngleFit_deg"], da))
    l2 = np.asarray(l2, float)
    N = len(l2)
    if N > 2:
        var = np.var(l2, ddof=1)
        d0 = np.degrees(0.5 * dF / y * np.sqrt(N / (N - 2.0) * ((N - 1.0) / N + l20**2 / var)))
        cond = (l2**2).sum() / N / var  # cancellation in the textbook variance formula
        check(abs(m["dPolAngle0Fit_deg"] - d0) <= (R + leps * cond) * d0, lambda: "derotated angle error %.8g, formula %.8g" % (m["dPolAngle0Fit_deg"], d0))
    check(abs(m["indxPeakPIfit"] - np.interp(fx, phi, np.arange(len(phi)))) <= 1e-3, "peak index")
    check(abs(m["peakFDFrealFit"] - re) <= 1e-4 * y and abs(m["peakFDFimagFit"] - im) <= 1e-4 * y, "interpolated real/imaginary values at the peak")
    return True


parms = st.fixed_dictionaries({
    "n": st.integers(5, 200), "grid": st.sampled_from(["sym", "pos", "neg", "off", "irr"]), "d": st.sampled_from([0.5, 3.0, 100.0]),
    "shape": st.sampled_from(["lobe", "lobe", "noise", "edge", "mono", "edge2"]), "dt": st.sampled_from(["c8", "c16"]),
    "scale": st.sampled_from([1.0, 1e-6, 1e5]), "fw": st.sampled_from([2.0, 5.0, 30.0]), "l0": st.sampled_from([0.0, 0.01, 0.7, 5.0]),
    "nch": st.integers(3, 300), "noise": st.sampled_from([None, 1e-3, 0.15, 0.19, 0.21, 0.5, 3.0]), "thr": st.sampled_from([None, 0.0, 3.0, 5.0, 8.0]), "seed": seeds,
})


@sub("formula", parms, quick=4000, thorough=150000,
     rule="spectra with an interior lobe, pure noise, edge maxima or monotone shapes on symmetric, one-sided and irregular grids, with or without supplied noise; non-trivial when there is a peak to fit")
def formula(c):
    r = np.random.RandomState(c["seed"])
    n, d = c["n"], c["d"]
    phi = np.arange(n) * d
    if c["grid"] == "sym":
        phi = phi - phi.mean()
    elif c["grid"] == "pos":
        phi = phi + d * r.randint(1, 50)
    elif c["grid"] == "neg":
        phi = phi - d * (n + r.randint(50))
    elif c["grid"] == "off":
        phi = phi - r.uniform(0, n * d)
    else:
        phi = np.cumsum(d * (0.3 + r.rand(n)))
        phi -= phi.mean()
    k = c["shape"]
    x = np.arange(n)
    if k == "lobe":
        A = np.exp(-0.5 * ((x - r.uniform(0, n - 1)) / (c["fw"] / 2.355)) ** 2) + 0.05 * r.rand(n)
    elif k == "noise":
        A = np.abs(r.randn(n) + 1j * r.randn(n))
    elif k == "edge":
        A = 0.1 * r.rand(n)
        A[[0, -1][r.randint(2)]] += 1 + r.rand()
    elif k == "edge2":
        A = 0.1 * r.rand(n)
        j = r.randint(2)
        A[[0, -1][j]] += 1 + r.rand()
        A[[1, -2][j]] += 0.5 + r.rand()
    else:
        A = np.exp(-x / r.uniform(2, 50)) * (1 + 1e-3 * r.rand(n))
        A = A if r.rand() < 0.5 else A[::-1]
    F = (A * np.exp(1j * (r.uniform(0, 6.28) + np.cumsum(r.uniform(-0.3, 0.3, n)))) * c["scale"]).astype(c["dt"])
    l2 = np.sort(c["l0"] + 0.02 + r.rand(c["nch"]) * 0.5)
    dF = None if c["noise"] is None else c["noise"] * np.abs(F).max()
    kw = {} if c["thr"] is None else {"snrDoBiasCorrect": c["thr"]}
    fw = c["fw"] * d
    F0 = F.copy()
    m = measure_FDF_parms(F, phi, fw, dFDF=dF, lamSqArr_m2=l2, lam0Sq=c["l0"], **kw)
    check(np.array_equal(F, F0), "the input spectrum was modified")
    if dF is None and not m["dFDFcorMAD"] > 1e-4 * np.abs(F).max():
        skip("measured noise of zero")
    return verify(m, F, phi, fw, dF, l2, c["l0"], 5.0 if c["thr"] is None else c["thr"])


@sub("blank", st.fixed_dictionaries({"n": st.integers(5, 60), "kind": st.sampled_from(["nan", "zero", "const"])}), quick=60, thorough=500,
     rule="all-NaN, all-zero and constant spectra must give no fitted peak (an exception is accepted for an all-NaN spectrum); non-trivial always")
def blank(c):
    phi = np.arange(c["n"]) * 2.0 - c["n"]
    v = {"nan": np.nan + 1j * np.nan, "zero": 0j, "const": 1 + 1j}[c["kind"]]
    try:
        m = measure_FDF_parms(np.full(c["n"], v, dtype="c16"), phi, 6.0, dFDF=0.1, lamSqArr_m2=np.linspace(0.1, 0.2, 20), lam0Sq=0.15)
    except ValueError:
        check(c["kind"] == "nan", "exception for a finite spectrum")
        return True
    for k in PEAK:
        if c["kind"] == "const" and k in ("ampPeakPIfit", "ampPeakPIfitEff", "snrPIfit"):
            continue
        check(m[k] is None or not np.isfinite(m[k]), lambda: "%s = %s for a %s spectrum" % (k, m[k], c["kind"]))
    return True


@sub("tools", st.fixed_dictionaries({
    "freq": freq_cases(4, 60), "half": st.integers(4, 60), "os": st.sampled_from([2.2, 5.3, 10.3]), "nc": st.integers(0, 3), "amp": st.sampled_from([0.05, 0.5, 5.0]),
    "I": st.booleans(), "bits": st.sampled_from([32, 64]), "edge": st.booleans(), "clean": st.booleans(), "wt": st.sampled_from(["variance", "uniform"]), "flag": st.sampled_from([0, 0, 1, 4]), "seed": seeds}),
    quick=500, thorough=20000,
    rule="the dictionaries returned by 1D RM-synthesis and RM-CLEAN compared with the formulas applied to the FDF arrays they return, with flagged channels and sources also beyond the ends of the grid, and the observed errors of RM-CLEAN with the scaled theoretical ones; non-trivial when there is a peak to fit")
def tools(c):
    from RMtools_1D.do_RMclean_1D import run_rmclean
    from RMtools_1D.do_RMsynth_1D import run_rmsynth

    r = np.random.RandomState(c["seed"])
    f = freqs(c["freq"])
    l2 = l2_of(f)
    n = len(f)
    fw = 3.8 / np.ptp(l2)
    dphi = fw / c["os"]
    pm = c["half"] * dphi
    if pm * l2.max() > 1500:
        skip()
    s = 0.1 + 0.1 * r.rand(n)
    P = s * (r.randn(n) + 1j * r.randn(n))
    for _ in range(c["nc"]):
        P = P + thin(l2, c["amp"], 180 * r.rand(), pm * (r.choice([-1, 1]) * r.uniform(0.95, 1.05) if c["edge"] else r.uniform(-1, 1)))
    bad = r.permutation(n)[: max(0, min(c["flag"], n - 6))]
    P[bad] = np.nan
    if c["I"]:
        I = 3.0 * (f / f.mean()) ** -0.7
        d = [f, I, P.real, P.imag, I * 1e-3, s, s]
    else:
        d = [f, P.real, P.imag, s, s]
    m, a = run_rmsynth(d, phiMax_radm2=pm, dPhi_radm2=dphi, nBits=c["bits"], weightType=c["wt"], polyOrd=2)
    F = a["dirtyFDF"]
    l2 = np.delete(l2, bad)
    res = verify(m, F, a["phiArr_radm2"], m["fwhmRMSF"], m["dFDFth"], l2, m["lam0Sq_m2"], 5.0)
    check(np.isnan(m["fracPol"]) if not res else abs(m["fracPol"] - m["ampPeakPIfitEff"] / m["Ifreq0"]) <= 1e-6 * abs(m["fracPol"]), "fractional polarisation is not amplitude over Stokes I")
    if c["clean"]:
        m2, a2 = run_rmclean(m, a, -3.0, maxIter=50, nBits=c["bits"])
        # published formulas on the restored spectrum, with the same noise and width
        nz, th = m2["dFDFcorMAD"], m["dFDFth"]
        for k, e in (("dPhiObserved_rm2", "dPhiPeakPIfit_rm2"), ("dAmpObserved", "dAmpPeakPIfit"), ("dPolAngleFitObserved_deg", "dPolAngleFit_deg"), ("dPolAngleFit0Observed_deg", "dPolAngle0Fit_deg")):
            want = nz if k == "dAmpObserved" else m2[e] * nz / th
            check(np.isnan(want) and np.isnan(m2[k]) or abs(m2[k] - want) <= 1e-5 * abs(want), lambda: "RM-CLEAN: %s is %g; the theoretical error times measured over theoretical noise is %g" % (k, m2[k], want))
        verify(m2, a2["cleanFDF"], a["phiArr_radm2"], m["fwhmRMSF"], m["dFDFth"], l2, m["lam0Sq_m2"], 5.0, 1e-14 if c["bits"] == 64 else 1e-6)
    return res


# the same at the size of survey data
sub("formula_large", wider(parms, n=st.integers(200, 3000), nch=st.integers(200, 4000)), quick=300, thorough=4000,
    rule="as formula, with thousands of depths and channels; non-trivial as there")(formula)
