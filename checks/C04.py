"""C04: RM-CLEAN conserves the spectrum.

Technique: property-based testing of a conservation law (dirty = residual + components * RMSF; restored = residual + components * Gaussian) over generated spectra, RMSFs and clean settings, with an independent convolution as oracle
Assurance: exploration of generated inputs; no proof
"""
import numpy as np
from hypothesis import strategies as st

from vlib.cleanlib import build, clean_cases, conv_gauss, conv_rmsf, flat
from vlib.gen import freq_cases, freqs, l2_of, seeds, thin, wider
from vlib.harness import check, skip, sub

from RMutils.util_RM import do_rmclean_hogbom

ASSUMPTIONS = ["depth grids contain zero at their centre sample (as every grid made by the tools does) or one sample from it: further off, the RMSF on the double grid does not cover all shifts", "cutoff > 0 (absolute)"]

case = clean_cases([[], [1], [3], [2, 2], [1, 3], [3, 1], [1, 1]], window=st.sampled_from([None, None, 0.02, 0.1, 0.0]), mask=st.booleans(), scalarw=st.booleans(), nan=st.booleans())


def verify(dirty, phi, R, fw, clean, cc, resid, what):
    """The two conservation laws for one pixel."""
    s = np.abs(dirty).max() + np.abs(cc).sum()
    d = np.abs(dirty - resid - conv_rmsf(cc, R, phi)).max()
    check(d <= 3e-5 * s, lambda: "%s: dirty - residual - components*RMSF = %.3g (scale %.3g)" % (what, d, s))
    d = np.abs(clean - resid - conv_gauss(cc, fw, phi)).max()
    check(d <= 3e-5 * s, lambda: "%s: restored - residual - components*Gaussian = %.3g (scale %.3g)" % (what, d, s))


@sub("conserve", case, quick=1500, thorough=40000,
     rule="1-3D spectra with 0-4 components (also at the grid edges), noise, per-pixel RMSFs, gains, limits, windows, pixel masks and NaN pixels; non-trivial when at least one component was subtracted")
def conserve(c):
    b = build(c)
    shape = tuple(c["shape"])
    F = b["F"].copy()
    n = len(b["phi"])
    fF = F.reshape(n, -1)
    if c["nan"] and b["npix"] > 1:
        fF[:, 0] = np.nan
    fw = np.array(float(b["fw"].flat[0])) if c["scalarw"] else b["fw"]
    msk = None
    if c["mask"] and shape:
        msk = b["r"].rand(*shape) < 0.7
    win = np.nan if c["window"] is None else c["window"] * c["scale"]
    out = do_rmclean_hogbom(F.copy(), b["phi"], b["R"].copy(), b["phi2"], fw, b["cutoff"], maxIter=c["maxit"], gain=c["gain"], mskArr=msk, window=win)
    clean, cc, it, res = [np.asarray(x) for x in out]
    clean, cc, res, R = flat(clean, n), flat(cc, n), flat(res, n), flat(b["R"], len(b["phi2"]))
    it = it.reshape(-1)
    fws = np.broadcast_to(fw, shape if shape else ()).reshape(-1)
    ms = np.ones(b["npix"], bool) if msk is None else msk.reshape(-1)
    nt = False
    for k in range(b["npix"]):
        d = fF[:, k]
        if np.isnan(d).any():
            check(not cc[:, k].any() and np.isnan(clean[:, k]).all() and np.isnan(res[:, k]).all() and it[k] == 0, "a NaN spectrum must come back NaN, uncleaned")
            continue
        if np.abs(d).max() < b["cutoff"] or not ms[k]:
            if abs(np.abs(d).max() - b["cutoff"]) < 1e-6 * b["cutoff"]:
                continue
            why = "below the cutoff" if ms[k] else "excluded by the pixel mask"
            check(not cc[:, k].any(), lambda: "components in a spectrum %s" % why)
            check(np.array_equal(res[:, k], d) and np.array_equal(clean[:, k], d) and it[k] == 0, lambda: "a spectrum %s is not returned unchanged" % why)
            continue
        check(1 <= it[k] <= c["maxit"], lambda: "pixel %d: %d iterations, limit %d" % (k, it[k], c["maxit"]))
        check(cc[:, k].any(), "a spectrum above the cutoff got no component")
        verify(d, b["phi"], R[:, k], fws[k], clean[:, k], cc[:, k], res[:, k], "pixel %d" % k)
        nt = True
    return nt


tool_case = st.fixed_dictionaries({
    "freq": freq_cases(10, 40, kinds=("lin", "gap", "jit")), "seed": seeds, "cut": st.sampled_from([-8.0, -3.0, 0.1]), "gain": st.sampled_from([0.1, 0.4]),
    "win": st.sampled_from([None, -2.0, 0.03]), "bits": st.sampled_from([32, 64]), "super": st.booleans(), "nc": st.integers(1, 3),
})


@sub("tool1d", tool_case, quick=150, thorough=4000,
     rule="1D RM-synthesis followed by 1D RM-CLEAN on simulated multi-component spectra; conservation on the returned arrays plus the meaning of negative (sigma) cutoffs; non-trivial when something was cleaned")
def tool1d(c):
    from RMtools_1D.do_RMclean_1D import run_rmclean
    from RMtools_1D.do_RMsynth_1D import run_rmsynth

    r = np.random.RandomState(c["seed"])
    f = freqs(c["freq"])
    l2 = l2_of(f)
    n = len(f)
    fwhm = 3.8 / np.ptp(l2)
    p = sum(thin(l2, r.uniform(0.1, 1), 180 * r.rand(), r.uniform(-4, 4) * fwhm) for _ in range(c["nc"]))
    dq = np.full(n, 0.02) * (0.5 + r.rand(n))
    p = p + dq * (r.randn(n) + 1j * r.randn(n))
    kw = {}
    dphi = fwhm / 6
    if c["super"]:
        if np.ptp(l2) < 0.1 * l2.max():
            skip()
        kw["super_resolution"] = True
        dphi = min(dphi, 2.0 / (l2.max() + l2.min()) / 6)
    m, a = run_rmsynth([f, p.real, p.imag, dq, dq], phiMax_radm2=40 * dphi, dPhi_radm2=dphi, nBits=c["bits"], **kw)
    m2, a2 = run_rmclean(dict(m), {k: v.copy() for k, v in a.items()}, c["cut"], maxIter=300, gain=c["gain"], nBits=c["bits"], window=c["win"])
    cut = c["cut"] if c["cut"] > 0 else -c["cut"] * m["dFDFth"]
    check(abs(m2["cleanCutoff"] - cut) <= 1e-6 * cut, lambda: "cutoff %g was taken as %g, expected %g" % (c["cut"], m2["cleanCutoff"], cut))
    if c["win"] is not None and c["win"] < 0:
        m3, _ = run_rmclean(dict(m), {k: v.copy() for k, v in a.items()}, cut, maxIter=300, gain=c["gain"], nBits=c["bits"], window=-c["win"] * m["dFDFth"])
        check(abs(int(m3["nIter"]) - int(m2["nIter"])) <= 1, lambda: "window threshold of %g sigma (sigma = %g) made %d iterations, the same absolute threshold %d" % (-c["win"], m["dFDFth"], m2["nIter"], m3["nIter"]))
    verify(a["dirtyFDF"], a["phiArr_radm2"].astype(float), a["RMSFArr"], m["fwhmRMSF"], a2["cleanFDF"], a2["ccArr"], a2["residFDF"], "1D tool")
    if c["bits"] == 64:
        D, R, ph = a["dirtyFDF"], a["RMSFArr"], a["phiArr_radm2"].astype(float)
        d = np.abs(D - a2["residFDF"] - conv_rmsf(a2["ccArr"].astype(complex), R, ph).reshape(-1)).max()
        check(d <= 1e-10 * np.abs(D).max(), lambda: "double-precision clean conserves the spectrum only to %.2g" % (d / np.abs(D).max()))
    if c["win"] is None and m2["nIter"] < 300:
        check(np.abs(a2["residFDF"]).max() <= cut * 1.00001, "1D clean stopped above its cutoff")
    if not a2["ccArr"].any():
        check(np.abs(a["dirtyFDF"]).max() <= cut * 1.00001, "nothing was cleaned although the FDF exceeds the cutoff")
        return False
    return True


# the same at the size of survey data
big = dict(freq=freq_cases(100, 300, kinds=("lin", "gap", "jit", "rand")), half=st.integers(100, 500), maxit=st.sampled_from([5, 300, 1200]), cut=st.sampled_from([0.05, 0.2]))
sub("conserve_large", wider(case, shape=st.sampled_from([[], [12], [9, 12]]), **big), quick=48, thorough=300, min_shard=2,
    rule="as conserve, with hundreds of channels, depths, pixels and iterations; non-trivial as there")(conserve)
