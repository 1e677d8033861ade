"""C25: super-resolution mode is RM synthesis referenced to zero wavelength.

Technique: property-based testing against a direct Fourier sum referenced to zero wavelength, metamorphic relations with the standard mode (phase factor), conservation laws after cleaning, and differential testing between the 1D tool, the cube tool and the command lines
Assurance: exploration of generated inputs; no proof
"""
import contextlib
import io
import os
import sys
import tempfile
import warnings

import numpy as np
from astropy.io import fits as pf
from hypothesis import strategies as st

from vlib import ref
from vlib.cleanlib import conv_gauss, conv_rmsf
from vlib.gen import freq_cases, freqs, l2_of, seeds, thin, wider
from vlib.harness import check, skip, sub

from RMtools_1D import do_RMclean_1D as C1
from RMtools_1D import do_RMsynth_1D as S1
from RMtools_3D import do_RMclean_3D as C3
from RMtools_3D import do_RMsynth_3D as S3
from RMutils.util_misc import create_frac_spectra

ASSUMPTIONS = ["bands at least a tenth as wide as their highest wavelength squared (others have no resolvable main lobe)", "the RMSF width is only compared when the fit succeeds and the lobe is sampled at least seven times"]


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


def nolog(*a, **k):
    pass


gen = {"freq": freq_cases(8, 40), "half": st.integers(20, 60), "os": st.sampled_from([4.3, 8.3]), "bits": st.sampled_from([32, 64]), "wt": st.sampled_from(["variance", "uniform"]), "I": st.sampled_from(["none5", "none7", "fit", "model"]),
       "fit": st.sampled_from(["log", "linear"]), "nan": st.booleans(), "noise": st.sampled_from([0.0, 0.05]), "rm": st.floats(-0.6, 0.6), "psi": st.floats(0, 180), "seed": seeds}


def setup(c):
    r = np.random.RandomState(c["seed"])
    f = freqs(c["freq"])
    if c["bits"] == 32:
        f = f.astype("f4").astype(float)
    l2 = l2_of(f)
    if np.ptp(l2) < 0.1 * l2.max():
        skip()
    fw = 2.0 / (l2.max() + l2.min())
    dphi = fw / c["os"]
    n = len(f)
    phi = (np.arange(2 * c["half"] + 1) - c["half"]) * dphi
    rm = phi[int(round(c["half"] * (1 + c["rm"])))]
    P = thin(l2, 0.7, c["psi"], rm)
    P = P + c["noise"] * (r.randn(n) + 1j * r.randn(n))
    x = f / f.mean()
    I = 3.0 * x ** r.uniform(-1.2, 0.4)
    Q, U = P.real, P.imag
    if not c["I"].startswith("none"):
        Q, U = Q * I, U * I
    dQ = 0.02 + 0.03 * r.rand(n)
    dI = np.full(n, 0.01)
    if c["nan"]:
        k = r.rand(n) < 0.15
        Q[k] = np.nan
        if np.isfinite(Q).sum() < 4:
            skip()
    d = {"I": I + (0.01 * r.randn(n) if c["noise"] else 0), "Q": Q, "U": U, "dI": dI, "dQ": dQ, "dU": dQ.copy()}
    if c["bits"] == 32:
        d = {k: v.astype("f4").astype(float) for k, v in d.items()}
    return r, f, l2, fw, phi, rm, I, d


def run1d(c, f, d, I, phi, sr, **kw):
    kw.setdefault("phiMax_radm2", float(phi[-1]))
    kw.setdefault("dPhi_radm2", float(phi[1] - phi[0]))
    data = [f, d["Q"], d["U"], d["dQ"], d["dU"]] if c["I"] == "none5" else [f, d["I"], d["Q"], d["U"], d["dI"], d["dQ"], d["dU"]]
    with quiet():
        return S1.run_rmsynth([np.copy(a) for a in data], polyOrd=2, fit_function=c["fit"], weightType=c["wt"], nBits=c["bits"], noStokesI=c["I"] == "none7", modStokesI=I.copy() if c["I"] == "model" else None, super_resolution=sr, log=nolog, **kw)


def frac(c, f, d, I):
    if c["I"].startswith("none"):
        m = np.ones(len(f))
    elif c["I"] == "model":
        m = I
    else:
        with quiet():
            m = np.asarray(create_frac_spectra(f, d["I"], d["Q"], d["U"], d["dI"], d["dQ"], d["dU"], polyOrd=2, fit_function=c["fit"])[0], float)
    return (d["Q"] + 1j * d["U"]) / m, (1 / (d["dQ"] / np.abs(m)) ** 2 if c["wt"] == "variance" else np.ones(len(f))), m


@sub("oned", st.fixed_dictionaries(gen), quick=400, thorough=16000,
     rule="1D spectra with sources and noise, flagged channels, all Stokes I options, weights and precisions in super-resolution mode: transforms, width, angles, flux scale and relation with the standard mode; non-trivial for a recoverable source")
def oned(c):
    r, f, l2, fw, phi, rm, I, d = setup(c)
    m, a = run1d(c, f, d, I, phi, True)
    s, b = run1d(c, f, d, I, phi, False)
    check(m["lam0Sq_m2"] == 0, lambda: "reference wavelength squared %r" % m["lam0Sq_m2"])
    p, w, mod = frac(c, f, d, I)
    w = np.where(np.isfinite(p), w, 0.0)
    t = 1e-5 if c["bits"] == 64 else 2e-4
    t = t + (3e-7 if c["bits"] == 32 else 0) * np.abs(phi).max() * l2.max() * 2
    ph = np.asarray(a["phiArr_radm2"], float)
    check(len(ph) == len(phi) and np.abs(ph - phi).max() <= 1e-6 * phi[-1], "Faraday depths")
    I0 = m["Ifreq0"]
    F = ref.fdf(p, w, l2, ph, 0.0)
    got = np.asarray(a["dirtyFDF"], complex)
    check(np.abs(got - I0 * F).max() <= t * np.abs(I0 * F).max(), lambda: "FDF is not the transform referenced to zero wavelength times Ifreq0 (off by %.2g of its maximum)" % (np.abs(got - I0 * F).max() / np.abs(I0 * F).max()))
    p2 = np.asarray(a["phi2Arr_radm2"], float)
    R = ref.rmsf(w, l2, p2, 0.0)
    t2 = t + (3e-7 if c["bits"] == 32 else 0) * np.abs(p2).max() * l2.max() * 2
    check(np.abs(np.asarray(a["RMSFArr"], complex) - R).max() <= t2, "RMSF is not the transform of the weights referenced to zero wavelength")
    # relation with the standard mode
    l20 = s["lam0Sq_m2"]
    g = np.asarray(b["dirtyFDF"], complex) / s["Ifreq0"] * np.exp(-2j * ph * l20)
    check(np.abs(got / I0 - g).max() <= 3 * t * np.abs(g).max(), "differs from the standard FDF by more than the phase exp(-2i phi lambda0^2)")
    check(np.allclose(np.abs(a["RMSFArr"]), np.abs(b["RMSFArr"]), atol=3 * t2), "amplitude of the RMSF differs from the standard mode")
    # flux scale: the Stokes I model at the stated reference frequency
    f0 = m["freq0_Hz"]
    check(f.min() * 0.999 <= f0 <= f.max() * 1.001, lambda: "reference frequency %.6g Hz is outside the band" % f0)
    if c["I"].startswith("none"):
        check(I0 == 1, "Ifreq0 without Stokes I")
    else:
        if c["I"] == "model":
            o = np.argsort(f)
            e = np.interp(f0, f[o], I[o])
        else:
            o = np.argsort(f)
            k = int(np.clip(np.searchsorted(f[o], f0), 1, len(f) - 1))
            lo, hi = sorted((mod[o][k - 1], mod[o][k]))
            e = float(np.clip(I0, lo - 0.02 * abs(lo), hi + 0.02 * abs(hi)))
            q = np.array([float(v) for v in m["polyCoeffs"].split(",")])
            check(abs(I0 - (q[5] if c["fit"] == "log" else q.sum())) <= 1e-4 * abs(I0), "the Stokes I coefficients do not refer to the reference frequency")
        check(abs(I0 - e) <= 1e-4 * abs(e), lambda: "Ifreq0 %.6g, the Stokes I model has %.6g at %.6g Hz" % (I0, e, f0))
    # width: Gaussian main lobe of the real part
    h = np.where(R.real[int(np.argmax(R.real)):] < 0.5)[0]
    if len(h) and h[0] >= 4:
        i = int(np.argmax(R.real)) + h[0]
        x = 2 * abs(p2[i - 1] + (R.real[i - 1] - 0.5) / (R.real[i - 1] - R.real[i]) * (p2[i] - p2[i - 1]))
        check(0.75 * x < m["fwhmRMSF"] < 1.3 * x, lambda: "RMSF width %.5g, the real part has half-power width %.5g" % (m["fwhmRMSF"], x))
    # angles need no derotation
    dd = (m["polAngleFit_deg"] - m["polAngle0Fit_deg"] + 90) % 180 - 90
    check(abs(dd) < 1e-3, lambda: "angle %.6g but derotated angle %.6g" % (m["polAngleFit_deg"], m["polAngle0Fit_deg"]))
    if c["noise"] == 0 and abs(c["rm"]) < 0.6:
        A = np.abs(got)
        o = np.delete(A, int(np.argmax(A)))
        if ph[int(np.argmax(A))] == ph[np.argmin(np.abs(ph - rm))] and len(o) and o.max() < A.max() * 0.98:
            check(abs(m["phiPeakPIfit_rm2"] - rm) <= 0.05 * (phi[1] - phi[0]), lambda: "source at %.6g found at %.6g" % (rm, m["phiPeakPIfit_rm2"]))
            e = (m["polAngle0Fit_deg"] - c["psi"] + 90) % 180 - 90
            turn = np.degrees(l2.mean() * abs(m["phiPeakPIfit_rm2"] - rm))
            check(abs(e) <= 0.5 + 3 * turn + np.degrees(6e-7 * np.abs(phi).max() * l2.max()), lambda: "source with intrinsic angle %.5g measured at %.5g" % (c["psi"], m["polAngle0Fit_deg"]))
            check(abs(m["ampPeakPIfit"] / I0 - 0.7) < 0.02, lambda: "fractional amplitude %.5g, source has 0.7" % (m["ampPeakPIfit"] / I0))
            return True
    return c["noise"] > 0


@sub("defaults", st.fixed_dictionaries(dict(gen, ns=st.sampled_from([5.0, 10.0, 17.3]), pm=st.booleans())), quick=150, thorough=5000,
     rule="default Faraday depth sampling in super-resolution mode; non-trivial always")
def defaults(c):
    r, f, l2, fw, phi, rm, I, d = setup(c)
    pm = float(12 * fw) if c["pm"] else None
    e = max(np.sqrt(3) / np.diff(np.sort(l2)).max(), 10 * fw) if pm is None else pm
    if e / (fw / c["ns"]) > 3000:
        skip()
    m, a = run1d(c, f, d, I, phi, True, dPhi_radm2=None, nSamples=c["ns"], phiMax_radm2=pm)
    ph = np.asarray(a["phiArr_radm2"], float)
    dp = fw / c["ns"]
    check(abs(np.diff(ph).mean() - dp) <= 1e-5 * dp, lambda: "spacing %.6g, %g samples across the width %.6g" % (np.diff(ph).mean(), c["ns"], fw))
    check(abs(len(ph) - (2 * e / dp + 1)) <= 1.01 and abs(ph[0] + ph[-1]) <= 1e-5 * ph[-1], lambda: "range %g to %g, expected %g" % (ph[0], ph[-1], e))
    return True


@sub("clean", st.fixed_dictionaries(dict(gen, cut=st.sampled_from([-3.0, -5.0, 0.05]), win=st.booleans(), gain=st.sampled_from([0.1, 0.3]))), quick=200, thorough=6000,
     rule="cleaning of super-resolution FDFs: residual plus components convolved with the RMSF must equal the dirty FDF, restored minus residual the components convolved with a Gaussian of the fitted width; non-trivial with a component")
def clean(c):
    r, f, l2, fw, phi, rm, I, d = setup(c)
    m, a = run1d(c, f, d, I, phi, True)
    if not np.isfinite(m["fwhmRMSF"]) or m["fwhmRMSF"] <= 0:
        skip()
    keep = {k: np.copy(v) for k, v in a.items()}
    with quiet():
        mc, ac = C1.run_rmclean(m, a, c["cut"], maxIter=200, gain=c["gain"], nBits=c["bits"], window=c["cut"] / 2 if c["win"] else None)
    check(all(np.array_equal(keep[k], a[k]) for k in keep), "the arrays of the synthesis were changed")
    ph = np.asarray(a["phiArr_radm2"], float)
    F = np.asarray(a["dirtyFDF"], complex)
    cc, res, cl = (np.asarray(ac[k], complex) for k in ("ccArr", "residFDF", "cleanFDF"))
    R = np.asarray(a["RMSFArr"], complex)
    s = np.abs(F).max()
    n = np.count_nonzero(cc)
    tol = (2e-5 if c["bits"] == 32 else 1e-9) * s * max(1, mc["nIter"] ** 0.5)
    e = np.abs(F - res - conv_rmsf(cc, R, ph)).max()
    check(e <= tol, lambda: "dirty FDF minus residual minus components convolved with the RMSF: %.3g of the maximum" % (e / s))
    e = np.abs(cl - res - conv_gauss(cc, m["fwhmRMSF"], ph)).max()
    check(e <= tol + 1e-4 * np.abs(cc).sum(), lambda: "restored minus residual minus components convolved with the Gaussian: %.3g of the maximum" % (e / s))
    dd = (mc["polAngleFit_deg"] - mc["polAngle0Fit_deg"] + 90) % 180 - 90
    check(np.isnan(dd) or abs(dd) < 1e-3, "angles of the cleaned FDF need derotation")
    return n > 0


cubegen = dict(gen, ny=st.integers(1, 3), nx=st.integers(1, 3), I=st.sampled_from(["none", "model"]), cl=st.booleans(), half=st.integers(15, 25), lay=st.sampled_from(["xyf", "xysf"]))


@sub("cube", st.fixed_dictionaries(cubegen), quick=120, thorough=4000, timeout=120,
     rule="cube tool in super-resolution mode (optionally written, cleaned from disk) against the 1D tool on each pixel; non-trivial with more than one pixel")
def cube(c):
    c = dict(c, wt="uniform", bits=64)
    r, f, l2, fw, phi, rm, I, d = setup(dict(c, I="fit"))
    ny, nx = c["ny"], c["nx"]
    n = len(f)
    Ic = I[:, None, None] * (0.5 + r.rand(ny, nx))
    P = np.zeros((n, ny, nx), complex)
    for ij in np.ndindex(ny, nx):
        P[(slice(None),) + ij] = 0.7 * np.exp(2j * (np.pi * r.rand() + r.uniform(-0.5, 0.5) * phi[-1] * l2)) + 0.02 * (r.randn(n) + 1j * r.randn(n))
    mult = Ic if c["I"] == "model" else 1.0
    Q, U = (P.real * mult), (P.imag * mult)
    if c["nan"]:
        Q[r.randint(n)] = np.nan
    kw = dict(phiMax_radm2=float(phi[-1]), dPhi_radm2=float(phi[1] - phi[0]), weightType="uniform", nBits=32, verbose=False, log=nolog, super_resolution=True)
    with quiet():
        out = S3.run_rmsynth(Q.copy(), U.copy(), f, dataI=Ic.copy() if c["I"] == "model" else None, **kw)
    F, ph, R, p2, fwm, _, l20, _ = out
    check(l20 == 0, lambda: "reference wavelength squared %r" % l20)
    F = np.asarray(F).reshape((len(ph), ny, nx))
    R = np.asarray(R).reshape((len(p2), ny, nx))
    fwm = np.asarray(fwm).reshape(ny, nx)
    one = {}
    for ij in np.ndindex(ny, nx):
        s = (slice(None),) + ij
        dd = {"Q": Q[s], "U": U[s], "I": Ic[s], "dQ": np.full(n, 0.02), "dU": np.full(n, 0.02), "dI": np.full(n, 0.02)}
        m, a = run1d(dict(c, I="none5" if c["I"] == "none" else "model", bits=64), f, dd, Ic[s], phi, True)
        one[ij] = (m, a)
        t = (2e-5 + 6e-7 * np.abs(p2).max() * l2.max())
        G = np.asarray(a["dirtyFDF"], complex)
        check(np.abs(F[s] - G).max() <= t * np.abs(G).max(), lambda: "pixel %s: FDF differs from the 1D tool by %.3g of its maximum" % (ij, np.abs(F[s] - G).max() / np.abs(G).max()))
        check(np.abs(R[s] - a["RMSFArr"]).max() <= 3 * t, lambda: "pixel %s: RMSF differs from the 1D tool" % (ij,))
        check(abs(fwm[ij] - m["fwhmRMSF"]) <= 0.01 * m["fwhmRMSF"], lambda: "pixel %s: width %.6g, 1D tool %.6g" % (ij, fwm[ij], m["fwhmRMSF"]))
    if c["cl"]:
        with tempfile.TemporaryDirectory() as t:
            h = pf.Header()
            sh = {"xyf": (nx, ny, n), "xysf": (nx, ny, 1, n)}[c["lay"]]
            h["SIMPLE"], h["BITPIX"], h["NAXIS"] = True, -32, len(sh)
            for i, v in enumerate(sh):
                h["NAXIS%d" % (i + 1)] = v
            for i, v in enumerate(c["lay"]):
                k = str(i + 1)
                h["CTYPE" + k] = {"x": "RA---SIN", "y": "DEC--SIN", "f": "FREQ", "s": "STOKES"}[v]
                h["CRPIX" + k], h["CRVAL" + k], h["CDELT" + k] = 1.0, 1.0, 1.0
            with quiet():
                S3.writefits(out, h, prefixOut="s_", outDir=t, nBits=32, do_peakmaps=False, log=nolog)
                hd = pf.getheader(os.path.join(t, "s_FDF_real_dirty.fits"))
                check(hd["LAMSQ0"] == 0, lambda: "LAMSQ0 in the file is %r" % hd["LAMSQ0"])
                cut = 0.2 * np.abs(F).max()
                cl = C3.run_rmclean(os.path.join(t, "s_FDF_tot_dirty.fits"), os.path.join(t, "s_RMSF_tot.fits"), cut, maxIter=50, gain=0.1, verbose=False, log=nolog)
            cf, cc, it, rs = (np.asarray(x) for x in cl[:4])
            cf, cc, rs = (np.moveaxis(x.reshape(x.shape[0], ny, nx) if x.ndim != 3 else x, 0, 0).reshape(len(ph), ny, nx) for x in (cf, cc, rs))
            for ij in np.ndindex(ny, nx):
                s = (slice(None),) + ij
                sc = np.abs(F[s]).max()
                e = np.abs(F[s] - rs[s] - conv_rmsf(cc[s], R[s], np.asarray(ph, float))).max()
                check(e <= 2e-4 * sc, lambda: "pixel %s: dirty FDF minus residual minus components: %.3g of the maximum" % (ij, e / sc))
                e = np.abs(cf[s] - rs[s] - conv_gauss(cc[s], fwm[ij], np.asarray(ph, float))).max()
                check(e <= 2e-4 * sc + 1e-4 * np.abs(cc[s]).sum(), lambda: "pixel %s: restored minus residual minus components: %.3g of the maximum" % (ij, e / sc))
    return ny * nx > 1


@sub("tool", st.fixed_dictionaries(dict(gen, I=st.sampled_from(["none5", "none7", "fit"]), cl=st.booleans())), quick=60, thorough=1500, timeout=120,
     rule="rmsynth1d and rmclean1d command lines in super-resolution mode: saved dictionary and arrays equal the library results; non-trivial always")
def tool(c):
    import json

    c = dict(c, nan=False)
    r, f, l2, fw, phi, rm, I, d = setup(c)
    m, a = run1d(c, f, d, I, phi, True)
    with tempfile.TemporaryDirectory() as t:
        cols = [f, d["Q"], d["U"], d["dQ"], d["dU"]] if c["I"] == "none5" else [f, d["I"], d["Q"], d["U"], d["dI"], d["dQ"], d["dU"]]
        np.savetxt(os.path.join(t, "x.dat"), np.array(cols).T, fmt="%.17g")
        argv = ["rmsynth1d", os.path.join(t, "x.dat"), "-r", "-S", "-w", c["wt"], "-l", repr(float(phi[-1])), "-d", repr(float(phi[1] - phi[0])), "-o", "2", "-f", c["fit"]] + (["-b"] if c["bits"] == 64 else []) + (["-i"] if c["I"] == "none7" else [])
        keep = sys.argv
        try:
            with quiet():
                sys.argv = argv
                S1.main()
                if c["cl"]:
                    sys.argv = ["rmclean1d", os.path.join(t, "x.dat"), "-c", "-5", "-n", "50", "-S"]
                    C1.main()
        finally:
            sys.argv = keep
        j = json.load(open(os.path.join(t, "x_RMsynth.json")))
        for k in ("lam0Sq_m2", "freq0_Hz", "Ifreq0", "fwhmRMSF", "phiPeakPIfit_rm2", "ampPeakPIfit", "polAngle0Fit_deg", "dFDFth"):
            dv = j[k] - m[k]
            if k[:3] == "pol":
                dv = (dv + 90) % 180 - 90
            tv = {"p": 0.02 * (phi[1] - phi[0])}.get(k[0], 1e-4 * abs(m[k])) if k[:3] != "pol" else 0.5 + np.degrees(0.02 * (phi[1] - phi[0]) * l2.max())
            check(abs(dv) <= tv, lambda: "%s saved as %r, library gives %r" % (k, j[k], m[k]))
        x = np.loadtxt(os.path.join(t, "x_FDFdirty.dat"))
        G = np.asarray(a["dirtyFDF"], complex)
        check(len(x) == len(G) and np.abs(x[:, 1] + 1j * x[:, 2] - G).max() <= 1e-3 * np.abs(G).max(), "saved FDF differs from the library")
        if c["cl"]:
            jc = json.load(open(os.path.join(t, "x_RMclean.json")))
            dd = (jc["polAngleFit_deg"] - jc["polAngle0Fit_deg"] + 90) % 180 - 90
            check(abs(dd) < 1e-3, "angles of the cleaned FDF need derotation")
    return True


# the same at the size of survey data
sub("oned_large", wider(st.fixed_dictionaries(gen), freq=freq_cases(100, 400), half=st.integers(60, 300)), quick=36, thorough=300, min_shard=2,
    rule="as oned, with hundreds of channels and depths; non-trivial as there")(oned)
