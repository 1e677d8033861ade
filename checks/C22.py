"""C22: cube peak-fitting products equal the 1D measurement of each pixel.

Technique: property-based differential testing of the map-making code and command-line tool against the 1D measurement of each pixel (function and whole 1D tool), with independent formulas for the noise and Stokes I quantities, over generated cubes, layouts and options
Assurance: exploration of generated inputs; no proof
"""
import contextlib
import io
import os
import sys
import tempfile

import numpy as np
from astropy.io import fits as pf
from astropy.wcs import WCS
from hypothesis import strategies as st

from vlib import ref
from vlib.gen import freq_cases, freqs, l2_of, seeds, thin, wider
from vlib.harness import check, skip, sub

from RMtools_1D.do_RMsynth_1D import run_rmsynth as run1d
from RMtools_3D import RMpeakfit_3D as P3
from RMtools_3D import do_RMsynth_3D as S3
from RMutils.util_RM import measure_FDF_parms

ASSUMPTIONS = ["Stokes I model cubes are positive or negative but not zero"]

MEAS = ["dFDFcorMAD", "phiPeakPIfit_rm2", "dPhiPeakPIfit_rm2", "ampPeakPIfit", "ampPeakPIfitEff", "dAmpPeakPIfit", "snrPIfit", "indxPeakPIfit", "peakFDFimagFit", "peakFDFrealFit",
        "polAngleFit_deg", "dPolAngleFit_deg", "polAngle0Fit_deg", "dPolAngle0Fit_deg"]
EXTRA = ["Ifreq0", "dFDFth", "lam0Sq_m2", "freq0_Hz", "fwhmRMSF", "min_freq", "max_freq", "N_channels", "median_channel_width", "fracPol"]
SMALL = ["dFDFcorMAD", "phiPeakPIfit_rm2", "dPhiPeakPIfit_rm2", "ampPeakPIfitEff", "dAmpPeakPIfit", "snrPIfit", "peakFDFimagFit", "peakFDFrealFit", "Ifreq0", "lam0Sq_m2", "polAngle0Fit_deg", "dPolAngle0Fit_deg"]
PEAKS = ["dFDFcorMAD", "phiPeakPIfit_rm2", "dPhiPeakPIfit_rm2", "ampPeakPIfitEff", "dAmpPeakPIfit", "snrPIfit", "polAngle0Fit_deg", "dPolAngle0Fit_deg"]
CC = 299792458.0


def quiet(*a, **k):
    pass


@contextlib.contextmanager
def silence():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def interp_I(I, f, f0):
    """Linear interpolation of a cube between the two channels around f0 (channels in any order)."""
    o = np.argsort(f)
    fs = f[o]
    k = int(np.clip(np.searchsorted(fs, f0), 1, len(fs) - 1))
    t = (f0 - fs[k - 1]) / (fs[k] - fs[k - 1])
    return (1 - t) * I[o[k - 1]] + t * I[o[k]]


def noise_of(noise, wt, I):
    """Theoretical FDF noise per pixel in units of the fractional spectra, from channel noise and weights."""
    ok = ~np.isnan(noise)
    w = np.where(ok, 1 / np.where(ok, noise, 1) ** 2 if wt == "variance" else 1.0, 0.0)
    s = np.where(ok, noise, 0.0)[:, None, None] / np.abs(I)
    return np.sqrt(np.sum((w[:, None, None] * s) ** 2, axis=0)) / w.sum()


def angdiff(k, a, b):
    d = a - b
    if k.startswith("polAngle"):
        d = (d + 90) % 180 - 90
    return abs(d)


def expect_pixel(F, phi, fw, dF, l2, l20):
    try:
        return measure_FDF_parms(F, phi, fw, dFDF=dF, lamSqArr_m2=l2, lam0Sq=l20, snrDoBiasCorrect=5.0)
    except Exception:  # noqa: BLE001  blank spectra have no measurement
        return None


gen = st.fixed_dictionaries({
    "freq": freq_cases(5, 30), "half": st.integers(3, 30), "ny": st.integers(1, 4), "nx": st.integers(1, 4), "os": st.sampled_from([3.3, 8.3]), "dt": st.sampled_from(["c8", "c16"]), "l0": st.sampled_from(["mean", "zero", "max"]),
    "noise": st.sampled_from(["none", "flat", "var", "nan"]), "wt": st.sampled_from(["uniform", "variance"]), "I": st.sampled_from(["none", "pos", "neg", "unit"]), "nanpix": st.booleans(), "amp": st.sampled_from([0.1, 1.0, 10.0]),
    "prod": st.sampled_from(["all", "peaks", "small"]), "seed": seeds,
})


def make(c, r, l2, shape, n):
    fw = 3.8 / np.ptp(l2)
    phi = (np.arange(2 * c["half"] + 1) - c["half"]) * fw / c["os"]
    p = np.zeros((n,) + shape, complex)
    for ij in np.ndindex(*shape):
        P = 0.1 * (r.randn(n) + 1j * r.randn(n))
        for _ in range(r.randint(0, 3)):
            P = P + thin(l2, c["amp"] * r.rand(), 180 * r.rand(), r.uniform(phi[0], phi[-1]) * r.choice([1.0, 1.0, 1.1]))
        p[(slice(None),) + ij] = P
    return phi, p, fw


def icube(c, r, f, shape):
    if c["I"] == "none":
        return None
    if c["I"] == "unit":
        return np.ones((len(f),) + shape)
    I = (0.002 if r.rand() < 0.5 else 5.0) * (0.5 + r.rand(*shape)) * (f[:, None, None] / f.mean()) ** r.uniform(-1.5, 0.5, shape)
    if c["I"] == "neg":
        I = I * np.where(r.rand(*shape) < 0.5, -1.0, 1.0)
    return I


@sub("pixels", gen, quick=600, thorough=20000,
     rule="pixelwise_peak_fitting on cubes with flagged pixels, edge peaks, per-pixel widths, noise and Stokes I cubes, against the measurement of each pixel; non-trivial with more than one finite pixel")
def pixels(c):
    r = np.random.RandomState(c["seed"])
    f = freqs(c["freq"])
    l2 = l2_of(f)
    n, shape = len(f), (c["ny"], c["nx"])
    phi, p, fw = make(c, r, l2, shape, n)
    if np.abs(phi).max() * l2.max() > 3000:
        skip()
    l20 = {"mean": l2.mean(), "zero": 0.0, "max": l2.max()}[c["l0"]]
    I = icube(c, r, f, shape)
    Iq = np.ones((n,) + shape) if I is None else I
    f0 = CC / np.sqrt(l20) if l20 > 0 else f.mean()
    I0 = interp_I(Iq, f, f0)
    F = np.stack([ref.fdf(p[(slice(None),) + ij], np.ones(n), l2, phi, l20) for ij in np.ndindex(*shape)], axis=1).reshape((len(phi),) + shape) * I0
    F = F.astype(c["dt"])
    blank = None
    if c["nanpix"]:
        blank = (r.randint(c["ny"]), r.randint(c["nx"]))
        F[(slice(None),) + blank] = np.nan
    fws = fw * (0.8 + 0.4 * r.rand(*shape))
    noise = {"none": None, "flat": np.full(n, 0.05), "var": 0.02 + 0.1 * r.rand(n), "nan": np.where(r.rand(n) < 0.3, np.nan, 0.02 + 0.1 * r.rand(n))}[c["noise"]]
    if noise is not None and np.isnan(noise).all():
        skip()
    if noise is not None and I is not None:
        noise = noise * np.abs(I).mean()
    prods = {"all": MEAS + EXTRA, "peaks": PEAKS, "small": SMALL}[c["prod"]]
    args = [F, phi, fws, l2, l20, noise, I]
    keep = [None if a is None else np.copy(a) for a in args]
    with silence():
        maps = P3.pixelwise_peak_fitting(F, phi, fws, l2, l20, list(prods), noiseArr=noise, stokesIcube=I, weightType=c["wt"])
    check(all(a is None or np.array_equal(a, b, equal_nan=True) for a, b in zip(args, keep)), "an input array was changed")
    check(set(maps) == set(prods), "the maps are not the requested products")
    dF = None if noise is None else np.abs(I0) * noise_of(noise, c["wt"], Iq)
    used = np.ones(n, bool) if noise is None else ~np.isnan(noise)  # channels that contribute
    for k in prods:
        check(maps[k].shape == shape, "%s: shape of the map" % k)
    nt = 0
    for ij in np.ndindex(*shape):
        m = expect_pixel(F[(slice(None),) + ij], phi, fws[ij], None if dF is None else dF[ij], l2[used], l20)
        if m is None:
            check(all(np.isnan(maps[k][ij]) for k in prods), lambda: "pixel %s has a blank spectrum but the maps %s are not blank there" % (ij, [k for k in prods if not np.isnan(maps[k][ij])]))
            continue
        check(ij != blank, "a measurement of a blank spectrum")
        nt += 1
        m = dict(m)
        m.update(lam0Sq_m2=l20, freq0_Hz=f0, fwhmRMSF=fws[ij], Ifreq0=I0[ij], min_freq=f[used].min(), max_freq=f[used].max(), N_channels=used.sum(), median_channel_width=np.median(np.diff(np.sort(f))), dFDFth=np.nan if dF is None else dF[ij])
        m["fracPol"] = np.nan if m["ampPeakPIfitEff"] is None else m["ampPeakPIfitEff"] / m["Ifreq0"]
        for k in prods:
            a, b = maps[k][ij], m[k]
            if b is None or np.isnan(b):
                check(np.isnan(a), lambda: "pixel %s: %s = %g, the 1D measurement has none" % (ij, k, a))
                continue
            s = max(abs(b), 1e-30)
            if k in ("phiPeakPIfit_rm2",):
                s = np.abs(phi).max()
            elif k.startswith("peakFDF"):
                s = max(np.abs(F[(slice(None),) + ij]).max(), 1e-30)
            elif k.startswith("polAngle"):
                s = 180.0
            elif k == "indxPeakPIfit":
                s = len(phi)
            elif k == "ampPeakPIfitEff" or k == "fracPol":
                s = max(abs(m["ampPeakPIfit"]) / (abs(I0[ij]) if k == "fracPol" else 1), 1e-30)
            if k == "dPolAngle0Fit_deg" and m["snrPIfit"] is not None and not np.isfinite(b):
                continue
            elif k == "median_channel_width":
                s = max(s, 1e-3 * f.max())
            snr = m["snrPIfit"]
            if k in ("ampPeakPIfitEff", "fracPol") and snr is not None and abs(snr - 5) < 1e-4:
                continue
            check(angdiff(k, a, b) <= 1e-6 * s, lambda: "pixel %s: %s = %.9g, the 1D measurement of its spectrum gives %.9g" % (ij, k, a, b))
    return nt > 1


UNIT = {"phiPeakPIfit_rm2": "rad/m^2", "dPhiPeakPIfit_rm2": "rad/m^2", "fwhmRMSF": "rad/m^2", "snrPIfit": "", "indxPeakPIfit": "", "lam0Sq_m2": "m^2", "freq0_Hz": "Hz", "min_freq": "Hz", "max_freq": "Hz", "median_channel_width": "Hz",
        "N_channels": "", "fracPol": ""}

toolgen = st.fixed_dictionaries({
    "freq": freq_cases(6, 16, kinds=("lin", "gap", "jit", "desc")), "half": st.integers(4, 12), "os": st.sampled_from([3.3, 5.3]), "lay": st.sampled_from(["xyf", "xysf", "xyfs", "fxy", "xfy", "fxys"]), "ny": st.integers(1, 3), "nx": st.integers(1, 3),
    "I": st.sampled_from(["none", "pos"]), "noise": st.booleans(), "wt": st.sampled_from(["uniform", "variance"]), "nan": st.booleans(), "flag": st.sampled_from(["", "-a", "-p"]), "which": st.sampled_from(["real", "im", "tot"]),
    "clean": st.booleans(), "super": st.sampled_from([False, False, True]), "amp": st.sampled_from([1.0, 5.0]), "unit": st.booleans(), "newdir": st.booleans(), "seed": seeds,
})


@sub("tool", toolgen, quick=120, thorough=4000, timeout=120,
     rule="rmsynth3d products (optionally cleaned) on disk through the peakfit command line with its product, noise, weight and Stokes I options: maps against the 1D measurement of the cubes on disk and against the whole 1D tool on each pixel; non-trivial with more than one pixel")
def tool(c):
    r = np.random.RandomState(c["seed"])
    f = freqs(c["freq"])
    l2 = l2_of(f)
    if c["super"] and np.ptp(l2) < 0.1 * l2.max():
        c = dict(c, super=False)
    n = {"x": c["nx"], "y": c["ny"], "f": len(f), "s": 1}
    shape = (c["ny"], c["nx"])
    phi, p, fw = make(c, r, l2, shape, len(f))
    if c["super"]:
        fw = 2.0 / (l2.max() + l2.min())
        phi = (np.arange(2 * c["half"] + 1) - c["half"]) * fw / c["os"]
    I = icube(c, r, f, shape)
    Iq = np.ones((len(f),) + shape) if I is None else I
    Q, U = (p.real * Iq).astype("f4").astype(float), (p.imag * Iq).astype("f4").astype(float)
    if c["nan"] and c["nx"] * c["ny"] > 1:
        Q[:, 0, 0] = np.nan
    noise = (0.05 + 0.1 * r.rand(len(f))) * np.abs(Iq).mean()
    if not c["noise"]:
        noise = None
    ax = list(c["lay"])
    h = pf.Header()
    h["SIMPLE"], h["BITPIX"], h["NAXIS"] = True, -32, len(ax)
    for i, a in enumerate(ax):
        k = str(i + 1)
        h["NAXIS" + k] = n[a]
    for i, a in enumerate(ax):
        k = str(i + 1)
        h["CTYPE" + k] = {"x": "RA---SIN", "y": "DEC--SIN", "f": "FREQ", "s": "STOKES"}[a]
        h["CRPIX" + k] = {"x": 3.5, "y": -2.0, "f": 1.0, "s": 1.0}[a]
        h["CRVAL" + k] = {"x": 200.5, "y": -20.25, "f": 1.1e9, "s": 2.0}[a]
        h["CDELT" + k] = {"x": -0.01, "y": 0.012, "f": 1e7, "s": 1.0}[a]
        h["CUNIT" + k] = {"x": "deg", "y": "deg", "f": "Hz", "s": ""}[a]
    if c["unit"]:
        h["BUNIT"] = "Jy/beam"
    fax = len(ax) - 1 - ax.index("f")
    sh = tuple(n[a] for a in reversed(ax))

    def todisk(a):
        return np.moveaxis(a, 0, min(fax, 2)).reshape(sh) if len(ax) == 3 else np.moveaxis(a.reshape((len(a),) + tuple(n[x] for x in reversed(ax) if x != "f")), 0, fax)

    with tempfile.TemporaryDirectory() as d:
        ff = os.path.join(d, "freq.dat")
        np.savetxt(ff, f)
        pf.writeto(os.path.join(d, "Q.fits"), todisk(Q).astype("f4"), h)
        pf.writeto(os.path.join(d, "U.fits"), todisk(U).astype("f4"), h)
        if I is not None:
            pf.writeto(os.path.join(d, "I.fits"), todisk(I), h)
        if noise is not None:
            np.savetxt(os.path.join(d, "noise.dat"), noise)
        with silence():
            hq, dq = S3.readFitsCube(os.path.join(d, "Q.fits"), False)
            hu, du = S3.readFitsCube(os.path.join(d, "U.fits"), False)
            hi = None if I is None else S3.readFitsCube(os.path.join(d, "I.fits"), False)[1]
            kw = dict(phiMax_radm2=float(phi[-1]), dPhi_radm2=float(phi[1] - phi[0]), weightType=c["wt"], nBits=32, verbose=False, log=quiet, super_resolution=c["super"])
            out = S3.run_rmsynth(dq, du, f, dataI=hi, rmsArr=noise, **kw)
            S3.writefits(out, hq, prefixOut="s_", outDir=d, nBits=32, do_peakmaps=False, log=quiet)
            stem = "s_FDF_%s_dirty.fits" % c["which"]
            if c["clean"]:
                from RMtools_3D import do_RMclean_3D as C3

                cl = C3.run_rmclean(os.path.join(d, "s_FDF_tot_dirty.fits"), os.path.join(d, "s_RMSF_tot.fits"), 0.05 * np.nanmax(np.abs(out[0])), maxIter=50, gain=0.2, verbose=False, log=quiet)
                C3.writefits(*cl, prefixOut="s_", outDir=d, write_separate_FDF=True, verbose=False, log=quiet)
                stem = "s_FDF_clean_%s.fits" % c["which"]
                if not os.path.exists(os.path.join(d, stem)):
                    skip("no clean product of that name")
        files = {k: open(os.path.join(d, k), "rb").read() for k in os.listdir(d)}
        outname = os.path.join(d, "new", "m_") if c["newdir"] else os.path.join(d, "m_")
        argv = sys.argv
        sys.argv = ["peakfit", os.path.join(d, stem), ff, outname] + ([c["flag"]] if c["flag"] else []) + (["-i", os.path.join(d, "I.fits")] if I is not None else []) + (["-n", os.path.join(d, "noise.dat")] if noise is not None else []) + ["-w", c["wt"]]
        try:
            with silence():
                P3.main()
        finally:
            sys.argv = argv
        check(all(open(os.path.join(d, k), "rb").read() == v for k, v in files.items()), "an input file was changed")
        prods = {"": SMALL, "-a": MEAS + EXTRA, "-p": PEAKS}[c["flag"]]
        base = os.path.dirname(outname)
        made = sorted(k for k in os.listdir(base) if k.startswith("m_"))
        check(made == sorted("m_%s.fits" % k for k in prods), lambda: "maps written: %s" % made)
        maps = {}
        for k in prods:
            with pf.open(outname + k + ".fits") as hd:
                maps[k] = np.array(hd[0].data, float)
                g = hd[0].header
            check(maps[k].shape == shape, lambda: "%s: map of shape %s" % (k, maps[k].shape))
            for i, j in (("1", str(ax.index("x") + 1)), ("2", str(ax.index("y") + 1))):
                for q in ("CTYPE", "CRPIX", "CRVAL", "CDELT", "CUNIT"):
                    check(g.get(q + i) == h[q + j], lambda: "%s: %s is %r, for that axis of the input %r" % (k, q + i, g.get(q + i), h[q + j]))
            check(g["NAXIS"] == 2 and WCS(g).naxis == 2, "the map header is not two-dimensional")
            u = UNIT.get(k, "deg" if k.endswith("_deg") else None)
            u0 = ("Jy/beam/RMSF" if c["unit"] else "") if u is None else u
            if not c["clean"]:
                check(g.get("BUNIT", "") == u0, lambda: "%s: unit %r, expected %r" % (k, g.get("BUNIT"), u0))
        # (1) against the measurement of the cube on disk
        get = lambda x: np.moveaxis(pf.getdata(os.path.join(d, stem.replace("_%s" % c["which"], "_" + x))).astype(float), fax, 0).reshape((len(phi),) + shape)  # noqa: E731
        F = get("real") + 1j * get("im")
        l20 = 0.0 if c["super"] else float(pf.getheader(os.path.join(d, "s_FDF_real_dirty.fits"))["LAMSQ0"])
        fws = pf.getdata(os.path.join(d, "s_RMSF_FWHM.fits")).astype(float)
        f0 = CC / np.sqrt(l20) if l20 > 0 else f.mean()
        I0 = interp_I(Iq, f, f0)
        dF = None if noise is None else np.abs(I0) * noise_of(noise, c["wt"], Iq)
        hf = pf.getheader(os.path.join(d, "s_FDF_real_dirty.fits"))
        k = str(fax + 1) if str(hf.get("CTYPE%d" % (len(ax) - fax), "")).upper().find("FDEP") < 0 else str(len(ax) - fax)
        phi_out = hf["CRVAL" + k] + (np.arange(len(phi)) + 1 - hf["CRPIX" + k]) * hf["CDELT" + k]
        check(np.abs(phi_out - out[1]).max() <= 1e-5 * np.abs(phi_out).max(), "Faraday depth axis of the cube on disk")
        for ij in np.ndindex(*shape):
            m = expect_pixel(F[(slice(None),) + ij].astype("c8"), phi_out, fws[ij], None if dF is None else dF[ij], l2, l20)
            if m is None:
                check(all(np.isnan(maps[k][ij]) for k in prods), "blank pixel with a measurement")
                continue
            m = dict(m)
            m.update(lam0Sq_m2=l20, freq0_Hz=f0, fwhmRMSF=fws[ij], Ifreq0=I0[ij], min_freq=f.min(), max_freq=f.max(), N_channels=len(f), median_channel_width=np.median(np.diff(np.sort(f))), dFDFth=np.nan if dF is None else dF[ij])
            m["fracPol"] = np.nan if m["ampPeakPIfitEff"] is None else m["ampPeakPIfitEff"] / I0[ij]
            A = np.abs(F[(slice(None),) + ij])
            i = int(np.argmax(A[1:-1])) + 1
            curv = (2 * A[i] - A[i - 1] - A[i + 1]) / A[i]
            if curv < 1e-3:
                continue
            snr = m["snrPIfit"]
            for k in prods:
                a, b = maps[k][ij], m[k]
                if b is None or np.isnan(b):
                    check(np.isnan(a), lambda: "pixel %s: %s = %g, the 1D measurement has none" % (ij, k, a))
                    continue
                if k in ("ampPeakPIfitEff", "fracPol") and abs(snr - 5) < 1e-2:
                    continue
                if k == "phiPeakPIfit_rm2" or k == "indxPeakPIfit":
                    t = 1e-5 / curv * (fw / c["os"] if k[0] == "p" else 1.0) + 1e-5 * (np.abs(phi).max() if k[0] == "p" else len(phi))
                elif k.startswith("peakFDF"):
                    t = 1e-4 * A[i] / min(curv, 1)
                elif k.startswith("polAngle"):
                    rm = np.hypot(m["peakFDFrealFit"], m["peakFDFimagFit"]) / A[i]
                    t = 1e-2 / max(rm, 1e-3) + np.degrees(1e-5 * l20 * (fw / curv + np.abs(phi).max()))
                else:
                    t = 1e-4 * max(abs(b), abs(m["ampPeakPIfit"]) if k in ("ampPeakPIfitEff",) else 0)
                check(angdiff(k, a, b) <= t, lambda: "pixel %s: %s = %.7g, the 1D measurement of the FDF on disk gives %.7g" % (ij, k, a, b))
        # (2) against the whole 1D tool on the pixel's spectra
        if not c["clean"] and not c["super"] and noise is not None and c["wt"] == "uniform" and "snrPIfit" in prods:
            for ij in np.ndindex(*shape):
                if np.isnan(Q[(0,) + ij]):
                    continue
                s = (slice(None),) + ij
                with silence():
                    if I is None:
                        m, a1 = run1d([f, Q[s], U[s], noise, noise], phiMax_radm2=float(phi[-1]), dPhi_radm2=float(phi[1] - phi[0]), weightType="uniform", nBits=64)
                    else:
                        m, a1 = run1d([f, I[s], Q[s], U[s], noise, noise, noise], modStokesI=I[s].copy(), phiMax_radm2=float(phi[-1]), dPhi_radm2=float(phi[1] - phi[0]), weightType="uniform", nBits=64)
                A = np.abs(a1["dirtyFDF"])
                i = int(np.argmax(A[1:-1])) + 1
                o = np.delete(A[1:-1], i - 1)
                curv = (2 * A[i] - A[i - 1] - A[i + 1]) / A[i]
                if curv < 1e-3 or (len(o) and o.max() > A[i] * (1 - 1e-4)):
                    continue
                check(abs(maps["dAmpPeakPIfit"][ij] - m["dAmpPeakPIfit"]) <= 1e-3 * abs(m["dAmpPeakPIfit"]), lambda: "pixel %s: noise of the amplitude %.6g, from the 1D tool %.6g" % (ij, maps["dAmpPeakPIfit"][ij], m["dAmpPeakPIfit"]))
                b = m["phiPeakPIfit_rm2"]
                a = maps["phiPeakPIfit_rm2"][ij]
                if b is None or np.isnan(b) or np.isnan(a):
                    continue
                check(abs(a - b) <= 1e-4 / curv * fw, lambda: "pixel %s: peak at %.6g, from the 1D tool %.6g" % (ij, a, b))
                check(abs(maps["snrPIfit"][ij] - m["snrPIfit"]) <= 2e-3 / min(curv, 1) * m["snrPIfit"], lambda: "pixel %s: S/N %.6g, from the 1D tool %.6g" % (ij, maps["snrPIfit"][ij], m["snrPIfit"]))
                if "fracPol" in prods and abs(m["snrPIfit"] - 5) > 0.1:
                    check(abs(maps["fracPol"][ij] - m["fracPol"]) <= 1e-2 / min(curv, 1) * abs(m["fracPol"]) + 1e-3, lambda: "pixel %s: fractional polarisation %.6g, from the 1D tool %.6g" % (ij, maps["fracPol"][ij], m["fracPol"]))
    return c["nx"] * c["ny"] > 1


@sub("peakmaps", st.fixed_dictionaries({"shape": st.sampled_from([(1, 1), (2, 3), (3, 1), (4, 4)]), "n": st.integers(2, 40), "axis": st.integers(0, 2), "nan": st.booleans(), "dt": st.sampled_from(["c8", "c16"]), "seed": seeds}), quick=500, thorough=20000,
     rule="create_peak_maps on random cubes with the Faraday depth axis in any place and blank pixels, against a loop over the pixels; non-trivial with more than one pixel")
def peakmaps(c):
    r = np.random.RandomState(c["seed"])
    F = (r.randn(c["n"], *c["shape"]) + 1j * r.randn(c["n"], *c["shape"])).astype(c["dt"])
    if c["nan"]:
        F[(slice(None),) + tuple(r.randint(k) for k in c["shape"])] = np.nan
    phi = np.sort(r.randn(c["n"])) * 100
    G = np.moveaxis(F, 0, c["axis"])
    pi, rm = S3.create_peak_maps(G.copy(), phi.copy(), c["axis"])
    for ij in np.ndindex(*c["shape"]):
        A = np.abs(F[(slice(None),) + ij])
        if np.isnan(A).any():
            check(np.isnan(pi[ij]) and np.isnan(rm[ij]), lambda: "blank pixel: amplitude %s, depth %s" % (pi[ij], rm[ij]))
            continue
        k = int(np.argmax(A))
        check(abs(pi[ij] - A[k]) <= 1e-6 * A[k], "amplitude of the highest sample")
        check(rm[ij] == phi[k] or abs(A[np.argmin(np.abs(phi - rm[ij]))] - A[k]) < 1e-6 * A[k], "depth of the highest sample")
    return np.prod(c["shape"]) > 1


# the same at the size of survey data
sub("pixels_large", wider(gen, freq=freq_cases(20, 300), half=st.integers(30, 150), ny=st.integers(5, 14), nx=st.integers(5, 14)), quick=36, thorough=200, min_shard=1,
    rule="as pixels, with larger cubes; non-trivial as there")(pixels)
sub("peakmaps_large", wider(st.fixed_dictionaries({"axis": st.integers(0, 2), "nan": st.booleans(), "dt": st.sampled_from(["c8", "c16"]), "seed": seeds}), shape=st.sampled_from([(1, 150), (30, 31), (16, 16), (40, 3)]), n=st.integers(40, 600)), quick=90, thorough=600, min_shard=2,
    rule="as peakmaps, with larger cubes; non-trivial as there")(peakmaps)
