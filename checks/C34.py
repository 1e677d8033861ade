"""C34: the results follow the symmetries of the data: the unit of the fluxes, the zero of the polarization angle, the handedness of rotation, the order of the channels, a common Faraday rotation.

Technique: property-based testing: metamorphic relations between a run on generated data and a run on the same data transformed (1D synthesis, CLEAN and bandwidth-depolarisation library; chains of the 1D, cube and Stokes I command lines)
Assurance: exploration of generated inputs, options and transformations; no proof
"""
import json
import os
import tempfile

import numpy as np
from astropy.io import fits as pf
from hypothesis import strategies as st
from matplotlib.figure import Figure

from vlib.clilib import call, serial_pools
from vlib.gen import freq_cases, freqs, l2_of, seeds, wider
from vlib.harness import check, skip, sub

from RMtools_1D import do_RMclean_1D as C1
from RMtools_1D import do_RMsynth_1D as S1
from RMtools_1D import rmtools_bwdepol as B1
from RMtools_3D import RMpeakfit_3D, do_fitIcube, do_RMclean_3D, do_RMsynth_3D, rescale_I_model_3D

ASSUMPTIONS = ["fluxes are scaled by powers of two between 2^-40 and 2^40, so that the data of a scaled run carry no rounding of their own", "the worker processes of Stokes I fitting and rescaling are replaced by a loop in this process"]


def quiet(*a, **k):
    pass


class T:
    """A transformation: of the data (I, Q + iU, errors), and of what is measured on them."""

    def __init__(self, c, r, n):
        self.kind, self.s, self.alpha, self.flip, self.shift, self.perm = c["t"], 1.0, 0.0, False, 0, np.arange(n)
        if self.kind == "scale":
            self.s = 2.0 ** r.choice([-40, -30, -20, -10, -3, 3, 10, 20, 30, 40])
        elif self.kind == "rotate":
            self.alpha = 45.0 * r.randint(1, 4)
        elif self.kind == "mirror":
            self.flip = True
        elif self.kind == "shift":
            self.shift = int(r.choice([-3, -1, 1, 2, 5]))
        elif self.kind == "order":
            self.perm = r.permutation(n) if r.rand() < 0.5 else np.arange(n)[::-1]

    def turn(self, z):
        """exp(2i alpha) z, exactly."""
        return z * {0.0: 1, 45.0: 1j, 90.0: -1, 135.0: -1j}[self.alpha]

    def data(self, f, I, P, dI, dQ, dU, delta=0.0):
        P = self.turn(np.conj(P) if self.flip else P) * np.exp(2j * delta * l2_of(f))[(slice(None),) + (None,) * (P.ndim - 1)] if delta else self.turn(np.conj(P) if self.flip else P)
        if self.alpha in (45.0, 135.0):
            dQ, dU = dU, dQ
        p = self.perm
        return f[p], None if I is None else self.s * I[p], self.s * P[p], None if dI is None else self.s * dI[p], self.s * dQ[p], self.s * dU[p]

    def fdf(self, F):
        """Of a spectrum over symmetric depths (first axis)."""
        return self.s * self.turn(np.conj(F[::-1]) if self.flip else F)


AMP = ["dFDFcorMAD", "ampPeakPIfit", "ampPeakPIfitEff", "dAmpPeakPIfit", "dQU", "dFDFth"]
SAME = ["dPhiPeakPIfit_rm2", "snrPIfit", "dPolAngleFit_deg", "dPolAngle0Fit_deg", "polyOrd", "IfitChiSqRed", "lam0Sq_m2", "freq0_Hz", "fwhmRMSF", "min_freq", "max_freq", "N_channels", "median_channel_width"]


def turned(a, b):
    """Difference of two angles modulo 180 degrees."""
    return abs((a - b + 90) % 180 - 90)


def measured(t, m, k, n, d, what, I=True, tol=3e-4):
    """The measurements k on transformed data against m."""
    a0 = m["phiPeakPIfit_rm2"]
    want = (-a0 if t.flip else a0) + t.shift * d
    ds = d * 3e-3 + 1e-6 * abs(a0)
    check(abs(k["phiPeakPIfit_rm2"] - want) <= ds, lambda: "%s: depth %.6g, %.6g expected" % (what, k["phiPeakPIfit_rm2"], want))
    i0 = m["indxPeakPIfit"]
    want_i = (n - 1 - i0 if t.flip else i0) + t.shift
    if m.get("indxPeakPIfit") is not None:
        check(abs(k["indxPeakPIfit"] - want_i) <= 5e-3 + ds / d, lambda: "%s: position %r, %r expected" % (what, k["indxPeakPIfit"], want_i))
    for x, rot in (("polAngleFit_deg", np.degrees(t.shift * d * m["lam0Sq_m2"])), ("polAngle0Fit_deg", 0.0)):
        want = (-m[x] if t.flip else m[x]) + t.alpha + rot
        slack = 0.02 + np.degrees(2 * ds * m["lam0Sq_m2"])
        check(turned(k[x], want) <= slack and 0 <= k[x] <= 180, lambda: "%s: %s is %.5g, %.5g expected" % (what, x, k[x], want % 180))
    own = not I and (("Ifreq0", 1.0), ("fracPol", t.s)) or (("Ifreq0", t.s), ("fracPol", 1.0))
    for x, y in own:
        if x in m:
            check(abs(k[x] - y * m[x]) <= tol * y * abs(m[x]), lambda: "%s: %s is %r, %r expected" % (what, x, k[x], y * m[x]))
    for x in AMP:
        if x in m and not (x == "dFDFcorMAD" and t.kind not in ("scale", "order")):
            check(abs(k[x] - t.s * m[x]) <= tol * t.s * abs(m[x]) * (10 if "dFDFcor" in x else 1), lambda: "%s: %s is %r, %r expected" % (what, x, k[x], t.s * m[x]))
    for x in SAME:
        if x in m:
            check(k[x] == m[x] or abs(k[x] - m[x]) <= (3e-3 if x == "IfitChiSqRed" else tol) * abs(m[x]) + 1e-9, lambda: "%s: %s is %r, %r expected" % (what, x, k[x], m[x]))
    if not t.shift:
        a, b = ("Q", "U") if t.alpha not in (45.0, 135.0) else ("U", "Q")
        for x, y in (("Q", a), ("U", b), ("C", "C")):
            for z in ("sigmaAdd%s", "dSigmaAddMinus%s", "dSigmaAddPlus%s"):
                if z % y in m:
                    # (the range sampled for Q and U together depends on their signs)
                    loose = x == "C" and t.kind in ("mirror", "rotate")
                    check(abs(k[z % x] - m[z % y]) <= (0.15 if loose else 5e-3) * abs(m[z % y]) + (0.03 if loose else 2e-3), lambda: "%s: %s is %r, %r expected" % (what, z % x, k[z % x], m[z % y]))


def unclear(F):
    """Two samples of about the same height: which of them is the peak is left to rounding."""
    a = np.sort(np.abs(F))
    return a[-2] >= (1 - 3e-4) * a[-1]


base = {"freq": freq_cases(8, 40, kinds=("lin", "gap", "jit", "rand")), "I": st.booleans(), "ord": st.sampled_from([0, 1, 2, -2]), "ff": st.sampled_from(["log", "linear"]), "wt": st.sampled_from(["variance", "uniform"]), "bits": st.sampled_from([32, 64]), "noise": st.sampled_from([0.0, 0.02, 0.2]), "nan": st.booleans(), "comp": st.integers(1, 3), "seed": seeds}


def source(c, r):
    f = freqs(c["freq"])
    n, l2 = len(f), l2_of(f)
    fw = 3.8 / np.ptp(l2)
    d = fw / r.choice([5.0, 8.0, 11.0])
    half = 25 + r.randint(20)
    I = (1 + r.rand()) * (f / f[0]) ** r.uniform(-1, 0.5)
    l20 = l2.mean()
    P = sum((1.0 if not k else 0.4 * r.rand()) * np.exp(2j * (np.pi * r.rand() + r.uniform(-0.7, 0.7) * half * d * (l2 - l20))) for k in range(c["comp"]))
    P = 0.5 * I * P / c["comp"]
    dI, dQ, dU = (max(c["noise"], 0.01) * (0.5 + r.rand(n)) for _ in range(3))
    I = I + min(c["noise"], 0.02) * r.randn(n)
    P = P + c["noise"] * (r.randn(n) + 1j * r.randn(n))
    if c["nan"]:
        P[r.rand(n) < 0.1] = complex(np.nan, np.nan)
    if np.isfinite(P).sum() < 6:
        skip("too few channels")
    return f, I, P, dI, dQ, dU, d, half


def table(c, x):
    f, I, P, dI, dQ, dU = x
    return [f, I, P.real, P.imag, dI, dQ, dU] if c["I"] else [f, P.real, P.imag, dQ, dU]


@sub("synth", st.fixed_dictionaries(dict(base, t=st.sampled_from(["scale", "scale", "rotate", "mirror", "shift", "order"]), sr=st.booleans(), fit=st.booleans(), cut=st.sampled_from([-3.0, -6.0, 0.1]), gain=st.sampled_from([0.1, 0.5]))), quick=400, thorough=10000,
     rule="1D synthesis of generated sources (with or without Stokes I, flags, fits of order 0 to 2, both weightings and precisions, super-resolution): spectrum and every measured quantity transform with the data; RM-CLEAN does, too, where the transformed spectrum is the same to the last bit; non-trivial always")
def synth(c):
    r = np.random.RandomState(c["seed"])
    f, I, P, dI, dQ, dU, d, half = source(c, r)
    t = T(c, r, len(f))
    kw = dict(polyOrd=c["ord"], phiMax_radm2=half * d, dPhi_radm2=d, weightType=c["wt"], fitRMSF=c["fit"], nBits=c["bits"], fit_function=c["ff"], super_resolution=c["sr"], log=quiet)
    if c["sr"] and t.kind == "shift":
        t = T(dict(c, t="rotate"), r, len(f))
    m, a = S1.run_rmsynth(table(c, (f, I, P, dI, dQ, dU)), **kw)
    k, b = S1.run_rmsynth(table(c, t.data(f, I, P, dI, dQ, dU, t.shift * d)), **kw)
    F, G = a["dirtyFDF"], b["dirtyFDF"]
    n = len(F)
    top = int(np.argmax(np.abs(F)))
    if unclear(F) or not 8 <= top <= n - 9:
        skip("no clear peak")
    check(np.array_equal(a["phiArr_radm2"], b["phiArr_radm2"]), "the Faraday depths depend on the fluxes")
    big = t.s * np.abs(F).max()
    if t.shift:
        # the reference wavelength is that of the data: F'(phi) = F(phi - delta) exp(2i delta lam0^2)
        h = t.shift
        x, y = (G[h:], F[:-h]) if h > 0 else (G[:h], F[-h:])
        e = np.abs(x - y * np.exp(2j * h * d * m["lam0Sq_m2"])).max()
    else:
        e = np.abs(G - t.fdf(F)).max()
    check(e <= 1e-4 * big, lambda: "%s: the spectrum is off by %.3g of its maximum" % (t.kind, e / big))
    measured(t, m, k, n, d, t.kind, c["I"])
    if c["I"]:
        p, q = (np.array([float(v) for v in x["polyCoeffs"].split(",")]) for x in (m, k))
        x = f / m["freq0_Hz"]
        ev = np.polyval if c["ff"] == "linear" else lambda v, u: v[-1] * 10 ** np.polyval(np.r_[v[:-1], 0], np.log10(u))
        u, v = ev(p, x) * t.s, ev(q, x)
        check(np.abs(u - v).max() <= 1e-3 * np.abs(u).max(), lambda: "%s: Stokes I model %s, %s before" % (t.kind, q, p))
    if t.kind in ("scale", "rotate") and np.array_equal(G, t.fdf(F)) and np.array_equal(a["RMSFArr"], b["RMSFArr"]):
        cut = c["cut"]
        if cut > 0:
            cut = cut * np.abs(F).max()
        o = dict(maxIter=30, gain=c["gain"], nBits=c["bits"], log=quiet)
        cm, ca = C1.run_rmclean(m, a, cut, **o)
        ck, cb = C1.run_rmclean(k, b, cut if cut < 0 else t.s * cut, **o)
        for z in ("cleanFDF", "ccArr", "residFDF"):
            if z in ca:
                u, v = np.asarray(ca[z]), np.asarray(cb[z])
                check(np.abs(v - t.fdf(u)).max() <= 1e-5 * big, lambda: "%s: %s after RM-CLEAN is off by %.3g of the peak" % (t.kind, z, np.abs(v - t.fdf(u)).max() / big))
        check(cm["nIter"] == ck["nIter"], lambda: "%s: %r iterations instead of %r" % (t.kind, ck["nIter"], cm["nIter"]))
        check(abs(ck["cleanCutoff"] - t.s * cm["cleanCutoff"]) <= 1e-5 * t.s * abs(cm["cleanCutoff"]), lambda: "%s: cutoff %r, %r expected" % (t.kind, ck["cleanCutoff"], t.s * cm["cleanCutoff"]))
        u = np.asarray(ca["cleanFDF"])
        w = int(np.argmax(np.abs(u)))
        if not unclear(u) and 8 <= w <= n - 9:
            measured(t, dict(cm, lam0Sq_m2=m["lam0Sq_m2"]), dict(ck, lam0Sq_m2=k["lam0Sq_m2"]), n, d, "%s, after RM-CLEAN" % t.kind, c["I"])
    return True


@sub("bwdepol", st.fixed_dictionaries(dict(base, t=st.sampled_from(["scale", "rotate", "rotate", "mirror"]))), quick=150, thorough=3000,
     rule="likewise the synthesis with bandwidth depolarisation; non-trivial always")
def bwdepol(c):
    r = np.random.RandomState(c["seed"])
    f, I, P, dI, dQ, dU, d, half = source(c, r)
    o = np.argsort(f)
    f, I, P, dI, dQ, dU = f[o], I[o], P[o], dI[o], dQ[o], dU[o]
    half = min(half, 30)
    t = T(c, r, len(f))
    kw = dict(polyOrd=c["ord"], phiMax_radm2=half * d, dPhi_radm2=d, weightType=c["wt"], fitRMSF=False, nBits=c["bits"], log=quiet)
    dt = "f4" if c["bits"] == 32 else "f8"  # (as the tool reads them)
    m, a = B1.run_adjoint_rmsynth(np.array(table(c, (f, I, P, dI, dQ, dU)), dt), **kw)
    k, b = B1.run_adjoint_rmsynth(np.array(table(c, t.data(f, I, P, dI, dQ, dU)), dt), **kw)
    F, G = a["dirtyFDF"], b["dirtyFDF"]
    if unclear(F) or not 8 <= int(np.argmax(np.abs(F))) <= len(F) - 9:
        skip("no clear peak")
    big = t.s * np.abs(F).max()
    e = np.abs(G - t.fdf(F)).max()
    check(e <= 1e-4 * big, lambda: "%s: the spectrum is off by %.3g of its maximum" % (t.kind, e / big))
    measured(t, m, k, len(F), d, t.kind, c["I"])
    return True


@sub("files", st.fixed_dictionaries(dict(base, t=st.sampled_from(["scale", "rotate"]), cut=st.sampled_from([-3.0, 0.1]))), quick=100, thorough=3000, timeout=120,
     rule="likewise the files of rmsynth1d and rmclean1d; non-trivial always")
def files(c):
    r = np.random.RandomState(c["seed"])
    f, I, P, dI, dQ, dU, d, half = source(c, r)
    t = T(c, r, len(f))
    o = ["-l", half * d, "-d", d, "-S", "-o", c["ord"], "-w", c["wt"], "-f", c["ff"]] + (["-b"] if c["bits"] == 64 else [])
    out = []
    with tempfile.TemporaryDirectory() as w:
        cut = c["cut"]
        for name, x in (("a", T(dict(c, t="none"), r, len(f))), ("b", t)):
            p = os.path.join(w, name)
            np.savetxt(p + ".dat", np.array(table(c, x.data(f, I, P, dI, dQ, dU))).T)
            why = []
            if name == "b" and cut > 0:
                cut = cut * t.s
            draw, Figure.savefig = Figure.savefig, quiet
            ok = call(S1, [p + ".dat"] + o, why)
            if ok and name == "a" and cut > 0:
                cut = cut * json.load(open(p + "_RMsynth.json"))["ampPeakPIfit"]
            ok = ok and call(C1, [p + ".dat", "-c", repr(float(cut)), "-n", 20, "-S"], why)
            Figure.savefig = draw
            check(ok, lambda: "refused: %s" % why)
            z = {k: np.loadtxt(p + k) for k in ("_FDFdirty.dat", "_FDFclean.dat", "_FDFmodel.dat", "_RMSF.dat")}
            out.append((json.load(open(p + "_RMsynth.json")), json.load(open(p + "_RMclean.json")), z))
    (m, cm, a), (k, ck, b) = out
    cx = lambda z: z[:, 1] + 1j * z[:, 2]
    F, G = cx(a["_FDFdirty.dat"]), cx(b["_FDFdirty.dat"])
    n = len(F)
    if unclear(F) or not 8 <= int(np.argmax(np.abs(F))) <= n - 9:
        skip("no clear peak")
    big = t.s * np.abs(F).max()
    check(np.abs(cx(a["_RMSF.dat"]) - cx(b["_RMSF.dat"])).max() <= 1e-4 and np.allclose(a["_FDFdirty.dat"][:, 0], b["_FDFdirty.dat"][:, 0]), "the RMSF or the depths depend on the fluxes")
    e = np.abs(G - t.fdf(F)).max()
    check(e <= 2e-4 * big, lambda: "%s: the saved spectrum is off by %.3g of its maximum" % (t.kind, e / big))
    measured(t, m, k, n, d, t.kind, c["I"])
    if np.array_equal(G, t.fdf(F)):
        for z in ("_FDFclean.dat", "_FDFmodel.dat"):
            e = np.abs(cx(b[z]) - t.fdf(cx(a[z]))).max()
            check(e <= 2e-4 * big, lambda: "%s: %s is off by %.3g of the peak" % (t.kind, z, e / big))
        u = cx(a["_FDFclean.dat"])
        if not unclear(u) and 8 <= int(np.argmax(np.abs(u))) <= n - 9:
            measured(t, dict(cm, lam0Sq_m2=m["lam0Sq_m2"]), dict(ck, lam0Sq_m2=k["lam0Sq_m2"]), n, d, "%s, after RM-CLEAN" % t.kind, c["I"])
    return True


def cube(f, a):
    h = pf.Header()
    for i, (k, v, d) in enumerate((("RA---SIN", 30.0, -0.01), ("DEC--SIN", -20.0, 0.01), ("FREQ", f[0], f[1] - f[0])), 1):
        h["CTYPE%d" % i], h["CRVAL%d" % i], h["CRPIX%d" % i], h["CDELT%d" % i] = k, v, 1.0, d
    return pf.PrimaryHDU(np.asarray(a, "f4"), h)


def maps(w):
    """All images in a folder."""
    return {x[:-5] + (str(i) if i else ""): np.asarray(h.data, float) for x in sorted(os.listdir(w)) if x.endswith(".fits") for i, h in enumerate(pf.open(os.path.join(w, x))) if h.data is not None and h.data.dtype.names is None}


cubes_case = {"n": st.integers(10, 24), "nx": st.integers(1, 4), "ny": st.integers(1, 4), "I": st.booleans(), "nz": st.booleans(), "wt": st.booleans(), "noise": st.sampled_from([0.01, 0.1]), "nan": st.booleans(), "seed": seeds}


def images(c, r):
    n, sh = c["n"], (c["ny"], c["nx"])
    f = r.choice([0.7e9, 1.0e9, 1.4e9]) * np.linspace(1, 1.6, n)
    l2 = l2_of(f)
    d = 3.8 / np.ptp(l2) / 6
    half = 24
    I = (1 + r.rand(*sh)) * (f / f[0])[:, None, None] ** r.uniform(-1, 0.5, sh)
    P = 0.5 * I * np.exp(2j * (np.pi * r.rand(*sh) + r.uniform(-0.6, 0.6, sh) * half * d * (l2 - l2.mean())[:, None, None]))
    P = P + c["noise"] * (r.randn(n, *sh) + 1j * r.randn(n, *sh))
    I = I + 0.01 * r.randn(n, *sh)
    if c["nan"]:
        P[r.randint(n)] = complex(np.nan, np.nan)
        P[:, r.randint(sh[0]), r.randint(sh[1])] = complex(np.nan, np.nan)
    return f, l2, d, half, I, P, c["noise"] * (0.5 + r.rand(n))


@sub("cubes", st.fixed_dictionaries(dict(cubes_case, t=st.sampled_from(["scale", "scale", "rotate", "mirror"]), cut=st.sampled_from([0.1, 0.2]))), quick=110, thorough=3000, timeout=120,
     rule="likewise rmsynth3d (Stokes I cube, noise file, weighting), rmclean3d and rmtools_peakfitcube: every image of every product transforms with the cubes (RM-CLEAN: scaled or rotated only); non-trivial with a pixel that has data")
def cubes(c):
    r = np.random.RandomState(c["seed"])
    f, l2, d, half, I, P, nz = images(c, r)
    t = T(c, r, len(f))
    res = []
    with tempfile.TemporaryDirectory() as w:
        for name, x in (("a", T(dict(c, t="none"), r, len(f))), ("b", t)):
            q = os.path.join(w, name)
            os.makedirs(q)
            f1, I1, P1, _, e1, _ = x.data(f, I, P, None, nz, nz)
            p = {k: os.path.join(w, name + k) for k in ("Q.fits", "U.fits", "I.fits", "n.dat", "f.dat")}
            cube(f, P1.real).writeto(p["Q.fits"])
            cube(f, P1.imag).writeto(p["U.fits"])
            cube(f, I1).writeto(p["I.fits"])
            np.savetxt(p["f.dat"], f1)
            np.savetxt(p["n.dat"], e1)
            extra = (["-i", p["I.fits"]] if c["I"] else []) + (["-n", p["n.dat"]] if c["nz"] else []) + (["-w", "variance"] if c["nz"] and c["wt"] else [])
            why = []
            ok = call(do_RMsynth_3D, [p["Q.fits"], p["U.fits"], p["f.dat"], "-l", half * d, "-d", d, "-o", os.path.join(name, "")] + extra, why)
            if ok and t.kind != "mirror":
                ok = call(do_RMclean_3D, [os.path.join(q, "FDF_tot_dirty.fits"), os.path.join(q, "RMSF_tot.fits"), "-c", repr(c["cut"] * x.s), "-n", 10], why)
            if ok:
                ok = call(RMpeakfit_3D, [os.path.join(q, "FDF_tot_dirty.fits"), p["f.dat"], os.path.join(q, "pk_"), "-a"] + extra, why)
            check(ok, lambda: "%s: refused: %s" % (name, why))
            res.append(maps(q))
    a, b = res
    check(sorted(a) == sorted(b), lambda: "%s: products %s" % (t.kind, sorted(set(a) ^ set(b))))
    dirty = a["FDF_real_dirty"] + 1j * a["FDF_im_dirty"]
    A = np.abs(dirty)
    with np.errstate(all="ignore"):
        top = np.argmax(np.nan_to_num(A), 0)
        srt = np.sort(np.nan_to_num(A), 0)
        good = (srt[-1] > 0) & (srt[-2] < (1 - 3e-4) * srt[-1]) & (top >= 8) & (top <= len(A) - 9)
    big = t.s * srt[-1].max()
    if not good.any():
        skip("no clear peak")
    same = True

    def near(k, want, tol, rows=None):
        g = b[k]
        check(g.shape == want.shape and np.array_equal(np.isnan(g), np.isnan(want)), lambda: "%s: shape or blanks of %s" % (t.kind, k))
        with np.errstate(all="ignore"):
            e = np.where(np.isnan(want), 0, np.abs(g - want))
            e = e if rows is None else np.where(rows, e, 0)
        check(np.all((e <= tol) | np.isnan(want)), lambda: "%s: %s is off by %.4g (%.6g, %.6g expected)" % (t.kind, k, e.max(), g.ravel()[e.argmax()], want.ravel()[e.argmax()]))

    for x in ("FDF_%s_dirty", "FDF_clean_%s", "FDF_CC_%s"):
        if x % "real" not in a:
            continue
        u = t.fdf(a[x % "real"] + 1j * a[x % "im"])
        v = b[x % "real"] + 1j * b[x % "im"]
        if x != "FDF_%s_dirty" and not same:
            continue
        if x == "FDF_%s_dirty":
            same = np.array_equal(np.nan_to_num(u), np.nan_to_num(v))
        tol = 1e-4 * big
        near(x % "real", u.real, tol)
        near(x % "im", u.imag, tol)
        near(x % "tot", np.abs(u), tol)
    for x in ("RMSF_real", "RMSF_im", "RMSF_tot"):
        near(x, a[x], 1e-4)
    near("RMSF_FWHM", a["RMSF_FWHM"], 1e-4 * np.nanmax(a["RMSF_FWHM"]))
    if "CLEAN_nIter" in a and same:
        near("CLEAN_nIter", a["CLEAN_nIter"], 0)
    near("FDF_maxPI", t.s * a["FDF_maxPI"], 1e-4 * big)
    near("FDF_peakRM", -a["FDF_peakRM"] if t.flip else a["FDF_peakRM"], 1e-3 * d, good)
    pk = {k[3:]: k for k in a if k.startswith("pk_")}
    sg = -1 if t.flip else 1
    for x in ("phiPeakPIfit_rm2",):
        near(pk[x], sg * a[pk[x]], 3e-3 * d, good)
    for x in ("ampPeakPIfit", "ampPeakPIfitEff", "dAmpPeakPIfit", "Ifreq0", "dFDFth", "dFDFcorMAD"):
        if x in pk and not (x == "Ifreq0" and not c["I"]) and not (t.kind in ("mirror", "rotate") and not c["nz"] and x != "ampPeakPIfit") and not (x == "dFDFcorMAD" and t.kind in ("mirror", "rotate")):
            near(pk[x], t.s * a[pk[x]], 1e-3 * t.s * np.abs(a[pk[x]]) + 1e-6 * big, good)
    for x in ("polAngleFit_deg", "polAngle0Fit_deg"):
        g, want = b[pk[x]], sg * a[pk[x]] + t.alpha
        slack = 0.02 + np.degrees(2 * 3e-3 * d * l2.max())
        e = np.where(good, np.abs((g - want + 90) % 180 - 90), 0)
        check(np.nanmax(e) <= slack, lambda: "%s: %s is off by %.3g degrees" % (t.kind, x, np.nanmax(e)))
    if c["nz"] or t.kind == "scale":
        for x in ("snrPIfit", "dPhiPeakPIfit_rm2", "dPolAngleFit_deg", "dPolAngle0Fit_deg"):
            near(pk[x], a[pk[x]], 1e-3 * np.abs(a[pk[x]]) + 1e-9, good)
    if "fracPol" in pk and (c["nz"] or t.kind == "scale"):
        near(pk["fracPol"], a[pk["fracPol"]] * (1 if c["I"] else t.s), 1e-3 * np.abs(a[pk["fracPol"]]) * (1 if c["I"] else t.s), good)
    return True


@sub("icube", st.fixed_dictionaries(dict(cubes_case, ord=st.sampled_from([0, 1, 2, -2]), ff=st.sampled_from(["log", "linear"]), thr=st.sampled_from([-3, 0.5]))), quick=100, thorough=2000, timeout=120,
     rule="rmtools_fitIcube and rmtools_3DIrescale on a cube in other units: coefficients, errors, covariances, models and noises scale; non-trivial always")
def icube(c):
    r = np.random.RandomState(c["seed"])
    f, l2, d, half, I, P, nz = images(c, r)
    t = T(dict(c, t="scale"), r, len(f))
    res = []
    with serial_pools(do_fitIcube, rescale_I_model_3D):
        with tempfile.TemporaryDirectory() as w:
            for name, s in (("a", 1.0), ("b", t.s)):
                q = os.path.join(w, name)
                os.makedirs(q)
                cube(f, I * s).writeto(os.path.join(q, "I.fits"))
                thr = c["thr"] if c["thr"] < 0 else c["thr"] * s
                why = []
                ok = call(do_fitIcube, [os.path.join(q, "I.fits"), "-p", c["ord"], "-f", c["ff"], "-t", repr(thr), "-o", ""], why)
                ok = ok and call(rescale_I_model_3D.command_line, [os.path.join(q, "covariance.fits"), "-f", float(f.mean()), "-w", "-o", os.path.join(q, "new_")], why)
                check(ok, lambda: "%s: refused: %s" % (name, why))
                os.remove(os.path.join(q, "I.fits"))
                res.append(maps(q))
    a, b = res
    check(sorted(a) == sorted(b), lambda: "products %s" % sorted(set(a) ^ set(b)))
    for k in a:
        u, v = a[k], b[k]
        stem = k[len("new_"):].removeprefix("new") if k.startswith("new_") else k
        check(u.shape == v.shape and np.array_equal(np.isnan(u), np.isnan(v)), lambda: "shape or blanks of %s" % k)
        if stem in ("mask", "reffreq"):
            want, tol = u, 1e-6 * np.abs(u)
        elif stem == "covariance":
            w = np.full(6, t.s if c["ff"] == "linear" else 1.0)
            w[5] = t.s
            w = w[:, None] * w
            want = u * w[:, :, None, None]
            e = np.sqrt(np.abs(np.einsum("iiyx->iyx", want)))
            tol = 1e-2 * e[:, None] * e
        else:
            want = u * (t.s if c["ff"] == "linear" or stem in ("coeff0", "coeff0err", "model.i", "noise") else 1.0)
            tol = 2e-3 * np.abs(want)
            if stem.startswith("coeff") and k[-3:] != "err":
                tol = tol + 1e-2 * np.abs(b.get(k + "err", 0))
        ok = (np.abs(v - want) <= tol) | np.isnan(want)
        check(ok.all(), lambda: "%s: %r, %r expected, for fluxes times %g" % (k, v[~ok][0], want[~ok][0], t.s))
    return bool(np.isfinite(a["coeff0"]).any())


# the same at the size of survey data
sub("synth_large", wider(st.fixed_dictionaries(dict(base, t=st.sampled_from(["scale", "rotate", "mirror", "shift", "order"]), sr=st.booleans(), fit=st.booleans(), cut=st.sampled_from([-3.0, -6.0, 0.1]), gain=st.sampled_from([0.1, 0.5]))), freq=freq_cases(100, 300, kinds=("lin", "gap", "jit", "rand"))), quick=24, thorough=300, min_shard=2,
    rule="as synth, with hundreds of channels; non-trivial as there")(synth)
sub("cubes_large", wider(st.fixed_dictionaries(dict(cubes_case, t=st.sampled_from(["scale", "rotate", "mirror"]), cut=st.sampled_from([0.1, 0.2]))), n=st.integers(30, 80), nx=st.integers(5, 9), ny=st.integers(5, 9)), quick=8, thorough=200, min_shard=1, timeout=140,
    rule="as cubes, with larger cubes; non-trivial as there")(cubes)
