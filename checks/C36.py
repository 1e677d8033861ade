"""C36: the figures show the data, the models and the results they are labelled with.

Technique: property-based testing: the 1D tools and their plotting functions run on generated spectra, and the curves, points, error bars and lines of the figures they make are compared with the data and with the returned results
Assurance: exploration of generated spectra and options; no proof
"""
import contextlib
import json
import logging
import os
import tempfile

import matplotlib

matplotlib.use("Agg")
import bilby
import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st
from matplotlib.container import ErrorbarContainer

from vlib import qulib
from vlib.cubelib import quiet
from vlib.gen import freq_cases, freqs, l2_of, seeds
from vlib.harness import check, sub
from vlib.ref import gauss

from RMtools_1D import do_QUfit_1D_mnest, do_RMclean_1D, do_RMsynth_1D, rmtools_bwdepol
from RMutils import util_plotTk as T
from RMutils.util_misc import calculate_StokesI_model, create_frac_spectra
from RMutils.util_RM import measure_qu_complexity

logging.getLogger("bilby").setLevel(logging.ERROR)
ASSUMPTIONS = ["figures are judged by the data of their curves, points, error bars and axis limits, not by their pixels"]


@contextlib.contextmanager
def shown(write=True):
    """Figures are recorded when they are shown or saved."""
    plt.close("all")
    seen, old, save, fshow = [], plt.show, matplotlib.figure.Figure.savefig, matplotlib.figure.Figure.show
    files = {}

    def record(self, name, *a, **k):
        files[os.path.basename(str(name))] = self
        if write:
            return save(self, name, *a, **k)
        open(name, "wb").close()

    plt.show = lambda *a, **k: seen.extend(plt.figure(i) for i in plt.get_fignums())
    matplotlib.figure.Figure.savefig = record
    matplotlib.figure.Figure.show = lambda self, *a, **k: seen.append(self)
    try:
        yield seen, files
    finally:
        plt.show, matplotlib.figure.Figure.savefig, matplotlib.figure.Figure.show = old, save, fshow
        plt.close("all")


def nums(a):
    return np.ma.filled(np.ma.asarray(a, dtype=float), np.nan).ravel()


def same(a, b, tol=1e-6):
    a, b = nums(a), nums(b)
    if a.shape != b.shape or not np.array_equal(np.isfinite(a), np.isfinite(b)):
        return False
    ok = np.isfinite(a)
    return bool(np.all(np.abs(a[ok] - b[ok]) <= tol * (np.abs(b[ok]).max() if ok.any() else 0) + 1e-30))


def bars(cont, i):
    """Ends of the error bars of one direction (1: y, 0: x); None where none is drawn."""
    out = []
    for col in cont[2]:
        g = [np.asarray(s, float) for s in col.get_segments()]
        g = [s if s.shape == (2, 2) and np.isfinite(s).all() else None for s in g]
        if all(s is None or s[0, 1 - i] == s[1, 1 - i] for s in g):
            out.append(g)
    return out


def curve(axs, x, y, what, label=None, err=None, tol=1e-6, xerr=None):
    """One of the axes has a curve or points with these data."""
    for ax in axs:
        for c in ax.containers:
            if isinstance(c, ErrorbarContainer) and (label is None or c.get_label() == label) and c[0] is not None and same(c[0].get_xdata(), x, tol) and same(c[0].get_ydata(), y, tol):
                good = True
                for i, e, v in ((1, err, y), (0, xerr, x)):
                    if e is not None:
                        fin = np.isfinite(nums(x)) & np.isfinite(nums(y)) & np.isfinite(nums(e))
                        good &= any(len(g) == len(fin) and all(s is not None and abs(abs(s[1, i] - s[0, i]) / 2 - k) <= 1e-5 * (k + abs(z)) for s, k, z, f in zip(g, nums(e), nums(v), fin) if f) for g in bars(c, i))
                if good:
                    return ax
        if err is None and xerr is None:
            for l in ax.lines:
                if (label is None or l.get_label() == label) and same(l.get_xdata(), x, tol) and same(l.get_ydata(), y, tol):
                    return ax
    check(False, "the figure does not show %s" % what)


def inside(ax, x, y, what, fill=True):
    """The axes are wide enough for the data."""
    (a, b), (c, d) = sorted(ax.get_xlim()), sorted(ax.get_ylim())
    x, y = nums(x), nums(y)
    ok = np.isfinite(x) & np.isfinite(y)
    z = x[np.isfinite(x)]
    check(not fill or np.ptp(z) >= 0.3 * (b - a), lambda: "the axes, from %.4g to %.4g, are much wider than %s, from %.4g to %.4g" % (a, b, what, z.min(), z.max()))
    check(np.all((x[ok] >= a) & (x[ok] <= b) & (y[ok] >= c) & (y[ok] <= d)), lambda: "the axes cut off %s" % what)


def apart(fig):
    """The panels of a figure do not lie on each other."""
    p = [ax.get_position() for ax in fig.axes]
    for i in range(len(p)):
        for k in range(i):
            w = min(p[i].x1, p[k].x1) - max(p[i].x0, p[k].x0)
            h = min(p[i].y1, p[k].y1) - max(p[i].y0, p[k].y0)
            check(w < 0.02 or h < 0.02, "two panels of the figure lie on each other")


def spectrum(c, r):
    f = freqs(c["f"])
    n = len(f)
    l2 = l2_of(f)
    x = f / f.mean()
    i = c["unit"] * 2.0 * x ** (-0.7 + 0.3 * r.randn())
    rm = r.uniform(-1, 1) * 1.5 / (np.ptp(l2) + 1e-9)
    p = 0.4 * np.exp(2j * (r.uniform(-1.5, 1.5) + rm * l2))
    s = 10.0 ** r.uniform(-2.3, -1) * c["unit"]
    d = [f, i + 0.3 * s * r.randn(n), p.real * i + s * r.randn(n), p.imag * i + s * r.randn(n), 0.3 * s * r.uniform(0.5, 2, n), s * r.uniform(0.5, 2, n), s * r.uniform(0.5, 2, n)]
    if c["nan"] and n > 8:
        k = r.permutation(n)[:2]
        for j in (1, 2, 3, 4, 5, 6) if c["nan"] == "all" else (2, 3):
            d[j][k] = np.nan
    return d


def spectra_fig(fig, d, frac, hir, units, tol):
    """The figure of the data: I over frequency, q and u over wavelength, angles, u over q."""
    f, i, _, _, di = d[:5]
    imod, q, u, dq, du, fit = frac
    axs, l2 = fig.axes, l2_of(f)
    apart(fig)
    ax = curve(axs, f / 1e9, i, "Stokes I", "Stokes I", np.abs(di), tol)
    inside(ax, f / 1e9, i, "Stokes I")
    check(units in ax.get_ylabel(), lambda: "unit %r missing in %r" % (units, ax.get_ylabel()))
    if hir is not None:
        got = [l for l in ax.lines if l.get_label() == "I Model"]
        check(len(got) == 1, "the Stokes I model is not shown")
        x, y = nums(got[0].get_xdata()) * 1e9, nums(got[0].get_ydata())
        check(x.min() <= f.min() * (1 + 1e-6) and x.max() >= f.max() * (1 - 1e-6) or c_unsorted(f), "the Stokes I model does not cover the band")
        check(same(y, hir(x), 1e-4), "the Stokes I model shown is not the model")
    ax = curve(axs, l2, q, "Stokes q", "Stokes q", np.abs(dq), tol)
    inside(ax, l2, q, "Stokes q")
    inside(curve(axs, l2, u, "Stokes u", "Stokes u", np.abs(du), tol), l2, u, "Stokes u")
    p = np.hypot(q, u)
    inside(curve(axs, l2, p, "the polarised fraction", "Intensity p", np.hypot(dq, du), tol), l2, p, "the polarised fraction")
    psi = np.degrees(np.arctan2(u, q)) / 2
    dpsi = np.degrees(np.hypot(q * du, u * dq) / (2 * p**2))
    inside(curve(axs, l2, psi, "the polarisation angles", None, dpsi, tol), l2, psi, "angles")
    inside(curve(axs, q, u, "u over q", None, np.abs(du), tol, np.abs(dq)), q, u, "u over q", False)


def c_unsorted(f):
    return not (np.all(np.diff(f) > 0) or np.all(np.diff(f) < 0))


def fdf_fig(fig, phi, fdf, phi2, rmsf, peak, units, tol=1e-6, fwhm=None):
    apart(fig)
    a = curve(fig.axes, phi2, np.abs(rmsf), "the RMSF", "PI", tol=tol)
    b = curve(fig.axes, phi, np.abs(fdf), "the FDF", "PI", tol=tol)
    for ax, x, y, w in ((a, phi2, rmsf, "RMSF"), (b, phi, fdf, "FDF")):
        curve([ax], x, y.real, "the real part of the " + w, "Real", tol=tol)
        curve([ax], x, y.imag, "the imaginary part of the " + w, "Imaginary", tol=tol)
    inside(b, phi, np.abs(fdf), "the FDF")
    if fwhm is not None:
        curve([a], phi2, gauss(phi2, 0.0, fwhm), "the Gaussian of the RMSF", "Gaussian", tol=max(tol, 1e-4))
    check(units in b.get_ylabel(), lambda: "unit %r missing in %r" % (units, b.get_ylabel()))
    v = [l for l in b.lines if len(nums(l.get_xdata())) == 2 and np.ptp(nums(l.get_xdata())) == 0]
    check(any(abs(nums(l.get_xdata())[0] - peak) <= 1e-4 * abs(peak) + 1e-6 for l in v), lambda: "the peak at %.6g is not marked" % peak)


gen = {"f": freq_cases(6, 50, ("lin", "gap", "jit", "desc")), "seed": seeds, "unit": st.sampled_from([1.0, 1.0, 1e-3, 1e3]), "nan": st.sampled_from([None, None, "qu", "all"]), "order": st.integers(0, 3), "fit": st.sampled_from(["log", "linear"]), "i": st.sampled_from(["fit", "fit", "none5", "model"]), "bits": st.sampled_from([32, 64]), "how": st.sampled_from(["show", "save", "both"]), "units": st.sampled_from(["Jy/beam", "mJy", "K"])}


@sub("tools", st.fixed_dictionaries(dict(gen, window=st.sampled_from([None, 1.5, 3.0]), cut=st.sampled_from([-8.0, -3.0, 0.1]))), quick=90, thorough=1200, timeout=240,
     rule="RM synthesis and RM-CLEAN in 1D of generated spectra (flagged channels, units, models of Stokes I), figures shown, saved or both: every figure has the data with error bars, the model and the spectra that were returned; non-trivial with more than one clean component")
def tools(c):
    r = np.random.RandomState(c["seed"])
    d = spectrum(c, r)
    f = d[0]
    kw = {"polyOrd": c["order"], "fit_function": c["fit"], "nBits": c["bits"], "units": c["units"], "log": quiet, "weightType": "uniform", "nSamples": 6.0, "phiMax_radm2": 12.0 / (np.ptp(l2_of(f)) + 1e-9)}
    data = [x.astype("f%d" % (c["bits"] // 8)) for x in d]
    if c["i"] == "none5":
        data = [data[0]] + [data[j] for j in (2, 3, 5, 6)]
    elif c["i"] == "model":
        kw["modStokesI"] = (c["unit"] * (1.5 + (f - f.mean()) / f.mean())).astype(data[0].dtype)
    tol = 1e-6 if c["bits"] == 64 else 3e-5
    flags = {"showPlots": c["how"] != "save", "saveFigures": c["how"] != "show"}
    with tempfile.TemporaryDirectory() as t:
        pre = os.path.join(t, "a")
        with shown() as (seen, files):
            m, a = do_RMsynth_1D.run_rmsynth([x.copy() for x in data], prefixOut=pre, **kw, **flags)
            fr = data
            if c["i"] == "none5":
                one = np.ones_like(data[1])
                fr = [data[0], one, data[1], data[2], 0 * one, data[3], data[4]]
            frac = create_frac_spectra(freqArr=fr[0], IArr=fr[1], QArr=fr[2], UArr=fr[3], dIArr=fr[4], dQArr=fr[5], dUArr=fr[6], polyOrd=c["order"], fit_function=c["fit"], modStokesI=kw.get("modStokesI"))
            hir = (lambda x: calculate_StokesI_model(frac[5], x)) if c["i"] != "model" else (lambda x: c["unit"] * (1.5 + (x - f.mean()) / f.mean()))
            d = [np.asarray(x, float) for x in fr]
            d[0] = data[0].astype(float)
            sets = []
            if flags["showPlots"]:
                check(len(seen) == 2, lambda: "%d figures shown" % len(seen))
                sets.append(seen)
            if flags["saveFigures"]:
                check(sorted(files) == ["a_RMSF-dirtyFDF-plots.pdf", "a_spectra-plots.pdf"] and sorted(os.listdir(t)) == sorted(files), lambda: "figures saved as %s" % sorted(files))
                sets.append([files["a_spectra-plots.pdf"], files["a_RMSF-dirtyFDF-plots.pdf"]])
            F, R = np.asarray(a["dirtyFDF"]), np.asarray(a["RMSFArr"])
            for s in sets:
                spectra_fig(s[0], d, frac, hir, c["units"], tol)
                fdf_fig(s[1], a["phiArr_radm2"], F, a["phi2Arr_radm2"], R, m["phiPeakPIfit_rm2"], c["units"], tol, m["fwhmRMSF"])
        m["units"] = c["units"]
        cut = c["cut"] if c["cut"] < 0 else c["cut"] * np.nanmax(np.abs(F))
        k = {} if c["window"] is None else {"window": cut * 0.5 if cut > 0 else -c["window"]}
        for x in os.listdir(t):
            os.remove(os.path.join(t, x))
        with shown() as (seen, files):
            mc, ac = do_RMclean_1D.run_rmclean(m, a, cut, maxIter=200, nBits=c["bits"], prefixOut=pre, log=quiet, **flags, **k)
            sets = []
            if flags["showPlots"]:
                check(len(seen) == 1, lambda: "%d figures of RM-CLEAN shown" % len(seen))
                sets.append(seen[0])
            if flags["saveFigures"]:
                check(sorted(files) == ["a_cleanFDF-plots.pdf"] and os.listdir(t) == ["a_cleanFDF-plots.pdf"], lambda: "figures saved as %s" % sorted(files))
                sets.append(files["a_cleanFDF-plots.pdf"])
            phi = ac["phiArr_radm2"]
            for g in sets:
                apart(g)
                for x, n in ((F, "Dirty FDF"), (ac["ccArr"], "Clean Components"), (ac["residFDF"], "Residual FDF"), (ac["cleanFDF"], "Clean FDF")):
                    y = np.abs(np.squeeze(x))
                    ax = curve(g.axes, phi, y, n, n, tol=tol)
                    inside(ax, phi, y, n)
                    check(c["units"] in ax.get_ylabel(), lambda: "unit %r missing in %r" % (c["units"], ax.get_ylabel()))
                    for x2 in g.axes:
                        for l in x2.lines:
                            check(l.get_label() != n or same(l.get_xdata(), phi, tol) and same(l.get_ydata(), y, tol), lambda: "a panel shows something else as " + n)
                want = cut if cut > 0 else -cut * m["dFDFth"]
                marks = [nums(l.get_ydata()) for x in g.axes for l in x.lines if l.get_label() == "Clean cutoff"]
                check(marks and np.allclose(marks, want, rtol=1e-4, atol=0), lambda: "the cutoff %.4g is not shown" % want)
                if k:
                    w = k["window"]
                    w = w if w > 0 else -w * m["dFDFth"]
                    marks = [nums(l.get_ydata()) for x in g.axes for l in x.lines if l.get_label() == "Window cutoff"]
                    check(marks and np.allclose(marks, w, rtol=1e-4, atol=0), lambda: "the window threshold %.4g is not shown" % w)
    return np.count_nonzero(np.asarray(ac["ccArr"])) > 1


@sub("depolarised", st.fixed_dictionaries({**{k: gen[k] for k in ("seed", "unit", "units", "order")}, "n": st.integers(8, 30), "f0": st.sampled_from([0.3e9, 0.9e9, 1.4e9]), "rel": st.sampled_from([0.1, 0.3]), "noi": st.booleans(), "rm": st.floats(-1, 1)}), quick=60, thorough=800, timeout=240,
     rule="RM synthesis corrected for bandwidth depolarisation with figures: data, corrected spectrum, RMSF around the peak, sensitivity; non-trivial with Stokes I")
def depolarised(c):
    r = np.random.RandomState(c["seed"])
    f = c["f0"] * np.linspace(1, 1 + c["rel"], c["n"])
    l2 = l2_of(f)
    i = c["unit"] * 2.0 * (f / f[0]) ** -0.7
    rm = c["rm"] * 2 / np.ptp(l2)
    p = 0.4 * np.exp(2j * (0.5 + rm * l2))
    s = 0.02 * c["unit"]
    n = len(f)
    d = [f, i + 0.3 * s * r.randn(n), p.real * i + s * r.randn(n), p.imag * i + s * r.randn(n), np.full(n, 0.3 * s), s * r.uniform(0.5, 2, n), s * r.uniform(0.5, 2, n)]
    if c["noi"]:
        d[2], d[3], d[5], d[6] = (d[j] / i for j in (2, 3, 5, 6))
        data = [d[0], d[2], d[3], d[5], d[6]]
        d[1], d[4] = np.ones(n), np.zeros(n)
    else:
        data = d
    with shown() as (seen, files), contextlib.redirect_stdout(None):
        m, a = rmtools_bwdepol.run_adjoint_rmsynth([x.copy() for x in data], polyOrd=c["order"], phiMax_radm2=12 / np.ptp(l2), nSamples=6.0, showPlots=True, units=c["units"], log=quiet, noStokesI=c["noi"])
        frac = create_frac_spectra(freqArr=d[0], IArr=d[1], QArr=d[2], UArr=d[3], dIArr=d[4], dQArr=d[5], dUArr=d[6], polyOrd=c["order"])
        check(len(seen) == 3, lambda: "%d figures shown" % len(seen))
        spectra_fig(seen[0], d, frac, lambda x: calculate_StokesI_model(frac[5], x), c["units"], 1e-6)
        F, R, phi = np.asarray(a["dirtyFDF"]), np.asarray(a["RMSFArr"]), a["phiArr_radm2"]
        g = [l for x in seen[2].axes for l in x.lines if l.get_label() == "Gaussian"]
        check(len(g) == 1, "the Gaussian of the RMSF is not shown")
        gx, gy = nums(g[0].get_xdata()), nums(g[0].get_ydata())
        top = gx[np.argmax(gy)]
        check(abs(top - m["phiPeakPIfit_rm2"]) <= m["fwhmRMSF"] / 2, lambda: "the RMSF is drawn around %.4g, the peak is at %.4g" % (top, m["phiPeakPIfit_rm2"]))
        ok = gy > 0.1 * gy.max()
        if ok.sum() > 3:
            k2, k1, k0 = np.polyfit(gx[ok] - top, np.log(gy[ok]), 2)
            fw, ht = np.sqrt(-4 * np.log(2) / k2), np.exp(k0 - k1**2 / (4 * k2))
            check(abs(fw - m["fwhmRMSF"]) <= 1e-3 * fw and abs(ht - np.abs(R).max()) <= 1e-3 * ht, lambda: "the Gaussian drawn has width %.5g and height %.5g, the RMSF has %.5g and %.5g" % (fw, ht, m["fwhmRMSF"], np.abs(R).max()))
        fdf_fig(seen[2], phi, F, a["phi2Arr_radm2"], R, m["phiPeakPIfit_rm2"], c["units"])
        # the sensitivity: from the exact average of the rotation over the channels
        y = [nums(l.get_ydata()) for x in seen[1].axes for l in x.lines if same(l.get_xdata(), phi)]
        check(len(y) == 2, "the sensitivity is not shown")
        w = np.full(n, f[1] - f[0])
        x = (np.arange(400) + 0.5) / 400 - 0.5
        k = np.linspace(0, len(phi) - 1, 7).astype(int)
        e = np.exp(2j * phi[k][:, None, None] * l2_of(f[:, None] + w[:, None] * x)).mean(2)
        wt = np.asarray(a["weightArr"], float)
        sens = (wt * np.abs(e) ** 2).sum(1) / wt.sum()
        check(any(np.allclose(v[k], sens, rtol=0.02, atol=2e-3) for v in y), lambda: "sensitivity shown: %s, channel averages: %s" % ([v[k].round(4).tolist() for v in y], sens.round(4).tolist()))
    return not c["noi"]


@sub("models", st.fixed_dictionaries({**{k: gen[k] for k in ("f", "seed", "unit", "nan", "units")}, "post": st.booleans()}), quick=40, thorough=500, timeout=240,
     rule="the figure of QU-fitting: generated data, a model on a finer grid and samples of its posterior: data, model curves and the band of the samples (percentiles of a one-parameter family that are known) are drawn; non-trivial with a posterior")
def models(c):
    r = np.random.RandomState(c["seed"])
    d = spectrum(c, r)
    f = d[0]
    i = c["unit"] * 2.0
    q, u, dq, du = d[2] / i, d[3] / i, d[5] / i, d[6] / i
    hl2 = np.linspace(l2_of(f).min(), l2_of(f).max(), 60)
    hf = 299792458.0 / np.sqrt(hl2)
    ih = 2 * c["unit"] * (hf / f.mean()) ** -0.7
    mod = lambda p, l2: p["a"] * np.exp(2j * (0.02 + 0.3 * (l2 - hl2[0]) / np.ptp(hl2)))
    best = mod({"a": 0.4}, hl2)
    amp = r.uniform(0.3, 0.5, 50)
    import pandas as pd

    with shown() as (seen, files):
        fig = plt.figure()
        T.plot_Ipqu_spectra_fig(f, d[1], q, u, d[4], dq, du, hf, ih, best.real, best.imag, {"model": mod, "parNames": ["a"], "posterior": pd.DataFrame({"a": amp})} if c["post"] else None, fig=fig, units=c["units"])
        spectra_fig(fig, d, (None, q, u, dq, du, None), lambda x: 2 * c["unit"] * (x / f.mean()) ** -0.7, c["units"], 1e-6)
        for y, n in ((best.real, "Model q"), (best.imag, "Model u"), (np.abs(best), "Model p")):
            curve(fig.axes, hl2, y, n, n)
        ang = np.degrees(np.angle(best)) / 2
        curve(fig.axes, hl2, ang, "the angle of the model")
        curve(fig.axes, best.real, best.imag, "the model in q and u")
        if c["post"]:
            ax = curve(fig.axes, hl2, best.real, "Model q", "Model q")
            # medians of the samples (unlabelled lines): between the quartiles of the amplitudes
            for part, n in ((np.real, "q"), (np.imag, "u"), (np.abs, "p")):
                one = part(mod({"a": 1.0}, hl2))
                lo, hi = np.percentile(amp, 30), np.percentile(amp, 70)
                ok = False
                for l in ax.lines:
                    if l.get_label().startswith("_") and same(l.get_xdata(), hl2):
                        y = nums(l.get_ydata())
                        z = np.abs(one) > 1e-6
                        ok |= bool(np.all((y[z] / one[z] >= lo - 1e-6) & (y[z] / one[z] <= hi + 1e-6)))
                check(ok, "the median of the samples of %s is not shown" % n)
            bands = [np.concatenate([p.vertices for p in x.get_paths()]) for x in ax.collections if len(x.get_paths()) == 1 and len(x.get_paths()[0].vertices) > 60]
            for part, n in ((np.real, "q"), (np.imag, "u"), (np.abs, "p")):
                y0 = part(mod({"a": 1.0}, hl2[:1]))[0]
                lo, hi = (np.percentile(amp, [a, b]) for a, b in ((6, 26), (74, 94)))
                ok = False
                for v in bands:
                    e = v[np.abs(v[:, 0] - hl2[0]) < 1e-9 * hl2[0], 1] / y0
                    ok |= len(e) >= 2 and lo[0] - 1e-9 <= e.min() <= lo[1] + 1e-9 and hi[0] - 1e-9 <= e.max() <= hi[1] + 1e-9
                check(ok, "the 68 %% range of the samples of %s is not shown" % n)
    return c["post"]


@sub("complexity", st.fixed_dictionaries({"n": st.integers(8, 40), "seed": seeds, "add": st.sampled_from([0.0, 1.0, 4.0])}), quick=40, thorough=500, timeout=240,
     rule="the figure of the complexity of generated spectra: residuals, their distribution, chi-squared and likelihood of Q and of U over their own added scatter, the metrics; non-trivial with added scatter")
def complexity(c):
    r = np.random.RandomState(c["seed"])
    f = np.linspace(0.9e9, 1.4e9, c["n"])
    l2 = l2_of(f)
    s = r.uniform(0.01, 0.05, 2)
    p = 0.4 * np.exp(2j * (0.3 + 20 * l2))
    n = c["n"]
    q, u = p.real + s[0] * (1 + c["add"]) * r.randn(n), p.imag + s[1] * (1 + c["add"] / 2) * r.randn(n)
    with shown() as (seen, files), contextlib.redirect_stdout(None):
        m, d = measure_qu_complexity(f, q, u, np.full(n, s[0]), np.full(n, s[1]), 0.4, np.degrees(0.3), 20.0)
        fig = T.plot_complexity_fig(d["xArrQ"], d["yArrQ"], d["dyArrQ"], d["sigmaAddArrQ"], d["chiSqRedArrQ"], d["probArrQ"], d["yArrU"], d["dyArrU"], d["sigmaAddArrU"], d["chiSqRedArrU"], d["probArrU"], m)
        axs = fig.axes
        apart(fig)
        for k in "QU":
            curve(axs, d["xArr" + k], d["yArr" + k], "the residuals of " + k, None, d["dyArr" + k])
            x = d["sigmaAddArr" + k]
            curve(axs, x, d["chiSqRedArr" + k], "chi-squared of %s over its added scatter" % k)
            ax = curve(axs, x, d["probArr" + k], "the likelihood of %s over its added scatter" % k)
            curve(axs, x, np.cumsum(d["probArr" + k]) / np.sum(d["probArr" + k]), "the cumulative likelihood of " + k)
            for e in (0, m["dSigmaAddPlus" + k], -m["dSigmaAddMinus" + k]):
                v = m["sigmaAdd" + k] + e
                check(any(len(l.get_xdata()) == 2 and np.allclose(nums(l.get_xdata()), v, rtol=1e-6, atol=1e-12) for l in ax.lines), lambda: "sigmaAdd%s %.4g is not marked" % (k, v))
            check(any(same(np.sort(nums(l.get_xdata())), np.sort(nums(d["yArr" + k]))) and np.all(np.diff(nums(l.get_ydata())) > 0) and len(l.get_xdata()) == n for x_ in axs for l in x_.lines), lambda: "the distribution of %s is not shown" % k)
    return c["add"] > 0


@sub("peak", st.fixed_dictionaries({"n": st.integers(8, 60), "seed": seeds, "at": st.sampled_from([0.0, 0.0, -3.0, 12.5, 1e-3]), "fw": st.booleans()}), quick=40, thorough=400, timeout=240,
     rule="the figure of generated complex spectra with a peak at a given depth, zero included; non-trivial with the peak at zero")
def peak(c):
    r = np.random.RandomState(c["seed"])
    phi = np.linspace(-40, 40, c["n"])
    phi2 = np.linspace(-80, 80, 2 * c["n"] - 1)
    F, R = r.randn(c["n"]) + 1j * r.randn(c["n"]), r.randn(len(phi2)) + 1j * r.randn(len(phi2))
    with shown():
        fig = T.plot_rmsf_fdf_fig(phi, F, phi2, R, fwhmRMSF=20.0 if c["fw"] else None, vLine=c["at"], units="mJy")
        fdf_fig(fig, phi, F, phi2, R, c["at"], "mJy", 1e-6, 20.0 if c["fw"] else None)
    return c["at"] == 0


@sub("qufit", st.fixed_dictionaries({"m": st.sampled_from([1, 2, 5, 11]), "freq": freq_cases(14, 40, kinds=("lin", "gap", "jit", "desc")), "flag": st.sampled_from(["none", "q", "qu"]), "cols": st.sampled_from([5, 7]), "wid": st.sampled_from([0.01, 1.0, 4.0]), "seed": seeds}), quick=24, thorough=200, timeout=400,
     rule="the figures that QU-fitting saves, with a stand-in sampler returning generated posteriors: the data, the model with the reported parameters, the range of the samples, the samples of the corner figure; non-trivial with several components or flagged channels")
def qufit(c):
    r = np.random.RandomState(c["seed"])
    wide = 3.8 / np.ptp(l2_of(freqs(c["freq"])))
    tr = qulib.truth(c["m"], r, wide)
    f, l2, data = qulib.spectra(c, r, tr, 0.02)
    w = {k: (0.003 if k.startswith("frac") else c["wid"] if k.startswith("psi") else 0.01 * wide) for k in tr}
    s = qulib.FakeSampler(tr, w, 60, r)
    corner = []

    def stand_in(self, *a, **k):
        corner.append(self.posterior.copy())
        return plt.figure()

    keep = bilby.run_sampler, bilby.core.result.Result.plot_corner
    bilby.run_sampler, bilby.core.result.Result.plot_corner = s, stand_in
    try:
        with tempfile.TemporaryDirectory() as t, shown(False) as (seen, files), contextlib.redirect_stdout(None):
            do_QUfit_1D_mnest.run_qufit([x.copy() for x in data], c["m"], sampler="nestle", nlive=30, prefixOut=os.path.join(t, "src"), noStokesI=c["cols"] == 5)
            j = json.load(open(os.path.join(t, "src_m%d_nestle.json" % c["m"])))
            check({"srcfig_m%d_specfit.pdf" % c["m"], "srcfig_m%d_corner.pdf" % c["m"]} <= set(os.listdir(t)), lambda: "figures saved as %s" % sorted(os.listdir(t)))
            fig = files["srcfig_m%d_specfit.pdf" % c["m"]]
            d = list(data) if c["cols"] == 7 else [data[0], np.ones_like(f), data[1], data[2], np.zeros_like(f), data[3], data[4]]
            frac = create_frac_spectra(freqArr=f, IArr=d[1], QArr=d[2], UArr=d[3], dIArr=d[4], dQArr=d[5], dUArr=d[6], polyOrd=2, fit_function="log")
            spectra_fig(fig, d, frac, lambda x: calculate_StokesI_model(frac[5], x), "", 1e-6)
            par = dict(zip(j["parNames"], j["values"]))
            lines = {l.get_label(): l for ax in fig.axes for l in ax.lines}
            for n, part in (("Model q", np.real), ("Model u", np.imag), ("Model p", np.abs)):
                check(n in lines, "%s is not shown" % n)
                x, y = nums(lines[n].get_xdata()), nums(lines[n].get_ydata())
                check(abs(x.min() - l2.min()) <= 1e-6 * l2.min() and abs(x.max() - l2.max()) <= 1e-6 * l2.max(), "%s does not cover the band" % n)
                e = part(qulib.load(c["m"]).model(par, x))
                check(np.allclose(y, e, rtol=0, atol=1e-6), lambda: "%s shown is not the model of the reported parameters, off by up to %.4g" % (n, np.abs(y - e).max()))
            # the corner figure has the samples themselves (angles up to half turns)
            check(len(corner) == 1, "no corner figure")
            for i, k in enumerate(s.keys):
                a, b = np.sort(nums(corner[0][k])), np.sort(s.S[:, i])
                if k.startswith("psi"):
                    g = np.abs((nums(corner[0][k])[:, None] - s.S[None, :, i] + 90) % 180 - 90).min(1)
                    check(g.max() < 1e-6, lambda: "%s of the corner figure is rotated by %.4g" % (k, g.max()))
                    # in one piece around the reported angle
                    if c["wid"] <= 1:
                        check(np.ptp(a) < 90, lambda: "%s of the corner figure is split by the wrap at %.4g" % (k, par[k]))
                else:
                    check(np.allclose(a, b, rtol=1e-9, atol=1e-12), "%s of the corner figure is not that of the samples" % k)
    finally:
        bilby.run_sampler, bilby.core.result.Result.plot_corner = keep
    return c["m"] == 11 or c["flag"] != "none"
