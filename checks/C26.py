"""C26: clean components predict the Stokes Q and U they were derived from.

Technique: property-based testing against the explicit sum over components, a metamorphic round trip (predicted spectra through RM synthesis give the components convolved with the RMSF) and an end-to-end run of the command lines compared with the saved products
Assurance: exploration of generated inputs; no proof
"""
import contextlib
import io
import json
import os
import sys
import tempfile
import warnings

import numpy as np
from hypothesis import strategies as st

from vlib import ref
from vlib.cleanlib import conv_rmsf
from vlib.gen import freq_cases, freqs, l2_of, phi_cases, phis, seeds, thin, wider
from vlib.harness import check, skip, sub

from RMtools_1D import clean_model as M
from RMtools_1D import do_RMclean_1D as C1
from RMtools_1D import do_RMsynth_1D as S1
from RMutils import util_RM as RM

ASSUMPTIONS = ["Stokes I models without zeros in the band"]


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


def nolog(*a, **k):
    pass


def poly_value(q, x, fun):
    """Stokes I polynomial, coefficients from order 5 to order 0, x = frequency over reference."""
    q = np.concatenate([np.zeros(6 - len(q)), q])
    if fun == "linear":
        return sum(q[5 - k] * x ** k for k in range(6))
    return q[5] * x ** sum(q[4 - k] * np.log10(x) ** k for k in range(5))


def predicted(f, phi, cc, l20, model, at_ref):
    s = np.zeros(len(f), complex)
    for p, a in zip(phi, cc):
        if a != 0:
            s += a * np.exp(2j * p * (l2_of(f) - l20))
    return model / at_ref * s


base = {"freq": freq_cases(2, 50), "phi": phi_cases(3, 60), "nc": st.integers(0, 8), "l0": st.sampled_from(["mean", "zero", "other"]), "fun": st.sampled_from(["log", "linear", "none"]), "f0": st.sampled_from(["none", "given"]), "seed": seeds}


@sub("formula", st.fixed_dictionaries(base), quick=2000, thorough=60000,
     rule="random components (many zero), frequency lists in any order, reference wavelengths including zero, Stokes I models of both types or none; non-trivial with at least one component")
def formula(c):
    r = np.random.RandomState(c["seed"])
    f = freqs(c["freq"])
    l2 = l2_of(f)
    phi = phis(c["phi"], l2)
    cc = np.zeros(len(phi), complex)
    k = r.choice(len(phi), min(c["nc"], len(phi)), replace=False)
    cc[k] = (r.randn(len(k)) + 1j * r.randn(len(k))) * 10 ** r.uniform(-5, 2)
    l20 = {"mean": l2.mean(), "zero": 0.0, "other": l2.max() * r.uniform(0.5, 2)}[c["l0"]]
    f0 = ref.C / np.sqrt(l20) if l20 else f.mean()
    kw = {}
    if c["f0"] == "given":
        f0 = f.mean() * r.uniform(0.8, 1.2)
        kw["freq0_Hz"] = float(f0)
    if c["fun"] == "none":
        q = None
    elif c["fun"] == "log":
        q = [0.0, 0.0, 0.1 * r.randn(), 0.3 * r.randn(), r.uniform(-2, 1), 10 ** r.uniform(-3, 2)]
    else:
        q = [0.0, 0.0, 0.0, 0.1 * r.randn(), 0.2 * r.randn(), 1.0]
        q = [v * 10 ** r.uniform(-3, 2) for v in [1]] and [v * 7.3 for v in q]
    if c["fun"] != "none":
        kw["fit_function"] = c["fun"]
        x = f / f0
        mod, at = poly_value(np.array(q), x, c["fun"]), poly_value(np.array(q), 1.0, c["fun"])
        if np.abs(mod).min() < 0.05 * abs(at):
            skip()
    else:
        mod, at = np.ones(len(f)), 1.0
    keep = f.copy(), phi.copy(), cc.copy(), None if q is None else list(q)
    with quiet():
        QU, I = M.calculate_QU_model(f, phi, cc, l20, q, **kw)
    check(np.array_equal(keep[0], f) and np.array_equal(keep[1], phi) and np.array_equal(keep[2], cc) and keep[3] == q, "inputs were changed")
    QU, I = np.asarray(QU, complex), np.broadcast_to(np.asarray(I, float), f.shape)
    check(QU.shape == f.shape, "one value per channel expected, got shape %s" % (QU.shape,))
    check(np.allclose(I, mod, rtol=1e-9), lambda: "Stokes I model off by %.3g" % np.abs(I / mod - 1).max())
    e = predicted(f, phi, cc, l20, mod, at)
    s = np.abs(cc).sum() * np.abs(mod / at).max()
    check(np.abs(QU - e).max() <= 1e-8 * s, lambda: "prediction off by %.3g of the total amplitude" % (np.abs(QU - e).max() / s))
    return len(k) > 0


@sub("roundtrip", st.fixed_dictionaries(dict(base, I=st.sampled_from(["none", "fit"]), half=st.integers(15, 40), wt=st.sampled_from(["variance", "uniform"]), sr=st.booleans(), cut=st.sampled_from([-2.0, -4.0, 0.05]))), quick=250, thorough=8000,
     rule="spectra through RM synthesis, CLEAN and the model: the model over its Stokes I, synthesised with the same weights, must be the components convolved with the RMSF in fractional units, and equal the dirty minus residual FDF; non-trivial with a component")
def roundtrip(c):
    r = np.random.RandomState(c["seed"])
    f = freqs(dict(c["freq"], n=max(c["freq"]["n"], 8)))
    l2 = l2_of(f)
    if np.ptp(l2) < 0.1 * l2.max():
        skip()
    n = len(f)
    fw = 2.0 / (l2.max() + l2.min()) if c["sr"] else 3.8 / np.ptp(l2)
    d = fw / 5.3
    phi = (np.arange(2 * c["half"] + 1) - c["half"]) * d
    P = sum(thin(l2, r.uniform(0.2, 1), 180 * r.rand(), r.uniform(-0.8, 0.8) * phi[-1]) for _ in range(1 + c["nc"] % 3)) + 0.02 * (r.randn(n) + 1j * r.randn(n))
    I = np.ones(n) if c["I"] == "none" else 2.5 * (f / f.mean()) ** r.uniform(-1.2, 0.5)
    Q, U = P.real * I, P.imag * I
    dQ = 0.02 + 0.03 * r.rand(n)
    fun = "linear" if c["fun"] == "linear" else "log"
    data = [f, Q, U, dQ, dQ.copy()] if c["I"] == "none" else [f, I, Q, U, np.full(n, 0.01), dQ, dQ.copy()]
    with quiet():
        m, a = S1.run_rmsynth([x.copy() for x in data], polyOrd=2, fit_function=fun, weightType=c["wt"], nBits=64, phiMax_radm2=float(phi[-1]), dPhi_radm2=float(d), super_resolution=c["sr"], log=nolog)
        if not m["fwhmRMSF"] > 0:
            skip()
        m2, b = C1.run_rmclean(m, a, c["cut"], maxIter=100, gain=0.2, nBits=64)
        q = [float(v) for v in m["polyCoeffs"].split(",")]
        QU, mod = M.calculate_QU_model(f, a["phiArr_radm2"], b["ccArr"], m["lam0Sq_m2"], q, freq0_Hz=m["freq0_Hz"], fit_function=fun)
    mod = np.broadcast_to(np.asarray(mod, float), f.shape)
    e = poly_value(np.array(q), f / m["freq0_Hz"], fun)
    check(np.allclose(mod, e, rtol=1e-6), "Stokes I of the model is not the model of the synthesis")
    if c["I"] == "fit":
        check(np.abs(mod / I - 1).max() < 0.05, lambda: "Stokes I of the model differs from the data by %.3g" % np.abs(mod / I - 1).max())
    ph = np.asarray(a["phiArr_radm2"], float)
    cc = np.asarray(b["ccArr"], complex)
    w = 1 / (dQ / np.abs(mod)) ** 2 if c["wt"] == "variance" else np.ones(n)
    with quiet():
        G = np.asarray(RM.do_rmsynth_planes((QU / mod).real, (QU / mod).imag, l2, ph, weightArr=w, lam0Sq_m2=m["lam0Sq_m2"])[0], complex).ravel()
    G = G * m["Ifreq0"]
    s = max(np.abs(cc).sum(), 1e-30)
    E = conv_rmsf(cc, ref.rmsf(w, l2, np.asarray(a["phi2Arr_radm2"], float), m["lam0Sq_m2"]), ph)
    check(np.abs(G - E).max() <= 1e-4 * s, lambda: "RM synthesis of the model differs from the components convolved with the RMSF by %.3g of their total" % (np.abs(G - E).max() / s))
    D = np.asarray(a["dirtyFDF"], complex) - np.asarray(b["residFDF"], complex)
    t = 1e-3 * s  # the polynomial coefficients of the dictionary are rounded
    check(np.abs(G - D).max() <= t, lambda: "RM synthesis of the model differs from dirty minus residual FDF by %.3g of the components" % (np.abs(G - D).max() / s))
    return np.count_nonzero(cc) > 0


@sub("tool", st.fixed_dictionaries({"freq": freq_cases(10, 40), "I": st.sampled_from(["none5", "none7", "fit", "fit"]), "fun": st.sampled_from(["log", "linear"]), "sr": st.booleans(), "bits": st.booleans(), "ord": st.integers(0, 3), "gone": st.booleans(), "nan": st.booleans(), "sep": st.booleans(), "seed": seeds}), quick=60, thorough=2000, timeout=120,
     rule="rmsynth1d, rmclean1d and the model command line on a text file: frequency, I, Q and U columns equal the sum over the saved components with the saved reference and Stokes I model, and follow the data when the signal is noise-free; non-trivial always")
def tool(c):
    r = np.random.RandomState(c["seed"])
    f = freqs(c["freq"])
    l2 = l2_of(f)
    if np.ptp(l2) < 0.1 * l2.max():
        skip()
    n = len(f)
    fw = 2.0 / (l2.max() + l2.min()) if c["sr"] else 3.8 / np.ptp(l2)
    d = fw / 8.3
    phi = (np.arange(81) - 40) * d
    rm = phi[int(20 + 40 * r.rand())]
    P = thin(l2, 0.7, 180 * r.rand(), rm)
    I = 2.5 * (f / f.mean()) ** r.uniform(-1.2, 0.5) if c["I"] == "fit" else np.ones(n)
    Q, U = P.real * I, P.imag * I
    if c["nan"]:
        Q[r.rand(n) < 0.15] = np.nan
        if np.isfinite(Q).sum() < 6:
            skip()
    e = np.full(n, 0.01)
    with tempfile.TemporaryDirectory() as t:
        p = os.path.join(t, "x.dat")
        cols = [f, Q, U, e, e] if c["I"] == "none5" else [f, I, Q, U, e, e, e]
        np.savetxt(p, np.array(cols).T, fmt="%.17g")
        keep = sys.argv
        out = os.path.join(t, "m.dat")
        try:
            with quiet():
                sys.argv = ["rmsynth1d", p, "-S", "-l", repr(float(phi[-1])), "-d", repr(float(d)), "-o", str(c["ord"]), "-f", c["fun"]] + (["-r"] if c["sr"] else []) + (["-b"] if c["bits"] else []) + (["-i"] if c["I"] == "none7" else [])
                S1.main()
                sys.argv = ["rmclean1d", p, "-S", "-c", "0.001", "-n", "1000", "-g", "0.3"]
                C1.main()
                sys.argv = ["clean_model", p, os.path.join(t, "x_RMsynth.json"), os.path.join(t, "x_FDFmodel.dat"), out]
                M.main()
        finally:
            sys.argv = keep
        check(os.path.exists(out), "no model file was written")
        x = np.loadtxt(out)
        j = json.load(open(os.path.join(t, "x_RMsynth.json")))
        y = np.loadtxt(os.path.join(t, "x_FDFmodel.dat"))
        phi_s, cc_s, ip, l0_s, f_s = M.read_files(p, os.path.join(t, "x_RMsynth.json"), os.path.join(t, "x_FDFmodel.dat"))
    check(x.shape == (n, 4), lambda: "model file has shape %s for %d channels" % (x.shape, n))
    check(np.allclose(x[:, 0], f, rtol=1e-7), "first column is not the frequency")
    check(np.allclose(phi_s, y[:, 0]) and np.allclose(cc_s, y[:, 1] + 1j * y[:, 2]) and l0_s == j["lam0Sq_m2"] and np.allclose(f_s, f, rtol=1e-7), "values read back differ from the saved products")
    q = np.array([float(v) for v in j["polyCoeffs"].split(",")])
    check(np.allclose(ip, q), "Stokes I coefficients read back differ")
    mod = poly_value(q, f / j["freq0_Hz"], c["fun"])
    at = poly_value(q, 1.0, c["fun"])
    check(np.allclose(x[:, 1], mod, rtol=1e-5), lambda: "Stokes I column off by %.3g" % np.abs(x[:, 1] / mod - 1).max())
    cc = y[:, 1] + 1j * y[:, 2]
    E = predicted(f, y[:, 0], cc, j["lam0Sq_m2"], mod, at)
    G = x[:, 2] + 1j * x[:, 3]
    s = np.abs(cc).sum() * np.abs(mod / at).max()
    check(np.abs(G - E).max() <= 1e-5 * s, lambda: "Q/U columns differ from the sum over components by %.3g of the total amplitude" % (np.abs(G - E).max() / s))
    if not c["nan"] and c["ord"] >= 2:
        # one component of the grid, no noise: the model must follow the data where the cleaning found it
        dirty = j["ampPeakPIfit"]
        if abs(j["phiPeakPIfit_rm2"] - rm) < 0.05 * d and abs(np.abs(cc).sum() - dirty) < 0.02 * dirty:
            z = (Q + 1j * U)
            check(np.abs(G - z).max() < 0.12 * np.abs(z).max(), lambda: "the model of a cleaned noise-free source is %.3g of its amplitude away from the data" % (np.abs(G - z).max() / np.abs(z).max()))
    return True


# the same at the size of survey data
sub("formula_large", wider(st.fixed_dictionaries(base), freq=freq_cases(100, 600), phi=phi_cases(100, 800), nc=st.integers(8, 100)), quick=90, thorough=600, min_shard=4,
    rule="as formula, with hundreds of channels, depths and components; non-trivial as there")(formula)
