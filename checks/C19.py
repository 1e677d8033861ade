"""C19: bandwidth-depolarisation tools model the channel-averaged polarisation.

Technique: property-based testing of the analytic channel average against numerical quadrature, differential testing of the adjoint transform and its theory curves against the definition evaluated with quadrature, and of whole runs against simulated channel-averaged sources for every column layout
Assurance: exploration of generated inputs; no proof. The quadrature (Gauss-Legendre, order raised with the phase across the channel) is trusted.
"""
import json
import os
import sys
import tempfile

import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st

from vlib import ref
from vlib.gen import l2_of, phi_cases, seeds, wider
from vlib.harness import check, skip, sub
from vlib.ref import C

from RMtools_1D import rmtools_bwdepol as B
from RMtools_1D import rmtools_bwpredict as P

ASSUMPTIONS = ["channels do not reach zero frequency", "the phase turns by at most 100 rad across a channel"]


def average(width, center, phi):
    """Mean of exp(2i phi lambda^2) over each channel (arrays) by quadrature."""
    w, f = np.broadcast_arrays(np.abs(np.asarray(width, float)), np.asarray(center, float))
    w, f = w.ravel(), f.ravel()
    ph = np.abs(2 * phi) * C**2 * ((f - w / 2) ** -2.0 - (f + w / 2) ** -2.0)
    x, g = np.polynomial.legendre.leggauss(int(48 + ph.max()))
    ff = f[:, None] + w[:, None] / 2 * x
    # phase relative to the channel centre, to keep the precision for large depths
    d = 2 * phi * C**2 * (f[:, None] - ff) * (f[:, None] + ff) / (ff * f[:, None]) ** 2
    return np.exp(2j * phi * (C / f) ** 2) * (np.exp(1j * d) @ g) / 2


op_gen = {
    "n": st.integers(1, 12), "lf": st.floats(7.7, 10.3), "lw": st.floats(-6, -0.3), "turn": st.sampled_from([0.0, 1e-6, 1e-2, 0.5, 3.0, 12.0, 45.0]), "sign": st.sampled_from([-1, 1]),
    "neg": st.booleans(), "seed": seeds,
}


@sub("operator", st.fixed_dictionaries(op_gen), quick=2500, thorough=150000,
     rule="channels from 50 MHz to 20 GHz of relative width 1e-6..0.5 and Faraday depths of either sign turning the angle by 0..45 rad across the channel: average, modulus, conjugation, halves, both implementations; non-trivial when the channel depolarises")
def operator(c):
    r = np.random.RandomState(c["seed"])
    f = 10.0 ** (c["lf"] + 0.1 * r.rand(c["n"]))
    w = f * 10.0 ** c["lw"] * r.uniform(0.5, 1, c["n"])
    phi = c["sign"] * c["turn"] / np.max((C / (f - w / 2)) ** 2 - (C / (f + w / 2)) ** 2)
    if abs(phi) * np.max((C / f) ** 2) > 3e7:
        skip("phase beyond double precision")
    # the analytic form is a difference of two terms f/w times larger, each as precise as its phase
    tol = 1e-9 + 30 * np.finfo(float).eps * (f / w) * (2 + 2 * abs(phi) * (C / f) ** 2)
    ref_ = average(w, f, phi)
    ws = -w if c["neg"] else w
    got = B.rotation_operator(ws, f, phi)
    check(np.shape(got) == f.shape, "shape")
    check((np.abs(got - ref_) <= tol).all(), lambda: "channel average off by %g, allowed %s, width %s phi %r f %s" % (np.abs(got - ref_).max(), tol, w, phi, f))
    check((np.abs(got) <= 1 + tol).all(), "modulus above 1")
    check((np.abs(B.rotation_operator(ws, f, -phi) - np.conj(ref_)) <= tol).all(), "not conjugate for the opposite Faraday depth")
    check((np.abs(B.analytical_chan_pol(f, ws, phi, p=0.3) - 0.3 * ref_) <= tol).all(), "analytical_chan_pol differs")
    one = B.rotation_operator(float(ws[0]), float(f[0]), float(phi))
    check(abs(one - ref_[0]) <= tol[0], "scalar call differs")
    # one width for all channels
    got = B.rotation_operator(float(w.min()), f, phi)
    check((np.abs(got - average(w.min(), f, phi)) <= tol * w / w.min()).all(), "one width for all channels differs")
    # narrow channels: monochromatic
    nar = f * 1e-6 if c["turn"] else w
    mono = np.exp(2j * phi * (C / f) ** 2)
    if abs(phi) * np.max((C / f) ** 2) < 1e4:
        got = B.rotation_operator(nar, f, phi)
        check((np.abs(got - mono) <= tol * w / nar + 3 * abs(phi) * (C / f) ** 2 * 1e-6).all(), "narrow channel is not monochromatic")
    s = B.bwdepol_simulation(phi, f, w)
    check(len(s) == 5 and np.array_equal(s[0], f) and (np.abs(s[1] + 1j * s[2] - ref_) <= tol).all(), "simulated source")
    return bool(np.abs(ref_).min() < 0.999)


pl = {
    "n": st.integers(2, 30), "lf": st.sampled_from([8.2, 8.9, 9.3]), "frac": st.sampled_from([0.05, 0.3, 0.7]), "ws": st.sampled_from(["none", "scalar", "array"]), "w": st.sampled_from(["none", "ones", "rand", "zeros", "nan"]),
    "dims": st.sampled_from([[], [3], [2, 3], [1, 1]]), "phi": phi_cases(1, 25, kinds=("sym", "asym", "irr", "desc", "pos")), "lam0": st.sampled_from([None, None, 0.0, 0.05]), "nan": st.sampled_from(["none", "none", "plane", "voxel"]),
    "far": st.sampled_from([1.0, 1.0, 10.0]), "desc": st.booleans(), "seed": seeds,
}


@sub("planes", st.fixed_dictionaries(pl), quick=600, thorough=20000,
     rule="adjoint transform of 1-3 dimensional noise with flags, weights, widths against its definition, theory curves against their definition; non-trivial when some depth lies beyond the first depolarisation null or flags are present")
def planes(c):
    r = np.random.RandomState(c["seed"])
    n = c["n"]
    f0 = 10.0 ** c["lf"]
    f = f0 * (1 + c["frac"] * (np.arange(n) + (0.4 if c["ws"] == "array" else 0) * r.rand(n)) / n)
    if c["desc"]:
        f = f[::-1].copy()
    if c["ws"] == "none":
        wid, W = None, np.full(n, f[1] - f[0])
    elif c["ws"] == "scalar":
        wid = float(f0 * c["frac"] / n * r.uniform(0.2, 1))
        W = np.full(n, wid)
    else:
        wid = W = f0 * c["frac"] / n * r.uniform(0.2, 1, n)
    l2 = l2_of(f)
    from vlib.gen import phis, weights

    phi = phis(c["phi"], l2) * c["far"]
    if np.abs(2 * phi).max() * np.max(C**2 * ((f - np.abs(W) / 2) ** -2 - (f + np.abs(W) / 2) ** -2)) > 100:
        skip("too much rotation")
    w = weights(c["w"], n, r)
    shape = (n,) + tuple(c["dims"])
    Q, U = r.randn(*shape), r.randn(*shape)
    if c["nan"] == "plane":
        (Q if r.rand() < 0.5 else U)[r.randint(n)] = np.nan
    elif c["nan"] == "voxel":
        (Q if r.rand() < 0.5 else U)[r.rand(*shape) < 0.2] = np.nan
    w1 = np.ones(n) if w is None else np.where(np.isnan(w), 0, w)
    bad = np.isnan(Q + U)
    w1 = w1 * ~bad.reshape(n, -1).all(axis=1)
    if not w1.any():
        skip("no weight left")
    keep = [x.copy() for x in (Q, U, f, phi)] + [None if w is None else w.copy()]
    F, l0, av = B.do_adjoint_rmsynth_planes(f, Q, U, phi, widths_Hz=wid, weightArr=w, lam0Sq_m2=c["lam0"])
    for x, y in zip(keep, (Q, U, f, phi, w)):
        check(x is None or np.array_equal(x, y, equal_nan=True), "input modified")
    L0 = (w1 * l2).sum() / w1.sum() if c["lam0"] is None else c["lam0"]
    check(abs(l0 - L0) <= 1e-12 * max(L0, 1e-30), lambda: "reference lambda^2 is %r, not %r" % (l0, L0))
    R = np.array([average(W, f, p) for p in phi])  # nPhi, n
    p = np.where(bad, 0, Q + 1j * U).reshape(n, -1)
    ww = w1[:, None] * ~bad.reshape(n, -1)
    s = ww.sum(0)
    with np.errstate(all="ignore"):
        exp = np.exp(2j * phi * L0)[:, None] * (np.conj(R) @ (ww * p)) / s
    exp = np.where(s > 0, exp, 0)
    got = np.asarray(F)
    check(got.shape == tuple(k for k in (len(phi),) + tuple(c["dims"]) if k != 1), lambda: "shape %s" % (got.shape,))
    tol = 1e-8 * max(1, np.abs(p).max()) * (1 + np.max(f / np.abs(W)) / 1e4)
    check((np.abs(got.reshape(len(phi), -1) - exp) <= tol).all(), lambda: "adjoint transform off by %g" % np.abs(got.reshape(len(phi), -1) - exp).max())
    # theory
    dqu = 10.0 ** r.uniform(-3, 0, n)
    ph, sens, noise = B.adjoint_theory(av, dqu)
    A = np.abs(R) ** 2
    S = (A * w1).sum(1) / w1.sum()
    N = np.sqrt((A * (w1 * dqu) ** 2).sum(1)) / w1.sum()
    check(np.array_equal(ph, phi), "theory depths")
    check(np.allclose(sens, S, rtol=1e-6, atol=1e-9), lambda: "sensitivity off by %g" % np.abs(sens - S).max())
    check(np.allclose(noise, N, rtol=1e-5, atol=1e-7 * N.max()), "noise differs from the weighted average")
    check((sens <= 1 + 1e-9).all() and (sens >= 0).all(), "sensitivity outside 0..1")
    return bool(S.min() < 0.5 or bad.any())


@sub("predict", st.fixed_dictionaries({"n": st.integers(2, 200), "lf": st.sampled_from([8.1, 8.9, 9.3]), "frac": st.sampled_from([0.05, 0.3, 0.7]), "ws": st.sampled_from(["none", "scalar", "array"]),
                                       "max": st.sampled_from([None, 3.0, 20.0]), "d": st.sampled_from([None, 0.3]), "ns": st.sampled_from([None, 3.0, 7.5]), "cli": st.booleans(), "seed": seeds}), quick=120, thorough=3000,
     rule="predicted sensitivity and noise curves for generated channelisations against the definition, from the function or read off the figure of the command line; non-trivial when more than 10 depths")
def predict(c):
    r = np.random.RandomState(c["seed"])
    n = c["n"]
    f = 10.0 ** c["lf"] * (1 + c["frac"] * np.arange(n) / n)
    fw = 2 * np.sqrt(3) / np.ptp(l2_of(f))
    W = np.full(n, f[1] - f[0]) * (1 if c["ws"] == "none" else r.uniform(0.3, 1) if c["ws"] == "scalar" else r.uniform(0.3, 1, n))
    wid = None if c["ws"] == "none" else W[0] if c["ws"] == "scalar" else W
    mx, d = c["max"] and c["max"] * fw, c["d"] and c["d"] * fw
    ns = c["ns"]
    if c["cli"]:
        with tempfile.TemporaryDirectory() as t:
            fn, fig = os.path.join(t, "f.dat"), os.path.join(t, "fig.png")
            np.savetxt(fn, f if wid is None else np.array([f, W]).T)
            old = sys.argv
            sys.argv = ["rmtools_bwpredict", fn, "-f", fig]
            for o, v in (("-l", mx), ("-d", d), ("-s", ns)):
                sys.argv += [o, repr(float(v))] if v else []
            plt.close("all")
            try:
                P.main()
                ax = sorted(plt.gcf().axes, key=lambda a: a.get_ylabel())
            finally:
                sys.argv = old
                plt.close("all")
            check(os.path.getsize(fig) > 1000, "no figure saved")
            check([a.get_ylabel() for a in ax] == ["S:N multiplier", "Sensitivity"], "labels of the figure")
            phi, sens = (np.asarray(x, float) for x in ax[1].lines[0].get_data())
            x, y = ax[0].lines[0].get_data()
            check(np.array_equal(x, phi), "depths of the figure")
            noise = sens / y  # the largest noise is 1, that of depth 0
        ns = ns or 10
    else:
        phi, sens, noise = P.bwdepol_compute_predictions(f, widths_Hz=wid, phiMax_radm2=mx, dPhi_radm2=d, **({"nSamples": ns} if ns else {}))
    mx = mx or 2 * np.sqrt(3) / np.abs(np.diff(l2_of(f))).min()
    d = d or fw / (ns or 1)
    check(phi[0] == 0 and np.allclose(np.diff(phi), d, rtol=1e-9) and mx - d < phi[-1] <= mx + 1e-5, "Faraday depths are not 0..max in the requested steps")
    k = np.unique(np.linspace(0, len(phi) - 1, 12).astype(int))
    for i in range(len(phi)):
        if i not in k:
            continue
        if 2 * phi[i] * np.max(C**2 * ((f - np.abs(W) / 2) ** -2 - (f + np.abs(W) / 2) ** -2)) > 100:
            continue
        A = np.mean(np.abs(average(W, f, phi[i])) ** 2)
        check(abs(sens[i] - A) <= 1e-6, lambda: "sensitivity %g at depth %g, not %g" % (sens[i], phi[i], A))
        # uniform weights and noise: noise goes as the root of the sensitivity
        check(abs(noise[i] - np.sqrt(A)) <= 1e-6, lambda: "noise %g at depth %g, not %g" % (noise[i], phi[i], np.sqrt(A)))
    return len(phi) > 10


run_gen = {
    "n": st.integers(24, 90), "lf": st.sampled_from([8.5, 8.95, 9.2]), "frac": st.sampled_from([0.1, 0.3, 0.6]), "cols": st.sampled_from([5, 6, 7, 8]), "noI": st.sampled_from([False, False, True]), "wrel": st.sampled_from(["spacing", "narrow", "vary"]),
    "w": st.sampled_from(["variance", "uniform"]), "x": st.floats(-0.85, 0.85), "psi": st.floats(0, 180), "p": st.floats(0.05, 0.7), "alpha": st.sampled_from([0.0, -0.8, 0.7, -2.0]), "S": st.sampled_from([1e-3, 1.0, 40.0]),
    "bad": st.sampled_from([0, 0, 2, 5]), "badcol": st.sampled_from(["Q", "U", "dQ", "dU", "all"]), "noise": st.sampled_from([0.0, 0.0, 0.3]), "ns": st.sampled_from([6, 10, 15]), "verbose": st.booleans(), "desc": st.booleans(), "cli": st.sampled_from([False, False, False, True]), "auto": st.sampled_from([False, False, True]), "seed": seeds,
}


@sub("run", st.fixed_dictionaries(run_gen), quick=120, thorough=5000,
     rule="whole runs on a simulated channel-averaged source in all column layouts, weights, spectral indices, flags, and through the command line; non-trivial when the source is depolarised by over 10 per cent in the first channel")
def run(c):
    r = np.random.RandomState(c["seed"])
    n = c["n"]
    f = 10.0 ** c["lf"] * (1 + c["frac"] * np.arange(n) / n)
    if c["desc"]:
        f = f[::-1].copy()
    sp = abs(f[1] - f[0])
    W = np.full(n, sp) if c["wrel"] == "spacing" or c["cols"] in (5, 7) else np.full(n, 0.4 * sp) if c["wrel"] == "narrow" else sp * r.uniform(0.3, 1, n)
    l2 = l2_of(f)
    fw = 2 * np.sqrt(3) / np.ptp(l2)
    # the tool searches up to sqrt(3)/dlambda^2 or 600; a depth that turns by ~ a radian across the widest channel
    pmax = np.sqrt(3) / np.diff(np.sort(l2)).max()
    phi0 = c["x"] * pmax
    rr = average(W, f, phi0)
    ispec = c["S"] * (f / f.mean()) ** c["alpha"] if c["cols"] > 6 and not c["noI"] else np.ones(n) * (c["S"] if c["cols"] > 6 else 1)
    unit = 1.0 if c["noI"] or c["cols"] < 7 else c["S"]
    base = ispec if not (c["noI"] or c["cols"] < 7) else np.ones(n)
    pq = base * c["p"] * np.exp(2j * np.radians(c["psi"])) * rr
    e = 0.01 * unit
    dQ, dU = e * r.uniform(0.7, 1.5, n), e * r.uniform(0.7, 1.5, n)
    if c["w"] == "uniform":
        dQ[:] = dU[:] = e
    Q, U = pq.real + c["noise"] * dQ * r.randn(n), pq.imag + c["noise"] * dU * r.randn(n)
    bad = r.choice(n, c["bad"], replace=False)
    cols = {"f": f, "W": W, "I": ispec, "Q": Q, "U": U, "dI": 0.002 * ispec, "dQ": dQ, "dU": dU}
    if c["w"] == "uniform" and c["badcol"][0] == "d":
        bad = bad[:0]  # without weights the errors do not flag
    for k in "Q", "U", "dQ", "dU":
        if c["badcol"] in (k, "all"):
            cols[k][bad] = np.nan
    lay = {5: "f Q U dQ dU", 6: "f W Q U dQ dU", 7: "f I Q U dI dQ dU", 8: "f W I Q U dI dQ dU"}[c["cols"]].split()
    data = np.array([cols[k] for k in lay])
    kw = dict(polyOrd=2, phiMax_radm2=pmax * 1.1, dPhi_radm2=fw / c["ns"], weightType=c["w"], noStokesI=c["noI"])
    if c["auto"]:  # the grid from the number of samples across the RMSF
        kw.update(phiMax_radm2=None, dPhi_radm2=None, nSamples=float(c["ns"]))
    if c["cli"]:
        with tempfile.TemporaryDirectory() as t:
            fn = os.path.join(t, "in.dat")
            np.savetxt(fn, data.T)
            old = sys.argv
            sys.argv = ["rmtools_bwdepol", fn, "-S"] + (["-s", repr(float(c["ns"]))] if c["auto"] else ["-l", repr(float(kw["phiMax_radm2"])), "-d", repr(float(kw["dPhi_radm2"]))]) + ["-w", c["w"], "-o", "2"] + ["-i"] * c["noI"] + ["-v"] * c["verbose"]
            try:
                B.main()
            finally:
                sys.argv = old
            m = json.load(open(os.path.join(t, "in_RMsynth.json")))
            x = np.loadtxt(os.path.join(t, "in_FDFdirty.dat"))
            y = np.loadtxt(os.path.join(t, "in_RMSF.dat"))
            z = np.loadtxt(os.path.join(t, "in_weight.dat"))
            a = {"phiArr_radm2": x[:, 0], "dirtyFDF": x[:, 1] + 1j * x[:, 2], "phi2Arr_radm2": y[:, 0], "RMSFArr": y[:, 1] + 1j * y[:, 2], "freqArr_Hz": z[:, 0], "weightArr": z[:, 1]}
    else:
        m, a = B.run_adjoint_rmsynth(data.copy(), verbose=c["verbose"], log=print, **kw)
    good = np.ones(n, bool)
    good[bad] = False
    dqu = (dQ + dU) / 2
    w = np.where(good, 1 / dqu**2 if c["w"] == "variance" else 1.0, 0)
    check(np.array_equal(a["freqArr_Hz"], f), "frequencies")
    check(np.allclose(a["weightArr"], w, rtol=1e-9), "weights are not those of the unflagged channels")
    L0 = (w * l2).sum() / w.sum()
    check(abs(m["lam0Sq_m2"] - L0) <= 1e-9 * L0 and abs(m["freq0_Hz"] - C / np.sqrt(L0)) <= 1e-9 * m["freq0_Hz"], "reference frequency")
    check(m["N_channels"] == good.sum() and m["min_freq"] == f[good].min() and m["max_freq"] == f[good].max(), lambda: "channel count %s of %d" % (m["N_channels"], good.sum()))
    I0 = c["S"] * (m["freq0_Hz"] / f.mean()) ** c["alpha"] if c["cols"] > 6 and not c["noI"] else 1.0
    check(abs(m["Ifreq0"] / I0 - 1) <= 2e-3, lambda: "Stokes I %r at the reference frequency, source has %r" % (m["Ifreq0"], I0))
    # definition, from quadrature
    phi = a["phiArr_radm2"]
    check(np.allclose(phi, -phi[::-1], atol=1e-6 * phi[-1]) and abs(phi[1] - phi[0] - fw / c["ns"]) < 1e-6 * fw and abs(phi[-1] - (max(pmax, 600) if c["auto"] else 1.1 * pmax)) <= fw / c["ns"], "Faraday depth axis")
    k = np.unique(np.r_[np.linspace(0, len(phi) - 1, 40).astype(int), np.argmin(np.abs(phi - phi0)) + np.arange(-2, 3)])
    k = k[(k >= 0) & (k < len(phi))]
    frac = np.where(good, (cols["Q"] + 1j * cols["U"]) / base, 0)
    frac = np.where(np.isfinite(frac), frac, 0)
    for i in k:
        R = average(W, f, phi[i])
        F = np.exp(2j * phi[i] * L0) * (w * frac * np.conj(R)).sum() / (w * np.abs(R) ** 2).sum() * I0
        check(abs(a["dirtyFDF"][i] - F) <= 4e-3 * max(abs(F), c["p"] * I0), lambda: "spectrum at depth %g is %r, not %r" % (phi[i], a["dirtyFDF"][i], F))
    ng = good.sum()
    e = np.degrees(np.sqrt(ng / (4 * (ng - 2) * m["snrPIfit"] ** 2) * ((ng - 1) / ng + L0**2 / np.var(l2[good], ddof=1))))
    check(abs(m["dPolAngle0Fit_deg"] - e) <= 1e-5 * e, lambda: "error of the derotated angle %g, from the unflagged channels %g" % (m["dPolAngle0Fit_deg"], e))
    # the source
    d = m["phiPeakPIfit_rm2"] - phi0
    snr = c["p"] * np.sqrt((w * np.abs(rr) ** 2).sum() ** 2 / ((w * dqu / unit) ** 2 * np.abs(rr) ** 2)[good].sum()) if c["noise"] else np.inf
    if snr < 30:
        return False
    slack = 0 if not c["noise"] else 6 / snr
    check(abs(d) <= (0.1 + slack) * fw, lambda: "depth %g, source at %g (width %g)" % (m["phiPeakPIfit_rm2"], phi0, fw))
    check(abs(m["ampPeakPIfit"] / (c["p"] * I0) - 1) <= 0.05 + slack, lambda: "amplitude %g, source has %g" % (m["ampPeakPIfit"], c["p"] * I0))
    check(abs(m["fracPol"] / c["p"] - 1) <= 0.05 + slack, lambda: "polarised fraction %g, source has %g" % (m["fracPol"], c["p"]))
    ang = (m["polAngle0Fit_deg"] - c["psi"] + np.degrees(d * L0) + 90) % 180 - 90
    check(abs(ang) <= 3 + np.degrees(slack), lambda: "angle %g, source has %g (depth off by %g)" % (m["polAngle0Fit_deg"], c["psi"], d))
    ang = (m["polAngleFit_deg"] - c["psi"] - np.degrees(phi0 * L0) + 90) % 180 - 90
    check(abs(ang) <= 3 + np.degrees(slack), lambda: "angle %g at the reference wavelength" % m["polAngleFit_deg"])
    # RMSF: response to a unit source at the peak, on its own axis
    x, y = a["phi2Arr_radm2"], a["RMSFArr"]
    check(x.shape == y.shape, lambda: "RMSF: %d values on %d depths" % (len(y), len(x)))
    src = phi[1:-1][np.argmin(np.abs(phi[1:-1] - m["phiPeakPIfit_rm2"]))]
    RS = average(W, f, src)
    j = np.argmin(np.abs(x - src))
    jj = np.unique(np.clip(np.r_[j - 20, j - 3 : j + 4, j + 17], 0, len(x) - 1))
    opts = []
    for s in (src - fw / c["ns"], src, src + fw / c["ns"]):
        RS = average(W, f, s)
        opts.append(max(abs(y[i] - np.exp(2j * x[i] * L0) * (w * RS * np.conj(average(W, f, x[i]))).sum() / w.sum()) for i in jj))
    check(min(opts) <= 1e-5, lambda: "RMSF is not the response to a source at the peak (off by %g)" % min(opts))
    return bool(np.abs(rr).min() < 0.9)


# the same at the size of survey data
sub("planes_large", wider(st.fixed_dictionaries(pl), n=st.integers(40, 200), dims=st.sampled_from([[], [30], [6, 7]]), phi=phi_cases(50, 200, kinds=("sym", "asym", "irr", "desc", "pos"))), quick=30, thorough=200, min_shard=1,
    rule="as planes, with hundreds of channels and depths; non-trivial as there")(planes)
