"""C02: flagged channels / voxels behave as if they were absent.

Technique: property-based testing: metamorphic relation (NaN-flag a channel == delete it) plus a reference model per pixel
Assurance: exploration of generated spectra, cubes, flag patterns and weights; no proof
"""
import numpy as np
from hypothesis import strategies as st

from vlib import ref
from vlib.gen import freq_cases, freqs, l2_of, phi_cases, phis, seeds, thin, weights, wider
from vlib.harness import check, fail, skip, sub

from RMutils.util_RM import do_rmsynth_planes, get_rmsf_planes

ASSUMPTIONS = [
    "flagging is by NaN (not Inf); the theoretical RMSF width and quantities derived from it are compared only when the extreme channels are unflagged",
    "median_channel_width is not compared: deleting channels changes the spacing of the listed channels",
]

KINDS = ["Q", "U", "both", "mixed"]


def flag(q, u, sel, kind, r):
    q, u = q.copy(), u.copy()
    if kind in ("Q", "both"):
        q[sel] = np.nan
    if kind in ("U", "both"):
        u[sel] = np.nan
    if kind == "mixed":
        a = r.rand(*sel.shape) < 0.5
        q[sel & a] = np.nan
        u[sel & ~a] = np.nan
    return q, u


def pick(n, frac, r, keep_ends=False):
    sel = r.rand(n) < frac
    if keep_ends:
        sel[0] = sel[-1] = False
    return sel


chan_case = st.fixed_dictionaries({
    "freq": freq_cases(4, 40), "phi": phi_cases(2, 40), "shape": st.sampled_from([[], [1], [3], [2, 2], [1, 3]]),
    "w": st.sampled_from(["none", "rand", "dyn", "zeros", "nan"]), "flag": st.sampled_from(KINDS + ["w"]),
    "frac": st.sampled_from([0.1, 0.3, 0.6]), "bits": st.sampled_from([32, 64]), "seed": seeds,
})


@sub("channels", chan_case, quick=600, thorough=20000,
     rule="whole channels NaN in Q only, U only, both, a mixture, or in the weights; compared with the call on the channels that remain; non-trivial when >=1 channel is flagged and >=2 remain with weight")
def channels(c):
    r = np.random.RandomState(c["seed"])
    l2 = l2_of(freqs(c["freq"]))
    n = len(l2)
    phi = phis(c["phi"], l2)
    shape = tuple([n] + c["shape"])
    q, u = r.randn(*shape), r.randn(*shape)
    w = weights(c["w"], n, r)
    sel = pick(n, c["frac"], r)
    w1 = np.ones(n) if w is None else w.copy()
    keep = ~sel
    if (keep & np.isfinite(w1) & (w1 > 0)).sum() < 1:
        skip()
    msk = sel.copy()
    if c["flag"] == "w":
        w = np.where(sel, np.nan, w1)
        qf, uf = q, u
        wk = w1[keep]
    else:
        full = np.broadcast_to(sel.reshape([n] + [1] * (len(shape) - 1)), shape)
        qf, uf = flag(q, u, full, c["flag"], r)
        wk = None if w is None else w[keep]
    F, l20 = do_rmsynth_planes(qf, uf, l2, phi, weightArr=None if w is None else w.copy(), nBits=c["bits"])[:2]
    G, m20 = do_rmsynth_planes(q[keep], u[keep], l2[keep], phi, weightArr=None if wk is None else wk.copy(), nBits=c["bits"])[:2]
    check(abs(l20 - m20) <= 1e-6 * abs(m20), lambda: "lambda0^2 is %r with flagged channels and %r without them" % (l20, m20))
    wg = np.where(np.isfinite(w1), w1, 0)[keep]
    s = (np.abs(q[keep] + 1j * u[keep]).reshape(keep.sum(), -1) * wg[:, None]).sum(0).max() / wg.sum()
    d = np.abs(np.asarray(F) - np.asarray(G))
    check(np.nanmax(d) <= 2e-4 * s and np.array_equal(np.isnan(F), np.isnan(G)),
          lambda: "FDF changes by %.3g (scale %.3g) when flagged channels are deleted" % (np.nanmax(d), s))
    # RMSF with the matching mask
    mask = None if c["flag"] == "w" else (msk if not c["shape"] else np.broadcast_to(msk.reshape([n] + [1] * len(c["shape"])), shape).copy())
    R = get_rmsf_planes(l2, phi, weightArr=None if w is None else w.copy(), mskArr=mask, nBits=c["bits"])
    S = get_rmsf_planes(l2[keep], phi, weightArr=None if wk is None else wk.copy(), nBits=c["bits"])
    check(abs(R.lam0Sq_m2 - S.lam0Sq_m2) <= 1e-6 * S.lam0Sq_m2, "RMSF lambda0^2 depends on flagged channels")
    a = np.asarray(R.RMSFcube).reshape(len(R.phi2Arr), -1)
    b = np.asarray(S.RMSFcube).reshape(len(S.phi2Arr), 1)
    ph = 1e-6 * 4 * np.abs(phi).max() * np.ptp(l2) if c["bits"] == 32 else 0
    check(np.abs(a - b).max() <= 1e-5 + ph, lambda: "RMSF changes by %.3g when flagged channels are deleted" % np.abs(a - b).max())
    return bool(sel.any()) and (wg > 0).sum() >= 2


vox_case = st.fixed_dictionaries({
    "freq": freq_cases(4, 30), "phi": phi_cases(2, 30), "shape": st.sampled_from([[3], [2, 2], [1, 3], [4, 1], [3, 3]]),
    "w": st.sampled_from(["none", "rand", "dyn", "nan"]), "flag": st.sampled_from(KINDS),
    "frac": st.sampled_from([0.05, 0.2, 0.5]), "dead": st.booleans(), "bits": st.sampled_from([32, 64]), "seed": seeds,
})


@sub("voxels", vox_case, quick=500, thorough=20000,
     rule="isolated voxel flags (and optionally one dead pixel); each pixel compared with its own direct sum over remaining channels, unflagged pixels with the unflagged run; non-trivial when some pixel has a proper subset of its channels flagged")
def voxels(c):
    r = np.random.RandomState(c["seed"])
    l2 = l2_of(freqs(c["freq"]))
    n = len(l2)
    phi = phis(c["phi"], l2)
    shape = tuple([n] + c["shape"])
    q, u = r.randn(*shape), r.randn(*shape)
    w = weights(c["w"], n, r)
    w1 = np.ones(n) if w is None else w
    sel = r.rand(*shape) < c["frac"]
    sf = sel.reshape(n, -1)
    sf[:, r.rand(sf.shape[1]) < 0.3] = False
    if c["dead"]:
        sf[:, r.randint(sf.shape[1])] = True
    qf, uf = flag(q, u, sel, c["flag"], r)
    F, l20 = do_rmsynth_planes(qf, uf, l2, phi, weightArr=None if w is None else w.copy(), nBits=c["bits"])[:2]
    F = np.asarray(F).reshape(len(phi), -1)
    G, m20 = do_rmsynth_planes(q, u, l2, phi, weightArr=None if w is None else w.copy(), lam0Sq_m2=l20, nBits=c["bits"])[:2]
    G = np.asarray(G).reshape(len(phi), -1)
    deadplane = sf.all(1)
    wl = np.where(deadplane, 0.0, np.where(np.isfinite(w1), w1, 0.0))
    if wl.sum() == 0:
        check(np.all(np.isnan(F)), "everything flagged must give NaN")
        return False
    check(abs(l20 - ref.lam0(wl, l2)) <= 1e-6 * l20, "lambda0^2 is not the weighted mean over usable channels")
    p = (q + 1j * u).reshape(n, -1)
    nontriv = False
    R = get_rmsf_planes(l2, phi, weightArr=None if w is None else w.copy(), mskArr=sel, lam0Sq_m2=l20, nBits=c["bits"])
    RM = np.asarray(R.RMSFcube).reshape(len(R.phi2Arr), -1)
    span = 2 * np.abs(R.phi2Arr).max() * max(np.abs(l2 - l20).max(), 1e-9)
    rt = 3e-5 + (1e-6 * span if c["bits"] == 32 else 0)
    for k in range(p.shape[1]):
        good = ~sf[:, k] & np.isfinite(w1)
        wk = np.where(good, w1, 0.0)
        if not good.any():
            check(np.all(np.isnan(F[:, k])), "a fully flagged pixel must be NaN, got %r" % F[0, k])
            continue
        s = (wk * np.abs(p[:, k])).sum() / wk.sum()
        exp = ref.fdf(np.where(good, p[:, k], np.nan), wk, l2, phi, l20)
        d = np.abs(F[:, k] - exp).max()
        check(d <= 3e-5 * s, lambda: "pixel %d with %d of %d channels flagged: FDF is off its own weighted transform by %.3g (scale %.3g)" % (k, sf[:, k].sum(), n, d, s))
        if not sf[:, k].any():
            check(np.abs(F[:, k] - G[:, k]).max() <= 3e-5 * s, "flags elsewhere change an unflagged pixel")
        e = ref.rmsf(wk, l2, R.phi2Arr, l20)
        check(np.abs(RM[:, k] - e).max() <= rt, lambda: "pixel %d: RMSF off its own channels' response by %.3g" % (k, np.abs(RM[:, k] - e).max()))
        nontriv |= 0 < sf[:, k].sum() < n
    return nontriv


tool_case = st.fixed_dictionaries({
    "freq": freq_cases(10, 40, kinds=("lin", "gap", "jit")), "seed": seeds, "wt": st.sampled_from(["variance", "uniform"]),
    "flag": st.sampled_from(["Q", "U", "both", "mixed", "all", "dQ"]), "frac": st.sampled_from([0.05, 0.2, 0.5]),
    "cols": st.sampled_from([5, 7]), "bits": st.sampled_from([32, 64]), "ends": st.booleans(), "ord": st.integers(0, 2), "super": st.sampled_from([False, False, True]),
})

KEYS = ["lam0Sq_m2", "freq0_Hz", "dFDFth", "N_channels", "min_freq", "max_freq", "phiPeakPIfit_rm2", "ampPeakPIfit", "ampPeakPIfitEff",
        "fracPol", "snrPIfit", "dAmpPeakPIfit", "sigmaAddQ", "sigmaAddU", "sigmaAddC", "Ifreq0", "dPolAngle0Fit_deg"]
KEYS_W = ["fwhmRMSF", "dPhiPeakPIfit_rm2", "dPolAngleFit_deg", "dFDFcorMAD", "dQU"]


@sub("tool1d", tool_case, quick=160, thorough=4000,
     rule="1D run_rmsynth on a spectrum with NaN channels (Q only, U only, both, mixed, all columns, weights) against the spectrum with those channels deleted, same depth grid; non-trivial when >=1 channel flagged")
def tool1d(c):
    from RMtools_1D.do_RMsynth_1D import run_rmsynth

    r = np.random.RandomState(c["seed"])
    f = freqs(c["freq"])
    l2 = l2_of(f)
    n = len(f)
    fwhm = 3.8 / np.ptp(l2)
    p = thin(l2, 0.4, 180 * r.rand(), r.uniform(-3, 3) * fwhm)
    # a supplied model is interpolated linearly between channels, so it is made linear here
    I = 2.0 * (1.0 - 0.7 * (f / f.mean() - 1.0)) if c["cols"] == 7 else np.ones(n)
    dq = 0.03 * (0.5 + r.rand(n)) * I
    du = 0.03 * (0.5 + r.rand(n)) * I
    q, u = p.real * I + dq * r.randn(n), p.imag * I + du * r.randn(n)
    dI = 0.01 * I
    In = I + dI * r.randn(n)
    sel = pick(n, c["frac"], r, c["ends"])
    keep = ~sel
    if keep.sum() < 6:
        skip()
    fl = c["flag"]
    kw = {}
    qf, uf, If, dqf = q.copy(), u.copy(), In.copy(), dq.copy()
    if fl == "all":
        qf[sel] = uf[sel] = If[sel] = np.nan
    elif fl == "dQ":
        if c["wt"] != "variance":
            skip()
        dqf[sel] = np.nan
    else:
        qf, uf = flag(q, u, sel, fl, r)
    if c["cols"] == 7:
        data = [f, If, qf, uf, dI, dqf, du]
        dele = [x[keep] for x in [f, In, q, u, dI, dq, du]]
        if fl == "all":
            kw["polyOrd"] = c["ord"]
            kd = dict(kw)
        else:  # Stokes I of the flagged channels stays valid, so the model is supplied
            kw["modStokesI"] = I
            kd = {"modStokesI": I[keep]}
    else:
        data = [f, qf, uf, dqf, du]
        dele = [x[keep] for x in [f, q, u, dq, du]]
        kd = {}
    opt = dict(weightType=c["wt"], nBits=c["bits"], phiMax_radm2=8 * fwhm, dPhi_radm2=fwhm / 8)
    if c["super"] and c["cols"] == 5:  # (with Stokes I the flux scale would refer to the mean of the listed channels)
        opt["super_resolution"] = True
    m1, a1 = run_rmsynth([x.copy() for x in data], **opt, **kw)
    m2, a2 = run_rmsynth([x.copy() for x in dele], **opt, **kd)
    s = np.abs(a2["dirtyFDF"]).max()
    ph = 2e-6 * 2 * np.abs(a1["phi2Arr_radm2"]).max() * l2.max() if c["bits"] == 32 else 0
    check(np.array_equal(a1["phiArr_radm2"], a2["phiArr_radm2"]), "depth grids differ")
    check(np.nanmax(np.abs(a1["dirtyFDF"] - a2["dirtyFDF"])) <= s * (3e-4 + ph), lambda: "dirty FDF depends on flagged channels (%.3g of %.3g)" % (np.abs(a1["dirtyFDF"] - a2["dirtyFDF"]).max(), s))
    check(np.abs(a1["RMSFArr"] - a2["RMSFArr"]).max() <= 1e-4 + ph, lambda: "RMSF depends on flagged channels (differs by %.3g)" % np.abs(a1["RMSFArr"] - a2["RMSFArr"]).max())
    keys = list(KEYS)
    if fl in ("Q", "U", "mixed", "dQ"):
        # the complexity metric has separate Q and U parts; a half-flagged channel keeps its valid half
        keys = [k for k in keys if not k.startswith("sigmaAdd")]
    if not (sel[0] or sel[-1]):
        keys += KEYS_W
    if opt.get("super_resolution"):
        keys.remove("freq0_Hz")
    dphi = fwhm / 8
    for k in keys:
        x, y = float(m1[k]), float(m2[k])
        t = 2e-3 * abs(y) + 1e-12
        if k == "dQU":
            continue
        if k == "phiPeakPIfit_rm2":
            t = 0.02 * dphi
        if k.startswith("sigmaAdd"):
            t = 0.03 * abs(y) + 0.03
        if k in ("lam0Sq_m2", "freq0_Hz", "N_channels", "min_freq", "max_freq"):
            t = 1e-6 * abs(y)
        if not (np.isfinite(x) or np.isfinite(y)):
            continue
        check(abs(x - y) <= t, lambda: "%s = %r with flagged channels, %r when they are deleted (flags: %s, %s weights)" % (k, x, y, fl, c["wt"]))
    return bool(sel.any())


cube_case = st.fixed_dictionaries({
    "freq": freq_cases(6, 20, kinds=("lin", "gap", "jit")), "seed": seeds, "shape": st.sampled_from([[2, 2], [2, 3], [3, 2]]),
    "flag": st.sampled_from(KINDS), "planes": st.booleans(), "frac": st.sampled_from([0.1, 0.3]), "w": st.booleans(), "I": st.booleans(),
})


@sub("tool3d", cube_case, quick=160, thorough=4000,
     rule="3D run_rmsynth with plane or voxel flags: FDF and RMSF of each pixel against the direct sum over the channels where both Q and U are valid; non-trivial when some pixel is partly flagged")
def tool3d(c):
    from RMtools_3D.do_RMsynth_3D import run_rmsynth

    r = np.random.RandomState(c["seed"])
    f = freqs(c["freq"])
    l2 = l2_of(f)
    n = len(f)
    shape = tuple([n] + c["shape"])
    q, u = r.randn(*shape), r.randn(*shape)
    if c["planes"]:
        sel = np.broadcast_to(pick(n, c["frac"], r).reshape(n, 1, 1), shape).copy()
    else:
        sel = r.rand(*shape) < c["frac"]
    if sel.all(0).any() or (~sel).all((1, 2)).sum() < 1:
        skip()
    qf, uf = flag(q, u, sel, c["flag"], r)
    fwhm = 3.8 / np.ptp(l2)
    kw = {}
    if c["w"]:
        kw = dict(weightType="variance", rmsArr=0.5 + r.rand(n))
    out = run_rmsynth(qf, uf, f, phiMax_radm2=5 * fwhm, dPhi_radm2=fwhm / 5, nBits=32, verbose=False, **kw)
    F, phi, R, phi2, fw, stt, l20, _ = out
    w = 1 / kw["rmsArr"] ** 2 if c["w"] else np.ones(n)
    dead = sel.all((1, 2))
    check(abs(l20 - ref.lam0(np.where(dead, 0, w), l2)) <= 1e-6 * l20, "lambda0^2 is not the weighted mean over usable channels")
    nt = False
    for iy in range(shape[1]):
        for ix in range(shape[2]):
            s = sel[:, iy, ix]
            e = ref.fdf(np.where(s, np.nan, q[:, iy, ix] + 1j * u[:, iy, ix]), w, l2, phi, l20)
            check(np.abs(F[:, iy, ix] - e).max() <= 1e-3 * np.abs(q[:, iy, ix] + 1j * u[:, iy, ix]).mean(), lambda: "FDF of pixel (%d,%d) is not the transform of its valid channels" % (iy, ix))
            e = ref.rmsf(np.where(s, 0, w), l2, phi2, l20)
            d = np.abs(R[:, iy, ix] - e).max()
            check(d <= 1e-3, lambda: "RMSF of pixel (%d,%d) counts channels flagged in %s (differs by %.3g)" % (iy, ix, c["flag"], d))
            nt |= bool(s.any())
    return nt


# the same at the size of survey data
sub("channels_large", wider(chan_case, freq=freq_cases(100, 500), phi=phi_cases(100, 500), shape=st.sampled_from([[], [30], [9, 12]])), quick=48, thorough=400, min_shard=2,
    rule="as channels, with hundreds of channels, depths and pixels; non-trivial as there")(channels)
sub("voxels_large", wider(vox_case, freq=freq_cases(100, 500), phi=phi_cases(100, 500), shape=st.sampled_from([[30], [9, 12]])), quick=48, thorough=400, min_shard=2,
    rule="as voxels, with hundreds of channels, depths and pixels; non-trivial as there")(voxels)
