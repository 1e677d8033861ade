"""C07: the 1D pipeline recovers the parameters of a Faraday-thin source.

Technique: property-based testing against analytic truth (generated thin sources, with and without Stokes I and noise) and metamorphic relations (angle rotation, Faraday screen, scaling, conjugation, channel order)
Assurance: exploration of generated inputs; no proof
"""
import numpy as np
from hypothesis import strategies as st

from vlib import ref
from vlib.gen import freq_cases, freqs, l2_of, seeds, thin, wider
from vlib.harness import check, skip, sub

from RMtools_1D.do_RMsynth_1D import run_rmsynth

ASSUMPTIONS = ["the depth grid samples the RMSF at least eight times per width", "layouts whose RMSF has a second lobe nearly as high as the first (aliases) are excluded",
               "noisy recovery is judged at 6.5 quoted standard deviations, for similar weights in all channels"]

base = {
    "freq": freq_cases(8, 60, kinds=("lin", "gap", "jit", "rand", "desc", "shuf")),
    "os": st.sampled_from([8.3, 12.3, 20.3]), "half": st.integers(30, 120),
    "p": st.sampled_from([0.01, 0.1, 0.7, 3.0]), "psi": st.floats(0, 180), "where": st.floats(-1, 1),
    "wt": st.sampled_from(["variance", "uniform"]), "bits": st.sampled_from([32, 64]),
    "scale": st.sampled_from([1.0, 1e-6, 1e3]), "flag": st.booleans(), "seed": seeds,
}


def adiff(a, b, period=180.0):
    return (np.asarray(a) - b + period / 2) % period - period / 2


def setup(c, lobe=0.85, weights=True):
    r = np.random.RandomState(c["seed"])
    f = freqs(c["freq"])
    n = len(f)
    l2 = l2_of(f)
    bad = np.zeros(n, bool)
    if c["flag"]:
        bad[r.rand(n) < 0.2] = True
        if (~bad).sum() < 5:
            bad[:] = False
    fw = 3.8 / np.ptp(l2)
    dphi = fw / c["os"]
    phimax = c["half"] * dphi
    # phases must stay within what single precision resolves
    if 2 * phimax * np.ptp(l2) > 600 or 2 * phimax * l2.max() > 4000 and c["bits"] == 32:
        skip()
    sig = 0.5 + r.rand(n) if weights else 0.9 + 0.2 * r.rand(n)
    w = np.where(bad, 0, 1 / sig**2 if c["wt"] == "variance" else 1.0)
    x = np.arange(0, 2 * phimax, dphi / 2)
    R = np.abs(ref.rmsf(w, l2, x, ref.lam0(w, l2)))
    up = np.nonzero(np.diff(R) > 0)[0]
    if len(up) and R[up[0]:].max() > lobe:
        skip("ambiguous RMSF")
    if R[int(c["os"])] > 0.97:
        skip("flags leave an RMSF far wider than the grid was made for")
    phi0 = c["where"] * (phimax - 2.5 * fw)
    return r, f, l2, bad, sig, w, fw, dphi, phimax, phi0


def stokes_i(kind, f, r, amp):
    x = (f - f.mean()) / f.mean()
    if kind == "linear":
        s = r.uniform(-0.5, 0.5) / max(np.abs(x).max(), 0.05) * 0.5
        return amp * (1 + s * x), {"fit_function": "linear", "polyOrd": int(r.randint(1, 4))}, lambda g: amp * (1 + s * (g - f.mean()) / f.mean())
    if kind == "log":
        al = r.uniform(-2, 2)
        return amp * (f / f.mean()) ** al, {"fit_function": "log", "polyOrd": int(r.randint(1, 4))}, lambda g: amp * (g / f.mean()) ** al
    if kind == "auto":
        al = r.uniform(-2, 2)
        return amp * (f / f.mean()) ** al, {"fit_function": "log", "polyOrd": -3}, lambda g: amp * (g / f.mean()) ** al
    return None, {}, lambda g: 1.0


@sub("recover", st.fixed_dictionaries(dict(base, I=st.sampled_from(["none", "none5", "linear", "log", "auto", "model"]))), quick=600, thorough=20000,
     rule="noise-free thin sources anywhere in the sampled range, six kinds of Stokes I input, both weightings and precisions, flagged channels; non-trivial when the RMSF is unambiguous")
def recover(c):
    r, f, l2, bad, sig, w, fw, dphi, phimax, phi0 = setup(c)
    n = len(f)
    amp = c["scale"] * r.uniform(0.5, 5)
    P = thin(l2, c["p"], c["psi"], phi0)
    e = 1e-4 * c["p"] * sig
    k = c["I"]
    kw = {}
    if k in ("none", "none5"):
        Q, U, dQ, I0 = P.real * amp, P.imag * amp, e * amp, lambda g: 1.0
        fac = amp
        data = [f, Q, U, dQ, dQ.copy()] if k == "none5" else [f, np.ones(n) * 7.0, Q, U, np.ones(n), dQ, dQ.copy()]
        kw["noStokesI"] = k == "none"
    else:
        I, kw, I0 = stokes_i("linear" if k == "model" else k, f, r, amp)
        Q, U, dQ = P.real * I, P.imag * I, e * I
        fac = 1.0
        dI = np.full(n, 1e-4 * amp)
        if k == "auto":
            dI *= 10
        data = [f, I, Q, U, dI, dQ, dQ.copy()]
        if k == "model":
            kw = {"modStokesI": I.copy()}
            data[1] = np.full(n, 3.0 * amp)
    data = [np.array(d, float) for d in data]
    qi = 1 if len(data) == 5 else 2
    data[qi][bad] = np.nan
    m, a = run_rmsynth(data, phiMax_radm2=phimax, dPhi_radm2=dphi, weightType=c["wt"], nBits=c["bits"], **kw)
    l20 = m["lam0Sq_m2"]
    f0 = ref.C / np.sqrt(l20)
    check(abs(m["freq0_Hz"] - f0) <= 1e-7 * f0, "freq0 is not the frequency of lam0Sq")
    # with Stokes I the variance weights refer to fractional errors, which are sig * const here
    check(abs(l20 - ref.lam0(w, l2)) <= 2e-3 * np.ptp(l2), lambda: "lam0Sq %g, weighted mean over good channels %g" % (l20, ref.lam0(w, l2)))
    d = m["phiPeakPIfit_rm2"] - phi0
    check(abs(d) <= 0.06 * dphi + 2e-6 * abs(phimax), lambda: "depth %g reported for a source at %g (grid spacing %g)" % (m["phiPeakPIfit_rm2"], phi0, dphi))
    It = I0(f0)
    if k not in ("none", "none5"):
        check(abs(m["Ifreq0"] - It) <= 2e-3 * abs(It), lambda: "Stokes I at freq0 is %g, reported %g" % (It, m["Ifreq0"]))
    else:
        check(abs(m["Ifreq0"] - 1) < 1e-9, "without Stokes I the reference flux must be 1")
    A = c["p"] * fac * It
    check(abs(m["ampPeakPIfit"] - A) <= 0.01 * A, lambda: "polarised intensity %g reported, true %g" % (m["ampPeakPIfit"], A))
    check(abs(m["fracPol"] - c["p"] * fac) <= 0.012 * c["p"] * fac, lambda: "fractional polarisation %g reported, true %g" % (m["fracPol"], c["p"] * fac))
    da = adiff(m["polAngle0Fit_deg"] + np.degrees(d * l20), c["psi"])
    check(abs(da) <= 1.0, lambda: "intrinsic angle %g reported, true %g (depth error explains %g)" % (m["polAngle0Fit_deg"], c["psi"], -np.degrees(d * l20)))
    da = adiff(m["polAngleFit_deg"], c["psi"] + np.degrees(phi0 * l20))
    check(abs(da) <= 1.0 + np.degrees(2e-6 * phimax * l20), lambda: "angle at freq0 %g reported, true %g" % (m["polAngleFit_deg"], (c["psi"] + np.degrees(phi0 * l20)) % 180))
    check(0 <= m["polAngle0Fit_deg"] < 180 and 0 <= m["polAngleFit_deg"] < 180, "angles are not in [0,180)")
    check(m["N_channels"] == (~bad).sum(), "channel count")
    return True


@sub("noisy", st.fixed_dictionaries(dict(base, snr=st.sampled_from([12.0, 30.0, 200.0]), I=st.booleans())), quick=600, thorough=20000,
     rule="thin sources with Gaussian noise of the stated size, FDF signal to noise 12-200; errors compared with the quoted uncertainties; non-trivial when the RMSF is unambiguous")
def noisy(c):
    r, f, l2, bad, sig, w, fw, dphi, phimax, phi0 = setup(c, lobe=0.65, weights=False)
    good = ~bad
    n = good.sum()
    if n < 8 or np.std(l2[good]) < 0.8 * np.ptp(l2) / np.sqrt(12):
        skip("the quoted width assumes channels spread over the band")
    amp = c["scale"]
    s = c["p"] * np.sqrt(n) / c["snr"] * sig
    P = thin(l2, c["p"], c["psi"], phi0) + s * (r.randn(len(f)) + 1j * r.randn(len(f)))
    P[bad] = np.nan
    f0_I = 1.0
    if c["I"]:
        x = (f - f.mean()) / np.ptp(f)
        I = amp * (1 + 0.4 * x)
        data = [f, I, P.real * I, P.imag * I, I * 1e-3, s * I, s * I]
        kw = {"fit_function": "linear", "polyOrd": 1}
    else:
        data = [f, P.real * amp, P.imag * amp, s * amp, s * amp]
        kw = {}
        f0_I = amp
    m, a = run_rmsynth(data, phiMax_radm2=phimax, dPhi_radm2=dphi, weightType=c["wt"], nBits=c["bits"], **kw)
    K = 6.5
    l20 = m["lam0Sq_m2"]
    d = m["phiPeakPIfit_rm2"] - phi0
    check(abs(m["snrPIfit"] - c["snr"]) <= 0.15 * c["snr"] + K, lambda: "S/N %g reported for a source of S/N %g" % (m["snrPIfit"], c["snr"]))
    check(abs(d) <= K * m["dPhiPeakPIfit_rm2"] + 0.06 * dphi, lambda: "depth off by %g with a quoted error of %g" % (d, m["dPhiPeakPIfit_rm2"]))
    A = c["p"] * f0_I
    fr = m["fracPol"] - A
    sA = m["dAmpPeakPIfit"] / m["Ifreq0"]
    check(abs(fr) <= K * sA + 0.01 * A, lambda: "fractional polarisation off by %g with a quoted error of %g" % (fr, sA))
    da = adiff(m["polAngleFit_deg"], c["psi"] + np.degrees((phi0 + d) * l20) - np.degrees(d * l20))
    check(abs(da) <= K * m["dPolAngleFit_deg"] + 1.0, lambda: "angle off by %g with a quoted error of %g" % (da, m["dPolAngleFit_deg"]))
    da = adiff(m["polAngle0Fit_deg"], c["psi"])
    check(abs(da) <= K * m["dPolAngle0Fit_deg"] + 1.0 + np.degrees(0.06 * dphi * l20), lambda: "derotated angle off by %g with a quoted error of %g" % (da, m["dPolAngle0Fit_deg"]))
    return True


@sub("relations", st.fixed_dictionaries(dict(base, op=st.sampled_from(["rotate", "screen", "scale", "conj", "order"]), noise=st.sampled_from([0.0, 0.2]), I=st.booleans(), rot=st.floats(1, 179))),
     quick=600, thorough=20000,
     rule="the same spectrum, possibly noisy and with Stokes I, analysed before and after rotating, screening, scaling, conjugating or reordering it; non-trivial when the RMSF is unambiguous")
def relations(c):
    c = dict(c, bits=64)
    r, f, l2, bad, sig, w, fw, dphi, phimax, phi0 = setup(c)
    n = len(f)
    op = c["op"]
    phi0 *= 0.5
    s = c["p"] * max(c["noise"], 1e-3) * sig
    P = thin(l2, c["p"], c["psi"], phi0) + c["p"] * c["noise"] * sig * (r.randn(n) + 1j * r.randn(n))
    P[bad] = np.nan
    x = (f - f.mean()) / np.ptp(f)
    I = c["scale"] * (1 + 0.4 * x)
    rot, k, scr = 0.0, 1.0, 0.0
    P2, f2, I2, s2 = P, f, I, s
    if op == "rotate":
        rot = c["rot"]
        P2 = P * np.exp(2j * np.radians(rot))
    elif op == "screen":
        m_ = c["half"] // 4
        scr = dphi * (r.randint(2 * m_ + 1) - m_)
        P2 = P * np.exp(2j * scr * l2)
    elif op == "scale":
        k = 10 ** r.uniform(-3, 3)
    elif op == "conj":
        P2 = P.conj()
    else:
        o = r.permutation(n)
        P2, f2, I2, s2 = P[o], f[o], I[o], s[o]

    def go(f, I, P, s, k):
        kw = dict(phiMax_radm2=phimax, dPhi_radm2=dphi, weightType=c["wt"], nBits=64)
        if c["I"]:
            return run_rmsynth([f.copy(), k * I, k * P.real * I, k * P.imag * I, k * 1e-3 * I, k * s * I, k * s * I], fit_function="linear", polyOrd=1, **kw)
        return run_rmsynth([f.copy(), k * P.real, k * P.imag, k * s, k * s], **kw)

    m, a = go(f, I, P, s, 1.0)
    m2, a2 = go(f2, I2, P2, s2, k)
    if not np.isfinite(m["phiPeakPIfit_rm2"]) or abs(m["phiPeakPIfit_rm2"]) > phimax * 0.7:
        skip()
    srt = np.sort(np.abs(a["dirtyFDF"]))
    F = np.abs(a["dirtyFDF"])
    pk = F.argmax()
    lobes = [i for i in range(1, len(F) - 1) if F[i] >= F[i - 1] and F[i] >= F[i + 1] and i != pk]
    if lobes and max(F[i] for i in lobes) > 0.97 * F[pk] or max(F[0], F[-1]) > 0.9 * F[pk]:
        skip("a second lobe is nearly as high as the peak")
    if op == "screen":
        # samples entering at the edge must not hold a higher lobe
        F2 = np.abs(a2["dirtyFDF"])
        if abs(F2.argmax() - (pk + round(scr / dphi))) > 1:
            skip()
    tied = min(F[pk] - F[pk - 1], F[pk] - F[pk + 1]) < 1e-7 * F[pk]
    tol = 1e-4 if not tied else 0.02
    kk = k
    fk = 1.0 if c["I"] else k  # without Stokes I the "fractional" values are the fluxes themselves
    for key in ["ampPeakPIfit", "ampPeakPIfitEff", "dAmpPeakPIfit", "dFDFth"] + (["Ifreq0"] if c["I"] else []) + (["dFDFcorMAD"] if op in ("scale", "order") and not tied else []):
        check(abs(m2[key] - kk * m[key]) <= tol * abs(kk * m[key]) + 1e-30, lambda: "op %s: %s changed from %g to %g (factor %g expected)" % (op, key, m[key], m2[key], kk))
    check(abs(m2["fracPol"] - fk * m["fracPol"]) <= tol * abs(fk * m["fracPol"]), lambda: "op %s: fracPol changed from %g to %g" % (op, m["fracPol"], m2["fracPol"]))
    for key in ["dPhiPeakPIfit_rm2", "snrPIfit", "dPolAngleFit_deg", "dPolAngle0Fit_deg", "fwhmRMSF", "lam0Sq_m2", "freq0_Hz", "N_channels", "min_freq", "max_freq", "median_channel_width"]:
        check(abs(m2[key] - m[key]) <= tol * abs(m[key]) + 1e-30, lambda: "op %s: %s changed from %g to %g" % (op, key, m[key], m2[key]))
    sg = -1.0 if op == "conj" else 1.0
    l20 = m["lam0Sq_m2"]
    e = sg * m["phiPeakPIfit_rm2"] + scr
    dd = m2["phiPeakPIfit_rm2"] - e
    check(abs(dd) <= (1e-4 if not tied else 0.1) * dphi + 1e-9 * phimax, lambda: "op %s: depth %g, expected %g" % (op, m2["phiPeakPIfit_rm2"], e))
    at = 0.05 if not tied else 2.0
    da = adiff(m2["polAngleFit_deg"], sg * m["polAngleFit_deg"] + rot + np.degrees(scr * l20))
    check(abs(da) <= at, lambda: "op %s: angle at freq0 off by %g deg" % (op, da))
    da = adiff(m2["polAngle0Fit_deg"] + np.degrees(dd * l20), sg * m["polAngle0Fit_deg"] + rot)
    check(abs(da) <= at, lambda: "op %s: derotated angle off by %g deg" % (op, da))
    if op in ("rotate", "order", "scale"):
        check(np.allclose(np.abs(a2["dirtyFDF"]), kk * np.abs(a["dirtyFDF"]), rtol=1e-4, atol=1e-6 * kk * F.max()), "op %s: the FDF amplitude changed" % op)
    return True


@sub("grid", st.fixed_dictionaries({"freq": freq_cases(3, 60), "ns": st.sampled_from([3.0, 10.0, 17.5]), "dphi": st.sampled_from([None, 0.1, 0.37]), "pm": st.sampled_from([None, 3.0, 8.2]), "super": st.booleans(), "seed": seeds}),
     quick=300, thorough=5000,
     rule="default and requested depth grids; non-trivial always")
def grid(c):
    f = freqs(c["freq"])
    l2 = l2_of(f)
    fw = 3.8 / np.ptp(l2)
    if c["super"]:
        fw = 2.0 / (l2.max() + l2.min())
    dphi = None if c["dphi"] is None else c["dphi"] * fw
    pm = None if c["pm"] is None else c["pm"] * fw
    d = fw / c["ns"] if dphi is None else dphi
    e = max(np.sqrt(3) / np.diff(np.sort(l2)).max(), 10 * fw) if pm is None else pm
    if e / d > 3000:
        skip()
    n = len(f)
    m, a = run_rmsynth([f, np.ones(n), np.ones(n), np.ones(n) * 0.1, np.ones(n) * 0.1], phiMax_radm2=pm, dPhi_radm2=dphi, nSamples=c["ns"], nBits=64, super_resolution=c["super"])
    phi = a["phiArr_radm2"]
    check(len(phi) % 2 == 1 and abs(phi[len(phi) // 2]) < 1e-9 * e, "the depth grid is not centred on zero")
    check(np.allclose(np.diff(phi), d, rtol=1e-6), lambda: "grid spacing %g, expected %g" % (phi[1] - phi[0], d))
    check(abs(phi[-1] - e) <= 0.51 * d, lambda: "grid reaches %g, expected %g" % (phi[-1], e))
    return True


# the same at the size of survey data
big = dict(freq=freq_cases(100, 500, kinds=("lin", "gap", "jit", "rand", "desc", "shuf")), half=st.integers(150, 600))
sub("recover_large", wider(st.fixed_dictionaries(dict(base, I=st.sampled_from(["none", "none5", "linear", "log", "auto", "model"]))), **big), quick=72, thorough=500, min_shard=2,
    rule="as recover, with hundreds of channels and depths; non-trivial as there")(recover)
sub("noisy_large", wider(st.fixed_dictionaries(dict(base, snr=st.sampled_from([12.0, 30.0, 200.0, 2000.0]), I=st.booleans())), **big), quick=72, thorough=500, min_shard=2,
    rule="as noisy, with hundreds of channels and depths; non-trivial as there")(noisy)
