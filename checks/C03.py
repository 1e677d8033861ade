"""C03: the RMSF is the response of RM synthesis to a unit point source.

Technique: property-based testing against a direct-sum reference model, invariants (unit peak, bounded modulus, conjugate symmetry), a differential relation RMSF <-> FDF of a thin source, and an independent least-squares fit of the main lobe
Assurance: exploration of generated layouts, weights, masks, grids and options; no proof
"""
import numpy as np
from hypothesis import strategies as st
from scipy.optimize import curve_fit

from vlib import ref
from vlib.gen import freq_cases, freqs, l2_of, phi_cases, phis, seeds, thin, weights, wider
from vlib.harness import check, skip, sub

from RMutils.util_RM import do_rmsynth_planes, get_rmsf_planes

ASSUMPTIONS = [
    "tolerance 3e-5 (NUFFT precision) plus single-precision phase error when nBits=32",
    "the fitted width is compared with an independent fit only when the main lobe has at least 7 samples",
]

LN2 = np.log(2.0)

rmsf_case = st.fixed_dictionaries({
    "freq": freq_cases(2, 50), "phi": phi_cases(2, 60), "shape": st.sampled_from([None, [], [1], [3], [1, 1], [2, 2], [1, 3], [4, 1]]),
    "mask": st.sampled_from(["none", "planes", "voxels", "pixel"]), "w": st.sampled_from(["none", "rand", "dyn", "zeros", "nan"]),
    "lam0": st.sampled_from(["auto", "zero", "val"]), "double": st.booleans(), "bits": st.sampled_from([32, 64]), "seed": seeds,
})


def ext(phi):
    n = len(phi)
    e = int(np.ceil(n / 2))
    lo = phi[0] - (phi[1] - phi[0]) * np.arange(e, 0, -1)
    hi = phi[-1] + (phi[-1] - phi[-2]) * np.arange(1, e + 1)
    return np.concatenate([lo, phi, hi])


@sub("rmsf", rmsf_case, quick=900, thorough=30000,
     rule="random layouts, grids, weights, 1-3D masks (none, whole planes, isolated voxels, one dead pixel), options; non-trivial when >=2 channels carry weight in some pixel")
def rmsf(c):
    r = np.random.RandomState(c["seed"])
    l2 = l2_of(freqs(c["freq"]))
    n = len(l2)
    phi = phis(c["phi"], l2)
    w = weights(c["w"], n, r)
    w1 = np.ones(n) if w is None else w
    if c["shape"] is None:
        msk = None
        M = np.zeros((n, 1), bool)
        shape = ()
    else:
        shape = tuple(c["shape"])
        M = np.zeros((n, int(np.prod(shape)) if shape else 1), bool)
        if c["mask"] == "planes":
            M[r.rand(n) < 0.3] = True
        elif c["mask"] == "voxels":
            M = r.rand(*M.shape) < 0.2
        elif c["mask"] == "pixel":
            M[:, r.randint(M.shape[1])] = True
        msk = M.reshape((n,) + shape)
    lam0 = {"auto": None, "zero": 0.0, "val": float(l2.mean() * r.uniform(0.5, 1.5))}[c["lam0"]]
    wg = np.where(np.isfinite(w1), w1, 0.0)
    wl = np.where(M.all(1), 0.0, wg)
    if wl.sum() == 0:
        skip()
    R = get_rmsf_planes(l2, phi, weightArr=None if w is None else w.copy(), mskArr=None if msk is None else msk.copy(), lam0Sq_m2=lam0, double=c["double"], nBits=c["bits"])
    want = lam0 if lam0 is not None else ref.lam0(wl, l2)
    check(abs(R.lam0Sq_m2 - want) <= 1e-6 * abs(want), lambda: "lambda0^2 is %r, expected %r" % (R.lam0Sq_m2, want))
    p2 = ext(phi) if c["double"] else phi
    check(len(R.phi2Arr) == len(p2) and np.abs(R.phi2Arr - p2).max() <= 1e-9 * np.abs(p2).max(), lambda: "RMSF depth grid is wrong: %s, expected %s" % (R.phi2Arr, p2))
    cube = np.asarray(R.RMSFcube)
    wantshape = (len(p2),) + (shape if len(shape) == 2 else tuple(x for x in shape if x != 1))
    check(cube.shape == wantshape, lambda: "RMSF shape %s, expected %s" % (cube.shape, wantshape))
    cube = cube.reshape(len(p2), -1)
    fw = 3.8 / np.ptp(l2)
    check(np.asarray(R.fwhmRMSFArr).size == M.shape[1] and np.all(np.abs(np.asarray(R.fwhmRMSFArr) - fw) <= 1e-5 * fw), "unfitted width is not 3.8/(lambda^2 range)")
    span = 2 * np.abs(p2).max() * np.abs(l2 - R.lam0Sq_m2).max()
    t = 3e-5 + (1e-6 * span if c["bits"] == 32 else 0)
    nt = False
    for k in range(M.shape[1]):
        wk = np.where(M[:, k], 0.0, wg)
        if wk.sum() == 0:
            continue
        e = ref.rmsf(wk, l2, p2, R.lam0Sq_m2)
        d = np.abs(cube[:, k] - e)
        j = d.argmax()
        check(d[j] <= t, lambda: "pixel %d: RMSF(%g) = %s, the response of its channels is %s" % (k, p2[j], cube[j, k], e[j]))
        check(np.abs(cube[:, k]).max() <= 1 + t, "|RMSF| exceeds 1")
        nt |= (wk > 0).sum() >= 2
    return nt


sym_case = st.fixed_dictionaries({"freq": freq_cases(3, 40), "half": st.integers(2, 40), "os": st.sampled_from([4.0, 10.0]), "w": st.sampled_from(["none", "rand", "dyn"]), "lam0": st.sampled_from(["auto", "zero"]), "bits": st.sampled_from([32, 64]), "seed": seeds, "k": st.integers(-200, 200)})


@sub("source", sym_case, quick=300, thorough=10000,
     rule="symmetric grid: unit peak at zero depth, conjugate symmetry, and FDF of a thin source at a random grid or off-grid depth against the shifted RMSF; non-trivial always (>=3 channels)")
def source(c):
    r = np.random.RandomState(c["seed"])
    l2 = l2_of(freqs(c["freq"]))
    n = len(l2)
    d = 3.8 / np.ptp(l2) / c["os"]
    phi = np.arange(-c["half"], c["half"] + 1) * d
    w = weights(c["w"], n, r)
    lam0 = None if c["lam0"] == "auto" else 0.0
    R = get_rmsf_planes(l2, phi, weightArr=None if w is None else w.copy(), lam0Sq_m2=lam0, nBits=c["bits"])
    A = R.RMSFcube
    i0 = int(np.argmin(np.abs(R.phi2Arr)))
    span = 2 * np.abs(R.phi2Arr).max() * np.abs(l2 - R.lam0Sq_m2).max()
    t = 3e-5 + (1e-6 * span if c["bits"] == 32 else 0)
    check(abs(R.phi2Arr[i0]) < 1e-6 * d and abs(A[i0] - 1) <= 1e-5, lambda: "RMSF at zero depth is %s" % A[i0])
    m = min(i0, len(A) - 1 - i0)
    check(np.abs(A[i0 - m:i0 + m + 1][::-1].conj() - A[i0 - m:i0 + m + 1]).max() <= 2 * t, "RMSF is not conjugate-symmetric")
    phi0 = phi[c["k"] % len(phi)] if c["k"] % 2 else r.uniform(phi[0], phi[-1])
    psi = 180 * r.rand()
    p = thin(l2, 1.0, psi, phi0)
    F, l20 = do_rmsynth_planes(p.real.copy(), p.imag.copy(), l2, phi, weightArr=None if w is None else w.copy(), lam0Sq_m2=lam0, nBits=c["bits"])[:2]
    S = get_rmsf_planes(l2, phi - phi0, weightArr=None if w is None else w.copy(), lam0Sq_m2=l20, double=False, nBits=64).RMSFcube
    e = S * np.exp(2j * (np.radians(psi) + phi0 * l20))
    check(np.abs(F - e).max() <= 6e-5 + 1e-6 * span, lambda: "FDF of a unit source at %g is not the shifted RMSF (differs by %.3g)" % (phi0, np.abs(F - e).max()))
    return True


fit_case = st.fixed_dictionaries({"freq": freq_cases(6, 60), "os": st.sampled_from([6.0, 10.0, 20.0]), "w": st.sampled_from(["none", "rand"]), "real": st.booleans(), "shape": st.sampled_from([None, [3], [2, 2]]), "vox": st.booleans(), "bits": st.sampled_from([32, 64]), "seed": seeds})


def own_fit(x, y):
    """Least-squares Gaussian over the main lobe (samples above 0.4, symmetric about the peak)."""
    i = int(np.argmax(y))
    k = 1
    while i + k < len(y) and y[i + k] >= 0.4:
        k += 1
    if i + k >= len(y) or i - k + 1 < 0 or 2 * k - 1 < 7:
        return None
    xs, ys = x[i - k + 1:i + k], y[i - k + 1:i + k]
    if np.any(ys < 0.4 + 1e-4) or abs(y[i + k] - 0.4) < 1e-3:
        return None
    try:
        po, _ = curve_fit(lambda x, a, b, w: a * np.exp(-4 * LN2 * ((x - b) / w) ** 2), xs, ys, p0=[1.0, x[i], xs[-1] - xs[0]], maxfev=5000)
    except RuntimeError:
        return None
    return abs(po[2])


@sub("fitwidth", fit_case, quick=200, thorough=6000,
     rule="Gaussian fits of the main lobe (of |RMSF| or its real part), common or per pixel; non-trivial when the lobe has >=7 samples and the independent fit converged for at least one pixel")
def fitwidth(c):
    r = np.random.RandomState(c["seed"])
    l2 = l2_of(freqs(c["freq"]))
    n = len(l2)
    w = weights(c["w"], n, r)
    w1 = np.ones(n) if w is None else w
    if c["real"]:
        fw = 2.0 / (l2.max() + l2.min())
        if np.ptp(l2) < 0.2 * l2.max():
            skip()
    else:
        fw = 3.8 / np.ptp(l2)
    d = fw / c["os"]
    phi = np.arange(-int(5 * c["os"]), int(5 * c["os"]) + 1) * d
    msk = None
    npix = 1
    if c["shape"]:
        npix = int(np.prod(c["shape"]))
        M = np.zeros((n, npix), bool)
        if c["vox"]:
            M = r.rand(n, npix) < 0.15
            if (~M).sum(0).min() < 4:
                skip()
        msk = M.reshape([n] + c["shape"])
    R = get_rmsf_planes(l2, phi, weightArr=None if w is None else w.copy(), mskArr=msk, fitRMSF=True, fitRMSFreal=c["real"], lam0Sq_m2=0.0 if c["real"] else None, nBits=c["bits"])
    cube = np.asarray(R.RMSFcube).reshape(len(R.phi2Arr), npix)
    fws = np.asarray(R.fwhmRMSFArr).ravel()
    sts = np.asarray(R.statArr).ravel()
    nt = False
    for k in range(npix):
        if sts[k] < 1:
            check(abs(fws[k] - 3.8 / np.ptp(l2)) <= 1e-5 * fws[k], "the fit failed but the width is not the theoretical one")
            continue
        y = cube[:, k].real if c["real"] else np.abs(cube[:, k])
        e = own_fit(R.phi2Arr, y)
        if e is None:
            continue
        check(abs(fws[k] - e) <= 0.01 * e, lambda: "fitted RMSF width of pixel %d is %r, an independent fit gives %r" % (k, fws[k], e))
        nt = True
    return nt


@sub("noise3d", st.fixed_dictionaries({
    "freq": freq_cases(4, 30), "phi": phi_cases(2, 30), "shape": st.sampled_from([[], [3], [1, 1], [2, 3], [4, 1]]), "w": st.sampled_from(["vec", "same", "full", "full"]), "zero": st.sampled_from(["none", "zero", "nan"]),
    "lam0": st.sampled_from([None, None, "val", "map"]), "double": st.booleans(), "fit": st.sampled_from([None, None, "abs", "real"]), "bits": st.sampled_from([32, 64]), "seed": seeds}),
     quick=200, thorough=6000,
     rule="RMSF for weights of every voxel (vector, equal over the image, or free; zero or NaN weights; reference wavelength per pixel; fitted widths) against the direct sum and the fit of the same curve alone; non-trivial when >=2 channels carry weight")
def noise3d(c):
    from RMutils.util_RM import fit_rmsf, threeDnoise_get_rmsf_planes

    r = np.random.RandomState(c["seed"])
    l2 = l2_of(freqs(c["freq"]))
    n = len(l2)
    phi = phis(c["phi"], l2) if not c["fit"] else np.arange(-20, 21) * 3.8 / np.ptp(l2) / 8
    shape = (n,) + tuple(c["shape"])
    w = 0.1 + (r.rand(n) if c["w"] == "vec" else r.rand(*shape))
    if c["w"] == "same":
        w[:] = w.reshape(n, -1)[:, 0].reshape([n] + [1] * len(c["shape"]))
    if c["zero"] != "none":
        w[r.rand(n) < 0.2] = 0.0 if c["zero"] == "zero" else np.nan
    W = np.nan_to_num(w.reshape(n, -1))
    npix = W.shape[1]
    if (W > 0).sum(0).min() < 2:
        skip()
    lam0 = None
    if c["lam0"] == "val":
        lam0 = float(l2.mean() * r.uniform(0.5, 1.5))
    elif c["lam0"] == "map" and w.ndim == 3:
        lam0 = l2.mean() * r.uniform(0.5, 1.5, c["shape"])
    A, p2, fw, stat = threeDnoise_get_rmsf_planes(l2.copy(), phi.copy(), weightArr=w.copy(), lam0Sq_m2=lam0, double=c["double"], fitRMSF=c["fit"] is not None, fitRMSFreal=c["fit"] == "real", nBits=c["bits"], log=lambda *a, **k: None)
    q2 = ext(phi) if c["double"] else phi
    check(len(p2) == len(q2) and np.abs(p2 - q2).max() <= 1e-9 * np.abs(q2).max(), "depth grid of the RMSF")
    A = np.asarray(A)
    check(A.shape == tuple(x for x in (len(p2),) + w.shape[1:] if x != 1) and np.size(fw) == npix == np.size(stat), lambda: "shape %s of the RMSF, %s of the widths for weights %s" % (A.shape, np.shape(fw), w.shape))
    A = A.reshape(len(p2), -1)
    fw, stat = np.ravel(fw), np.ravel(stat)
    for k in range(npix):
        l20 = ref.lam0(W[:, k], l2) if lam0 is None else np.ravel(lam0)[k if np.ndim(lam0) else 0]
        e = ref.rmsf(W[:, k], l2, q2, l20)
        t = 3e-5 + 1e-6 * 2 * np.abs(q2).max() * np.abs(l2 - l20).max()
        if lam0 is not None and c["w"] != "full" and np.ndim(lam0):
            continue  # (equal weights: one RMSF for all pixels, with one reference wavelength)
        check(np.abs(A[:, k] - e).max() <= t, lambda: "pixel %d: the RMSF differs from its definition by %g" % (k, np.abs(A[:, k] - e).max()))
        if c["fit"] and c["bits"] == 64:
            m = fit_rmsf(q2, e.real if c["fit"] == "real" else np.abs(e))
            if m is not None and m.status >= 1 and stat[k] >= 1:
                check(abs(fw[k] / m.params[2] - 1) < 0.01, lambda: "pixel %d: fitted width %g, the fit of this RMSF alone gives %g" % (k, fw[k], m.params[2]))
        if stat[k] < 1:
            check(any(abs(fw[k] * np.ptp(l2) / x - 1) < 1e-3 for x in (3.8, 2 * np.sqrt(3))), lambda: "unfitted width %g" % fw[k])
    return True


# the same at the size of survey data
sub("rmsf_large", wider(rmsf_case, freq=freq_cases(100, 600), phi=phi_cases(200, 1000), shape=st.sampled_from([None, [], [30], [9, 12]])), quick=72, thorough=600, min_shard=2,
    rule="as rmsf, with hundreds of channels, depths and pixels; non-trivial as there")(rmsf)
sub("fitwidth_large", wider(fit_case, freq=freq_cases(100, 600), os=st.sampled_from([6.0, 20.0])), quick=48, thorough=400, min_shard=2,
    rule="as fitwidth, with hundreds of channels; non-trivial as there")(fitwidth)
