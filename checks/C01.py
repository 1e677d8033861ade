"""C01: RM synthesis == weighted direct Fourier transform."""
import numpy as np
from hypothesis import strategies as st

from vlib import ref
from vlib.gen import freq_cases, freqs, l2_of, phi_cases, phis, seeds, thin, weights, wider
from vlib.harness import check, skip, sub

from RMutils.util_RM import do_rmsynth_planes

ASSUMPTIONS = [
    "The NUFFT is accepted to 3e-5 of the weighted mean |P| (its requested precision is 1e-6) plus single-precision phase error when inputs are float32",
    "phases 2*phi*lambda^2 up to 3e4 rad",
]


def spectra(kind, shape, l2, r):
    n = shape[0]
    if kind == "noise":
        return r.randn(*shape) + 1j * r.randn(*shape)
    if kind == "thin":
        out = np.zeros(shape, complex)
        flat = out.reshape(n, -1)
        for k in range(flat.shape[1]):
            flat[:, k] = thin(l2, r.rand() + 0.1, 180 * r.rand(), r.uniform(-50, 50) / max(np.ptp(l2), 1e-6))
        return out
    if kind == "spike":
        out = np.zeros(shape, complex)
        flat = out.reshape(n, -1)
        for k in range(flat.shape[1]):
            flat[r.randint(n), k] = r.randn() + 1j * r.randn()
        return out
    if kind == "big":
        return (r.randn(*shape) + 1j * r.randn(*shape)) * 10.0 ** r.uniform(-6, 6)
    if kind == "somezero":
        out = r.randn(*shape) + 1j * r.randn(*shape)
        flat = out.reshape(n, -1)
        flat[:, r.rand(flat.shape[1]) < 0.4] = 0.0
        return out
    raise ValueError(kind)


def tol(p, w, l2, l20, phi, single):
    ww = np.where(np.isfinite(w), w, 0.0)
    scale = (ww[:, None] * np.abs(p)).sum(0) / max(ww.sum(), 1e-300)
    t = 3e-5
    if single:
        t += 1e-6 * np.max(2 * np.abs(phi)) * np.max(np.abs(l2 - l20)) + 2e-6
    return scale * t + 1e-300


planes_case = st.fixed_dictionaries(
    {
        "freq": freq_cases(2, 60),
        "phi": phi_cases(1, 70),
        "shape": st.sampled_from([[], [1], [3], [1, 1], [1, 4], [4, 1], [2, 3], [5, 2]]),
        "spec": st.sampled_from(["noise", "thin", "spike", "big", "somezero"]),
        "w": st.sampled_from(["none", "ones", "rand", "dyn", "zeros", "nan"]),
        "lam0": st.sampled_from(["auto", "auto", "zero", "val", "mean"]),
        "bits": st.sampled_from([32, 64]),
        "dt": st.sampled_from(["f8", "f4"]),
        "seed": seeds,
    }
)


@sub("planes", planes_case, quick=1200, thorough=40000,
     rule="random layouts (regular/gapped/jittered/random/descending/shuffled channels), depth lists, weights, shapes, precisions; non-trivial when >=2 distinct channels carry weight and the FDF is not all zero/NaN")
def planes(c):
    r = np.random.RandomState(c["seed"])
    f = freqs(c["freq"])
    l2 = l2_of(f)
    if np.ptp(l2) == 0:
        skip()
    phi = phis(c["phi"], l2)
    shape = tuple([len(f)] + c["shape"])
    p = spectra(c["spec"], shape, l2, r)
    q, u = p.real.astype(c["dt"]), p.imag.astype(c["dt"])
    p = (q + 1j * u).astype(complex)
    w = weights(c["w"], len(f), r)
    warr = np.ones(len(f)) if w is None else w
    lam0 = {"auto": None, "zero": 0.0, "val": float(l2.min() * r.uniform(0.3, 2)), "mean": float(l2.mean())}[c["lam0"]]
    res = do_rmsynth_planes(dataQ=q, dataU=u, lambdaSqArr_m2=l2, phiArr_radm2=phi, weightArr=None if w is None else w.copy(),
                            lam0Sq_m2=lam0, nBits=c["bits"])
    F, l20 = res[0], res[1]
    want0 = lam0 if lam0 is not None else ref.lam0(warr, l2)
    check(np.isfinite(l20) and abs(float(l20) - want0) <= 1e-6 * abs(want0) + 1e-12 * l2.max(),
          lambda: "reference lambda^2 is %r, weighted mean (or given value) is %r" % (l20, want0))
    want_shape = tuple(x for x in [len(phi)] + c["shape"] if x != 1)
    F = np.asarray(F)
    check(F.shape == want_shape, lambda: "FDF shape %s for data shape %s and %d depths" % (F.shape, shape, len(phi)))
    F = F.reshape(len(phi), -1)
    pf = p.reshape(len(f), -1)
    single = w is None and c["bits"] == 32 and c["dt"] == "f4"
    T = tol(pf, warr, l2, want0, phi, single)
    nontriv = False
    for k in range(pf.shape[1]):
        ok = np.isfinite(warr) & (warr != 0)
        if not np.any(pf[ok, k]):
            check(np.all(np.isnan(F[:, k])), "all-zero spectrum must give NaN")
            continue
        exp = ref.fdf(pf[:, k], warr, l2, phi, float(l20))
        d = np.abs(F[:, k] - exp)
        j = int(np.nanargmax(np.where(np.isfinite(d), d, np.inf)))
        check(np.all(d <= T[k]), lambda: "pixel %d: FDF(phi=%g)=%s but the direct sum is %s (|diff|=%.3g, allowed %.3g)" % (k, phi[j], F[j, k], exp[j], d[j], T[k]))
        nontriv |= ok.sum() >= 2
    return nontriv


scale_case = st.fixed_dictionaries(
    {"freq": freq_cases(3, 40), "phi": phi_cases(3, 40), "seed": seeds, "k": st.sampled_from([1e-9, 0.01, 3.7, 1e7]), "npix": st.integers(1, 4)}
)


@sub("metamorphic", scale_case, quick=300, thorough=10000,
     rule="linearity, weight-scale invariance, channel-permutation invariance; non-trivial when >=3 channels")
def metamorphic(c):
    r = np.random.RandomState(c["seed"])
    l2 = l2_of(freqs(c["freq"]))
    phi = phis(c["phi"], l2)
    n = len(l2)
    A = r.randn(n, c["npix"]) + 1j * r.randn(n, c["npix"])
    B = r.randn(n, c["npix"]) + 1j * r.randn(n, c["npix"])
    w = r.rand(n) + 0.1

    def F(p, ww, l=l2):
        return np.asarray(do_rmsynth_planes(p.real.copy(), p.imag.copy(), l, phi, weightArr=ww.copy(), nBits=64)[0]).reshape(len(phi), -1)

    fa, fb = F(A, w), F(B, w)
    z = complex(r.randn(), r.randn())
    s = np.abs(A).mean() * (1 + abs(z)) + np.abs(B).mean()
    check(np.abs(F(z * A + B, w) - z * fa - fb).max() <= 1e-4 * s, "FDF is not linear in the data")
    check(np.abs(F(A, w * c["k"]) - fa).max() <= 1e-4 * s, "FDF changes when all weights are scaled by %g" % c["k"])
    pm = r.permutation(n)
    check(np.abs(F(A[pm], w[pm], l2[pm]) - fa).max() <= 1e-4 * s, "FDF depends on the order of the channels")
    return True


tool_case = st.fixed_dictionaries(
    {"freq": freq_cases(8, 60, kinds=("lin", "gap", "jit", "rand")), "seed": seeds, "wt": st.sampled_from(["variance", "uniform"]),
     "ns": st.sampled_from([3.0, 10.0]), "maxf": st.sampled_from([None, 5.0, 15.0]), "bits": st.sampled_from([32, 64]),
     "I": st.sampled_from(["none", "model"])}
)


@sub("tool1d", tool_case, quick=80, thorough=2000,
     rule="arrays returned by the 1D tool (with no Stokes I, or a supplied model) against the direct sum on the returned depth grid")
def tool1d(c):
    from RMtools_1D.do_RMsynth_1D import run_rmsynth

    r = np.random.RandomState(c["seed"])
    f = freqs(c["freq"])
    l2 = l2_of(f)
    n = len(f)
    fwhm = 3.8 / np.ptp(l2)
    if np.sqrt(3) / np.diff(np.sort(l2)).max() > 60 * fwhm:
        maxf = c["maxf"] or 10.0
    else:
        maxf = c["maxf"]
    p = thin(l2, 0.3, 50.0, r.uniform(-3, 3) * fwhm) + 0.05 * (r.randn(n) + 1j * r.randn(n))
    dq = 0.05 * (0.5 + r.rand(n))
    du = dq * (0.8 + 0.4 * r.rand(n))
    if c["I"] == "none":
        I = np.ones(n)
        kw = {}
        data = [f, p.real, p.imag, dq, du]
    else:
        I = 2.0 * (f / f.mean()) ** -0.8
        kw = {"modStokesI": I}
        data = [f, I, p.real * I, p.imag * I, 0.01 * I, dq * I, du * I]
    m, a = run_rmsynth([x.copy() for x in data], nSamples=c["ns"], weightType=c["wt"], nBits=c["bits"],
                       phiMax_radm2=None if maxf is None else maxf * fwhm, **kw)
    w = 1.0 / ((dq + du) / 2) ** 2 if c["wt"] == "variance" else np.ones(n)
    phi = np.asarray(a["phiArr_radm2"], float)
    l20 = ref.lam0(w, l2)
    check(abs(m["lam0Sq_m2"] - l20) <= 1e-6 * l20, "lam0Sq_m2 %r is not the weighted mean %r" % (m["lam0Sq_m2"], l20))
    check(abs(m["freq0_Hz"] - ref.C / np.sqrt(l20)) <= 1e-6 * m["freq0_Hz"], "freq0_Hz does not match lam0Sq_m2")
    I0 = 1.0 if c["I"] == "none" else float(np.interp(m["freq0_Hz"], f, I))
    exp = I0 * ref.fdf(p, w, l2, phi, l20)
    s = I0 * np.abs(p).mean()
    check(np.abs(a["dirtyFDF"] - exp).max() <= 2e-4 * s + (1e-6 * s * 2 * np.abs(phi).max() * np.abs(l2 - l20).max() if c["bits"] == 32 else 0),
          lambda: "dirty FDF differs from the direct sum by %.3g (scale %.3g)" % (np.abs(a["dirtyFDF"] - exp).max(), s))
    check(abs(phi[len(phi) // 2]) <= 1e-6 * abs(phi).max() and len(phi) % 2 == 1, "depth grid is not odd and centred on zero")
    return True


noise_case = st.fixed_dictionaries({
    "freq": freq_cases(2, 30), "phi": phi_cases(1, 30), "shape": st.sampled_from([[], [3], [1, 1], [2, 3], [4, 1]]), "w": st.sampled_from(["none", "vec", "full", "full", "full"]),
    "flag": st.sampled_from(["none", "chan", "vox", "wnan", "pix"]), "lam0": st.sampled_from([None, None, "val", "map"]), "bits": st.sampled_from([32, 64]), "seed": seeds,
})


@sub("noise3d", noise_case, quick=200, thorough=8000,
     rule="synthesis with weights for every voxel (1, 2 or 3D, a vector, or none; flagged voxels, channels and weights; reference wavelength per pixel) against the direct sum; non-trivial when >=2 channels carry weight")
def noise3d(c):
    from RMutils.util_RM import threeDnoise_do_rmsynth_planes

    r = np.random.RandomState(c["seed"])
    l2 = l2_of(freqs(c["freq"]))
    n = len(l2)
    phi = phis(c["phi"], l2)
    shape = (n,) + tuple(c["shape"])
    p = r.randn(*shape) + 1j * r.randn(*shape)
    w = {"none": None, "vec": 0.1 + r.rand(n), "full": 0.1 + r.rand(*shape)}[c["w"]]
    npix = int(np.prod(c["shape"])) if c["shape"] else 1
    W = np.ones((n, npix)) if w is None else np.broadcast_to(w.reshape(n, -1), (n, npix)).copy()
    P = p.reshape(n, -1)  # (a view)
    if c["flag"] == "chan":
        P[r.rand(n) < 0.3] = np.nan
    elif c["flag"] == "vox":
        P[r.rand(n, npix) < 0.3] = np.nan
    elif c["flag"] == "pix":
        P[:, r.randint(npix)] = np.nan
    elif c["flag"] == "wnan" and w is not None:
        k = r.rand(*w.shape) < 0.3
        w[k] = np.nan
        W[np.broadcast_to(k.reshape(n, -1), W.shape)] = 0
    lam0 = {None: None, "val": float(l2.mean() * r.uniform(0.5, 1.5)), "map": (l2.mean() * r.uniform(0.5, 1.5, (c["shape"] + [1, 1])[:2]))}[c["lam0"]]
    if c["lam0"] == "map" and len(c["shape"]) < 2:
        lam0 = None
    F, l20 = threeDnoise_do_rmsynth_planes(p.real.copy(), p.imag.copy(), l2.copy(), phi.copy(), weightArr=None if w is None else w.copy(), lam0Sq_m2=None if lam0 is None else np.copy(lam0) if np.ndim(lam0) else lam0, nBits=c["bits"], log=lambda *a, **k: None)
    F = np.asarray(F)
    check(F.shape == tuple(x for x in [len(phi)] + c["shape"] if x != 1), lambda: "FDF shape %s for data shape %s and %d depths" % (F.shape, shape, len(phi)))
    F = F.reshape(len(phi), -1)
    l20 = np.broadcast_to(np.ravel(l20), npix) if np.size(l20) == 1 else np.ravel(l20)
    W[np.isnan(P).all(1)] = 0
    nontriv = False
    for k in range(npix):
        if W[:, k].sum() == 0:
            continue
        want0 = ref.lam0(W[:, k], l2) if lam0 is None else np.ravel(lam0)[k if np.ndim(lam0) else 0]
        check(abs(l20[k] - want0) <= 1e-5 * want0, lambda: "reference lambda^2 of pixel %d is %r, expected %r" % (k, l20[k], want0))
        ok = np.isfinite(P[:, k]) & (W[:, k] > 0)
        if not ok.any():
            continue
        e = ref.fdf(P[:, k], W[:, k], l2, phi, want0)
        d = np.abs(F[:, k] - e).max()
        check(d <= np.nanmax(np.abs(P[:, k])) * (3e-5 + 1e-6 * 2 * np.abs(phi).max() * np.abs(l2 - want0).max()), lambda: "pixel %d differs from the direct sum by %g" % (k, d))
        nontriv |= ok.sum() >= 2
    return nontriv


# the same at the size of survey data
sub("planes_large", wider(planes_case, freq=freq_cases(100, 700), phi=phi_cases(200, 1500), shape=st.sampled_from([[], [3], [40], [9, 12]])), quick=72, thorough=600, min_shard=2,
    rule="as planes, with hundreds of channels, depths and pixels; non-trivial as there")(planes)
