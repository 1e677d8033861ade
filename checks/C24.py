"""C24: the tools neither modify their inputs nor depend on hidden state.

Technique: stateful property-based testing: generated histories of calls to the array-level routines of the package, sharing inputs, with the outputs of earlier calls overwritten in between; every argument is compared with a deep copy after every call and every repeated call with its first result. Metamorphic variants (verbosity, loggers, read-only, strided and byte-swapped inputs, the state of the random generator) must give the same result
Assurance: exploration of generated inputs and histories; no proof
"""
import contextlib
import copy
import io
import warnings

import numpy as np
from hypothesis import strategies as st

from vlib.gen import freqs, l2_of, seeds
from vlib.harness import check, skip, sub

from RMtools_1D import clean_model as M
from RMtools_1D import do_RMclean_1D as C1
from RMtools_1D import do_RMsynth_1D as S1
from RMtools_1D import rmtools_bwdepol as B
from RMtools_3D import do_fitIcube as F3
from RMtools_3D import do_RMsynth_3D as S3
from RMtools_3D import rescale_I_model_3D as R3
from RMtools_3D import RMpeakfit_3D as P3
from RMutils import util_misc as UM
from RMutils import util_RM as RM

ASSUMPTIONS = ["equal means to rounding (1e-6 of the largest value of an array; exact for integers and text)", "QU-fitting is stochastic by design and excluded; it is decided by C18"]


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        yield


def nolog(*a, **k):
    pass


def flat(x, path=""):
    """[(path, kind, array or value)] of anything a routine takes or returns."""
    if isinstance(x, np.ndarray):
        return [(path, "%s%s" % (x.dtype.str, x.shape), x)]
    if isinstance(x, dict):
        return [y for k in sorted(x, key=str) for y in flat(x[k], "%s[%s]" % (path, k))]
    if isinstance(x, (list, tuple)):
        return [(path, type(x).__name__ + str(len(x)), None)] + [y for i, v in enumerate(x) for y in flat(v, "%s[%d]" % (path, i))]
    return [(path, type(x).__name__, x)]


def unchanged(before, after, what):
    a, b = flat(before), flat(after)
    check([y[:2] for y in a] == [y[:2] for y in b], lambda: "%s changed the structure or type of its input: %s" % (what, [(p, q) for p, q in zip(a, b) if p[:2] != q[:2]][:2]))
    for (p, k, u), (_, _, v) in zip(a, b):
        if isinstance(u, np.ndarray):
            same = u.tobytes() == v.tobytes()
        else:
            same = u == v or u is v or (u != u and v != v) or callable(u)
        check(same, lambda: "%s changed its input %s" % (what, p))


def equal(x, y, what, tol=1e-6):
    a, b = flat(x), flat(y)
    check([z[0] for z in a] == [z[0] for z in b], lambda: "%s: another structure" % what)
    for (p, _, u), (_, _, v) in zip(a, b):
        if isinstance(u, (np.ndarray, float, np.floating, complex)) and not isinstance(u, str) and np.asarray(u).dtype.kind in "fc":
            u, v = np.asarray(u), np.asarray(v)
            check(u.shape == v.shape, lambda: "%s: %s has shape %s, then %s" % (what, p, u.shape, v.shape))
            check(np.array_equal(np.isfinite(u), np.isfinite(v)), lambda: "%s: %s has other blanks" % (what, p))
            ok = np.isfinite(u)
            if ok.any():
                d = np.abs(u[ok] - v[ok]).max()
                check(d <= tol * np.abs(u[ok]).max(), lambda: "%s: %s differs by %.3g of %.3g" % (what, p, d, np.abs(u[ok]).max()))
        elif isinstance(u, np.ndarray):
            check(np.array_equal(u, v), lambda: "%s: %s differs" % (what, p))
        elif not callable(u):
            check(u == v or u is v or (u != u and v != v), lambda: "%s: %s is %r, then %r" % (what, p, u, v))


def scribble(x, r):
    """Overwrite everything writable in a result."""
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype.kind in "fciu":
            x[...] = 7
    elif isinstance(x, dict):
        for v in x.values():
            scribble(v, r)
        x.clear()
    elif isinstance(x, (list, tuple)):
        for v in x:
            scribble(v, r)
        if isinstance(x, list):
            x.clear()
    elif hasattr(x, "__dict__"):
        for v in vars(x).values():
            scribble(v, r)


# ---------------------------------------------------------------- the world: inputs shared by all calls of a history
def world(c):
    r = np.random.RandomState(c["seed"])
    n = c["n"]
    f = freqs({"kind": c["fk"], "n": n, "f0": 900.0, "frac": c["frac"], "seed": c["seed"]})
    W = {"f": f, "l2": l2_of(f), "r": r, "c": c}
    rng = np.ptp(W["l2"])
    fw = 3.8 / rng
    W["fw"] = fw
    m = c["m"]
    W["phi"] = (np.arange(2 * m + 1) - m) * fw / 4
    dt = c["dt"]
    W["w"] = r.rand(n) + 0.1
    W["wnan"] = np.where(r.rand(n) < 0.2, np.nan, W["w"])
    W["wnan"][0] = 1.0
    sh = (n,) + tuple(c["sky"])
    ph = r.uniform(-1, 1, c["sky"]) * W["phi"].max() * 0.6
    s = (r.rand(*c["sky"]) + 0.5) * np.exp(2j * (ph * W["l2"].reshape(-1, *[1] * len(c["sky"])) + r.rand(*c["sky"])))
    s = s + c["noise"] * (r.randn(*sh) + 1j * r.randn(*sh))
    W["Q"], W["U"] = s.real.astype(dt), s.imag.astype(dt)
    if c["nan"] == "vox":
        W["Q"][r.rand(*sh) < 0.1] = np.nan
    elif c["nan"] == "plane":
        W["U"][r.randint(n)] = np.nan
    W["I"] = (2 * (f / f.mean()) ** -0.7).reshape(-1, *[1] * len(c["sky"])) * np.ones(c["sky"]) * (1 + 0.01 * r.randn(*sh))
    W["I"] = W["I"].astype(dt)
    W["msk"] = np.isnan(W["Q"] + W["U"])
    if c["nan"] == "vox":
        W["msk"] |= r.rand(*sh) < 0.1
    # one spectrum
    k = (slice(None),) + (0,) * len(c["sky"])
    W["q"], W["u"], W["i"] = W["Q"][k].copy(), W["U"][k].copy(), W["I"][k].copy()
    bad = np.isnan(W["q"] + W["u"])
    bad[[np.argmin(f), np.argmax(f)]] = False
    W["q1"], W["u1"] = np.where(np.isnan(W["q"]), 0.1, W["q"]).astype(dt), np.where(np.isnan(W["u"]), 0.1, W["u"]).astype(dt)
    W["q1"][bad] = np.nan
    for x in "iqu":
        W["d" + x] = (c["noise"] * (0.5 + r.rand(n)) + 1e-3).astype(dt)
    # a dirty FDF and RMSF made from the definition
    l20 = W["l2"].mean()
    W["l20"] = l20
    W["phi2"] = (np.arange(4 * m + 3) - (2 * m + 1)) * fw / 4
    tr = lambda p, y: np.tensordot(np.exp(-2j * np.outer(p, W["l2"] - l20)), y, (1, 0)) / n
    W["F"] = tr(W["phi"], np.nan_to_num(W["Q"]) + 1j * np.nan_to_num(W["U"]))
    W["R"] = tr(W["phi2"], np.ones(sh) + 0j)
    W["fwa"] = np.ones(c["sky"]) * fw
    W["F1"], W["R1"] = W["F"][k].copy(), W["R"][k].copy()
    W["cm"] = r.rand(*c["sky"]) > 0.3
    W["wid"] = np.full(n, abs(np.median(np.diff(np.sort(f)))) * 0.7)
    W["cc"] = np.where(r.rand(2 * m + 1) < 0.1, r.randn(2 * m + 1) + 1j, 0)
    W["par"] = [0.0, 0.0, 0.0, 0.1, -0.7, 2.0]
    return W


OPS = {}


def op(name, verbose=False, layout=True, clean=False):
    def deco(fn):
        OPS[name] = (fn, verbose, layout, clean)
        return fn

    return deco


def bits(W):
    return 64 if W["c"]["dt"] == "f8" else 32


@op("do_rmsynth_planes")
def _(W):
    return RM.do_rmsynth_planes, dict(dataQ=W["Q"], dataU=W["U"], lambdaSqArr_m2=W["l2"], phiArr_radm2=W["phi"], weightArr=[None, W["w"], W["wnan"]][W["c"]["wt"]], nBits=bits(W), log=nolog)


@op("do_rmsynth_planes lam0")
def _(W):
    return RM.do_rmsynth_planes, dict(dataQ=W["q1"], dataU=W["u1"], lambdaSqArr_m2=W["l2"], phiArr_radm2=W["phi"], weightArr=W["w"], lam0Sq_m2=W["l20"] * 1.1, nBits=64, log=nolog)


@op("get_rmsf_planes", verbose=True)
def _(W):
    return RM.get_rmsf_planes, dict(lambdaSqArr_m2=W["l2"], phiArr_radm2=W["phi"], weightArr=[None, W["w"], W["wnan"]][W["c"]["wt"]], mskArr=W["msk"], lam0Sq_m2=W["l20"], fitRMSF=bool(W["c"]["seed"] % 2), nBits=bits(W), log=nolog)


@op("do_rmclean_hogbom", verbose=True, clean=True)
def _(W):
    return RM.do_rmclean_hogbom, dict(dirtyFDF=W["F"], phiArr_radm2=W["phi"], RMSFArr=W["R"], phi2Arr_radm2=W["phi2"], fwhmRMSFArr=W["fwa"], cutoff=0.3, maxIter=30, gain=0.3, mskArr=[None, W["cm"]][W["c"]["seed"] % 2], nBits=bits(W), log=nolog)


@op("do_rmclean_hogbom window", verbose=True, clean=True)
def _(W):
    return RM.do_rmclean_hogbom, dict(dirtyFDF=W["F1"], phiArr_radm2=W["phi"], RMSFArr=W["R1"], phi2Arr_radm2=W["phi2"], fwhmRMSFArr=np.float64(W["fw"]), cutoff=0.5, maxIter=30, gain=0.3, nBits=bits(W), window=0.2, log=nolog)


@op("measure_FDF_parms")
def _(W):
    return RM.measure_FDF_parms, dict(FDF=W["F1"], phiArr=W["phi"], fwhmRMSF=W["fw"], dFDF=[None, 0.05][W["c"]["seed"] % 2], lamSqArr_m2=W["l2"], lam0Sq=W["l20"])


@op("measure_qu_complexity")
def _(W):
    return RM.measure_qu_complexity, dict(freqArr_Hz=W["f"], qArr=W["q1"], uArr=W["u1"], dqArr=W["dq"], duArr=W["du"], fracPol=0.7, psi0_deg=20.0, RM_radm2=30.0)


@op("calc_sigma_add")
def _(W):
    return RM.calc_sigma_add, dict(xArr=W["l2"], yArr=W["q1"], dyArr=W["dq"], nSamp=200, suffix="Q")


@op("fits of stokes I")
def _(W):
    return UM.fit_StokesI_model, dict(freqArr=W["f"], IArr=W["i"], dIArr=W["di"], polyOrd=[1, 2, -2][W["c"]["seed"] % 3], fit_function=["log", "linear"][W["c"]["seed"] % 2])


@op("create_frac_spectra")
def _(W):
    return UM.create_frac_spectra, dict(freqArr=W["f"], IArr=W["i"], QArr=W["q1"], UArr=W["u1"], dIArr=W["di"], dQArr=W["dq"], dUArr=W["du"], polyOrd=[1, 2, -2][W["c"]["seed"] % 3], fit_function=["log", "linear"][W["c"]["seed"] % 2])


@op("create_frac_spectra model")
def _(W):
    return UM.create_frac_spectra, dict(freqArr=W["f"], IArr=W["i"], QArr=W["q1"], UArr=W["u1"], dIArr=W["di"], dQArr=W["dq"], dUArr=W["du"], modStokesI=W["i"] * 1.1)


def result(W):
    from RMutils.util_misc import FitResult

    return FitResult(params=np.array(W["par"]), fitStatus=1, chiSq=1.0, chiSqRed=1.0, AIC=1.0, polyOrd=2, nIter=3, reference_frequency_Hz=float(W["f"].mean()), dof=3, pcov=np.diag([0, 0, 0, 0.01, 0.02, 0.03]), perror=np.array([0, 0, 0, 0.1, 0.14, 0.17]), fit_function=["log", "linear"][W["c"]["seed"] % 2])


@op("renormalize_StokesI_model", layout=False)
def _(W):
    return UM.renormalize_StokesI_model, dict(fit_result=result(W), new_reference_frequency=float(W["f"].mean() * 1.05))


@op("calculate_StokesI_model", layout=False)
def _(W):
    return UM.calculate_StokesI_model, dict(fit_result=result(W), freqArr_Hz=W["f"])


@op("calculate_QU_model")
def _(W):
    return M.calculate_QU_model, dict(freqArr=W["f"], phiArr=W["phi"], CCArr=W["cc"], lambdaSq_0=W["l20"], Iparms=list(W["par"]), freq0_Hz=[None, float(W["f"].mean())][W["c"]["seed"] % 2], fit_function=["log", "linear"][W["c"]["seed"] % 2])


@op("thin spectra")
def _(W):
    return UM.create_IQU_spectra_burn, dict(freqArr_Hz=W["f"], fluxI=2.0, SI=-0.7, fracPolArr=[0.3, 0.2], psi0Arr_deg=[10.0, 80.0], RMArr_radm2=[20.0, -33.0], freq0_Hz=float(W["f"].mean()))


@op("screen spectra")
def _(W):
    return UM.create_IQU_spectra_diff, dict(freqArr_Hz=W["f"], fluxI=2.0, SI=-0.7, fracPolArr=[0.3, 0.2], psi0Arr_deg=[10.0, 80.0], RMArr_radm2=[20.0, -33.0], freq0_Hz=float(W["f"].mean()))


@op("run_rmsynth 1D", verbose=True)
def _(W):
    c = W["c"]
    data = [W["f"], W["i"], W["q1"], W["u1"], W["di"], W["dq"], W["du"]] if c["seed"] % 3 else [W["f"], W["q1"], W["u1"], W["dq"], W["du"]]
    return S1.run_rmsynth, dict(data=data, polyOrd=[1, 2, -2][c["seed"] % 3], phiMax_radm2=float(W["phi"].max()), dPhi_radm2=float(W["fw"] / 4), weightType=["variance", "uniform"][c["seed"] // 3 % 2], noStokesI=len(data) == 5, nBits=bits(W), fit_function=["log", "linear"][c["seed"] // 6 % 2], super_resolution=c["seed"] % 11 == 0, log=nolog)


@op("run_rmclean 1D", verbose=True, clean=True)
def _(W):
    if "syn" not in W:
        fn, kw = OPS["run_rmsynth 1D"][0](W)
        with quiet():
            W["syn"] = fn(**copy.deepcopy(kw))
    m, a = W["syn"]
    return C1.run_rmclean, dict(mDict=m, aDict=a, cutoff=[-4.0, 0.4][W["c"]["seed"] % 2], maxIter=40, gain=0.2, nBits=bits(W), window=[None, 0.3][W["c"]["seed"] % 2], log=nolog)


@op("run_rmsynth 3D", verbose=True)
def _(W):
    c = W["c"]
    return S3.run_rmsynth, dict(dataQ=W["Q"], dataU=W["U"], freqArr_Hz=W["f"], dataI=[None, W["I"]][c["seed"] % 2], rmsArr=[None, W["dq"]][c["seed"] // 2 % 2], phiMax_radm2=float(W["phi"].max()), dPhi_radm2=float(W["fw"] / 4), weightType=["uniform", "variance"][c["seed"] // 2 % 2], fitRMSF=bool(c["seed"] % 2), nBits=bits(W), super_resolution=c["seed"] % 7 == 0, log=nolog)


@op("create_peak_maps", layout=True)
def _(W):
    return S3.create_peak_maps, dict(FDFcube=W["F"], phiArr_radm2=W["phi"])


@op("pixelwise_peak_fitting")
def _(W):
    sh = W["F"].reshape(len(W["phi"]), -1, 1) if W["F"].ndim == 2 else W["F"]
    ny = sh.shape[1:]
    return P3.pixelwise_peak_fitting, dict(FDF=sh, phiArr=W["phi"], fwhmRMSF=np.full(ny, W["fw"]), lamSqArr_m2=W["l2"], lam0Sq=W["l20"], product_list=["phiPeakPIfit_rm2", "ampPeakPIfit", "polAngle0Fit_deg", "dFDFcorMAD"], noiseArr=[None, W["dq"].astype("f8")][W["c"]["seed"] % 2])


@op("adjoint transform", verbose=True)
def _(W):
    return B.do_adjoint_rmsynth_planes, dict(freqArr_Hz=W["f"], dataQ=W["Q"], dataU=W["U"], phiArr_radm2=W["phi"], widths_Hz=W["wid"], weightArr=[None, W["w"], W["wnan"]][W["c"]["wt"]], nBits=64, log=nolog)


@op("adjoint RMSF", verbose=True)
def _(W):
    return B.bwdepol_get_rmsf_planes, dict(freqArr_Hz=W["f"], widths_Hz=W["wid"], phiArr_radm2=W["phi"], peak_rm=20.0, weightArr=W["w"], lam0Sq_m2=W["l20"], nBits=64, log=nolog)


@op("adjoint theory")
def _(W):
    return (lambda adjoint_vars, dQUArr: B.adjoint_theory(adjoint_vars, dQUArr, log=nolog)), dict(adjoint_vars=[W["wid"], W["f"], W["phi"], 1 / W["w"].sum(), W["w"]], dQUArr=W["dq"])


@op("bandwidth simulation")
def _(W):
    return B.bwdepol_simulation, dict(peak_rm=30.0, freqArr_Hz=W["f"], widths_Hz=W["wid"])


@op("run_adjoint_rmsynth", verbose=True)
def _(W):
    data = [np.array(x, "f8") for x in (W["f"], W["q1"], W["u1"], W["dq"], W["du"])]
    o = np.argsort(W["f"])
    W.setdefault("adj", [x[o] for x in data])
    return B.run_adjoint_rmsynth, dict(data=W["adj"], phiMax_radm2=float(W["phi"].max()), dPhi_radm2=float(W["fw"] / 4), noStokesI=True, weightType=["variance", "uniform"][W["c"]["seed"] % 2], nBits=64, log=nolog)


@op("fit_spectra_I", verbose=True)
def _(W):
    return F3.fit_spectra_I, dict(Ispectrum=W["i"], freqArr_Hz=W["f"], rms_Arr=W["di"], polyOrd=[1, 2, -2][W["c"]["seed"] % 3], fit_function=["log", "linear"][W["c"]["seed"] % 2], nDetectPix=1)


@op("cube_noise", layout=False)
def _(W):
    cube = W["Q"].reshape(W["Q"].shape[0], W["Q"].shape[1], -1)
    return F3.cube_noise, dict(datacube=cube, header={"BITPIX": -32, "NAXIS1": cube.shape[2], "NAXIS2": cube.shape[1]}, freqArr_Hz=W["f"], threshold=[-5, 0.5][W["c"]["seed"] % 2])


@op("rescale_I_pixel", layout=False)
def _(W):
    return R3.rescale_I_pixel, dict(data=(np.diag([0, 0, 0, 0.01, 0.02, 0.03]), np.array(W["par"]), float(W["f"].mean()), float(W["f"].mean() * 1.03)), fit_function=["log", "linear"][W["c"]["seed"] % 2])


@op("interp_images", layout=False)
def _(W):
    return UM.interp_images, dict(arr1=np.nan_to_num(W["Q"].reshape(W["Q"].shape[0], -1)), arr2=np.nan_to_num(W["U"].reshape(W["Q"].shape[0], -1)), f=0.3)


@op("statistics")
def _(W):
    return UM.calc_stats, dict(a=W["Q"], maskzero=bool(W["c"]["seed"] % 2))


@op("MAD")
def _(W):
    return UM.MAD, dict(a=W["q"])


@op("extrap")
def _(W):
    o = np.argsort(W["f"])
    W.setdefault("xo", (W["f"][o], np.nan_to_num(W["q"])[o].astype("f8")))
    return (lambda x, xp, yp: UM.extrap(x, xp, yp)), dict(x=np.linspace(W["f"].min() * 0.9, W["f"].max() * 1.1, 9), xp=W["xo"][0], yp=W["xo"][1])


@op("moments")
def _(W):
    return UM.calc_mom2_FDF, dict(FDF=W["F1"], phiArr=W["phi"])


@op("peaks")
def _(W):
    return RM.detect_peak, dict(a=np.abs(W["R1"]), thresh=0.4)


@op("rmsf fit")
def _(W):
    return RM.fit_rmsf, dict(xData=W["phi2"], yData=np.abs(W["R1"]))


NAMES = sorted(OPS)
conf = {"n": st.integers(16, 40), "fk": st.sampled_from(["lin", "gap", "desc", "shuf"]), "frac": st.sampled_from([0.1, 0.3, 0.6]), "m": st.integers(10, 20), "dt": st.sampled_from(["f4", "f8"]), "sky": st.sampled_from([[1, 1], [2, 3], [3]]),
        "noise": st.sampled_from([0.01, 0.2]), "nan": st.sampled_from(["none", "vox", "plane"]), "wt": st.integers(0, 2), "seed": seeds}


def call(name, W, **extra):
    fn, kw = OPS[name][0](W)
    kw = dict(kw, **extra)
    keep = copy.deepcopy({k: v for k, v in kw.items() if not callable(v)})
    # the containers as well as the arrays in them are the caller's
    now = {k: v for k, v in kw.items() if not callable(v)}
    env = (np.geterr(), np.random.get_state()[1].tobytes(), np.random.get_state()[2], np.get_printoptions())
    with quiet():
        inner = np.geterr()
        out = fn(**kw)
        left = np.geterr()
    unchanged(simplify(keep), simplify(now), name)
    check(inner == left, "%s leaves numpy with another error handling" % name)
    check((np.random.get_state()[1].tobytes(), np.random.get_state()[2], np.get_printoptions()) == env[1:], "%s changes global numpy state" % name)
    return out


def simplify(x):
    """Objects with attributes as dictionaries."""
    if isinstance(x, dict):
        return {k: simplify(v) for k, v in x.items()}
    if isinstance(x, tuple) and hasattr(x, "_asdict"):
        return {k: simplify(v) for k, v in x._asdict().items()}
    if isinstance(x, (list, tuple)):
        return [simplify(v) for v in x]
    if hasattr(x, "__dict__") and not isinstance(x, type) and not callable(x):
        return {k: simplify(v) for k, v in vars(x).items()}
    return x


def frozen(x):
    return copy.deepcopy(drop(simplify(x)))


def drop(x):
    """Leave out plotting callbacks and run times."""
    if isinstance(x, dict):
        return {k: drop(v) for k, v in x.items() if not callable(v)}
    if isinstance(x, list):
        return [drop(v) for v in x if not callable(v)]
    return x


@sub("history", st.fixed_dictionaries(dict(conf, ops=st.lists(st.tuples(st.sampled_from(NAMES), st.booleans()), min_size=3, max_size=9))), quick=500, thorough=20000, timeout=120, min_shard=25,
     rule="a history of 3-9 calls of random routines on shared inputs, some results overwritten after the call, then every call once more in reverse order; non-trivial when at least two routines take part")
def history(c):
    W = world(c)
    first = {}
    for name, spoil in c["ops"]:
        out = call(name, W)
        now = frozen(out)
        if name in first:
            equal(first[name], now, "%s called again" % name)
        first.setdefault(name, now)
        if spoil:
            # results belong to the caller - unless they are (documented) views of the inputs
            ins = [v for _, _, v in flat(simplify(OPS[name][0](W)[1])) if isinstance(v, np.ndarray)]
            outs = [v for _, _, v in flat(simplify(out)) if isinstance(v, np.ndarray)]
            if not any(np.shares_memory(a, b) for a in ins for b in outs):
                scribble(out, W["r"])
    for name, _ in reversed(c["ops"]):
        equal(first[name], frozen(call(name, W)), "%s called again after other routines" % name)
    return len({n for n, _ in c["ops"]}) >= 2


def variant(x, kind):
    """The same values, stored differently."""
    if isinstance(x, np.ndarray) and x.ndim:
        if kind == "readonly":
            y = x.copy()
            y.setflags(write=False)
            return y
        if kind == "strided":
            y = np.zeros(tuple(2 * k for k in x.shape), x.dtype)[tuple(slice(None, None, 2) for _ in x.shape)]
            y[...] = x
            return y
        if kind == "fortran":
            return np.asfortranarray(x)
        if kind == "swapped":
            return x.astype(x.dtype.newbyteorder(">"))
        if kind == "reversed":
            return x[::-1].copy()[::-1]
    if isinstance(x, list) and any(isinstance(v, np.ndarray) for v in x):
        return [variant(v, kind) for v in x]
    if isinstance(x, dict):
        return {k: variant(v, kind) for k, v in x.items()}
    return x


@sub("storage", st.fixed_dictionaries(dict(conf, noise=st.just(0.01), op=st.sampled_from([n for n in NAMES if OPS[n][2]]), kind=st.sampled_from(["readonly", "strided", "fortran", "swapped", "reversed"]))), quick=1000, thorough=40000, timeout=120, min_shard=50,
     rule="one routine with the same values in read-only, strided, Fortran-ordered, reversed-stride or big-endian (as read from FITS) arrays; always non-trivial")
def storage(c):
    name = c["op"]
    if OPS[name][3] and c["kind"] not in ("readonly",):
        skip("CLEAN amplifies rounding differences")
    W = world(c)
    a = frozen(call(name, W))
    fn, kw = OPS[name][0](W)
    kw = {k: v if callable(v) else variant(v, c["kind"]) for k, v in kw.items()}
    with quiet():
        b = frozen(fn(**kw))
    equal(a, b, "%s with %s inputs" % (name, c["kind"]), 1e-4 if c["dt"] == "f4" else 1e-5)
    return True


@sub("options", st.fixed_dictionaries(dict(conf, op=st.sampled_from([n for n in NAMES if OPS[n][1]]))), quick=500, thorough=20000, timeout=120, min_shard=50,
     rule="routines with a verbose option, run silent, verbose, with a recording logger, and from another state of the random generator; always non-trivial")
def options(c):
    name = c["op"]
    W = world(c)
    a = frozen(call(name, W, verbose=False))
    lines = []
    extra = {"verbose": True}
    if "log" in OPS[name][0](W)[1]:
        extra["log"] = lambda *x, **k: lines.append(x)
    equal(a, frozen(call(name, W, **extra)), "%s when verbose" % name)
    np.random.seed(c["seed"] % 1000)
    equal(a, frozen(call(name, W, verbose=False)), "%s with another random state" % name)
    return True
