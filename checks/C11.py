"""C11: fractional spectra divide Q and U by the Stokes I model consistently.

Technique: property-based testing: definition of the quotient against the returned model, metamorphic scaling, fallback of impossible fits, supplied models used verbatim, also through the 1D pipeline
Assurance: exploration of generated inputs; no proof
"""
import numpy as np
from hypothesis import strategies as st

from vlib.gen import freqs, seeds, wider
from vlib.harness import check, skip, sub

from RMtools_1D.do_RMsynth_1D import run_rmsynth
from RMutils.util_misc import calculate_StokesI_model, create_frac_spectra

ASSUMPTIONS = ["scaling factors are powers of two or ten between 1e-6 and 1e6"]

gen = {"n": st.integers(6, 60), "fk": st.sampled_from(["lin", "gap", "desc", "shuf"]), "frac": st.sampled_from([0.05, 0.3, 0.7]), "fit": st.sampled_from(["linear", "log"]), "order": st.sampled_from([0, 1, 2, 3, -2, -3]),
       "noise": st.sampled_from([1e-3, 0.03, 0.5]), "nan": st.sampled_from(["none", "I", "Q", "U", "dI", "dQ", "all"]), "bits": st.sampled_from([32, 64]), "seed": seeds}


def spectra(c):
    r = np.random.RandomState(c["seed"])
    f = freqs({"kind": c["fk"], "n": c["n"], "f0": 900.0, "frac": c["frac"], "seed": c["seed"]})
    n = len(f)
    I = 2 * (f / f.mean()) ** r.uniform(-2, 1) + c["noise"] * r.randn(n)
    s = [c["noise"] * (0.5 + r.rand(n)) for _ in range(3)]
    Q, U = r.randn(2, n)
    bad = r.rand(n) < 0.2
    bad[[np.argmin(f), np.argmax(f)]] = False
    d = {"I": I, "Q": Q, "U": U, "dI": s[0], "dQ": s[1], "dU": s[2]}
    for k in d:
        if c["nan"] == k or c["nan"] == "all":
            d[k] = np.where(bad, np.nan, d[k])
    dt = "f%d" % (c["bits"] // 8)
    return r, f, {k: v.astype(dt) for k, v in d.items()}, bad


def call(f, d, c, **kw):
    a = [f.copy()] + [d[k].copy() for k in ("I", "Q", "U", "dI", "dQ", "dU")]
    b = [x.copy() for x in a]
    out = create_frac_spectra(*a, polyOrd=c["order"], fit_function=c["fit"], **kw)
    check(all(np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b)), "an input array was changed")
    return out


def quotient(d, k, mod, got, rt, name):
    with np.errstate(all="ignore"):
        e = d[k].astype(float) / np.asarray(mod, float)
    e = np.where(np.isfinite(e), e, np.nan)
    g = np.asarray(got, float)
    check(np.array_equal(np.isnan(g), np.isnan(e)), "%s: NaN in the wrong channels" % name)
    ok = ~np.isnan(e)
    check(np.all(np.abs(g[ok] - e[ok]) <= rt * np.abs(e[ok])), "%s is not the input divided by the model" % name)


@sub("divide", st.fixed_dictionaries(dict(gen, k=st.sampled_from([2.0**-12, 1e-6, 1e3, 2.0**10, 1e6]))), quick=1000, thorough=40000,
     rule="random spectra with NaN in any column, all orders and both functions; everything rescaled by a constant; non-trivial when the fit succeeds")
def divide(c):
    r, f, d, bad = spectra(c)
    mod, q, u, dq, du, m = call(f, d, c)
    rt = 1e-12 if c["bits"] == 64 else 1e-6
    mod = np.asarray(mod, float)
    ok = m.fitStatus != 9
    check(ok, "the fit of a well-behaved spectrum failed")
    e = calculate_StokesI_model(m, f)
    check(np.allclose(mod, e, rtol=1e-6 if c["bits"] == 32 else 1e-10), "the model returned is not the fitted one")
    for k, got in (("Q", q), ("U", u), ("dQ", dq), ("dU", du)):
        quotient(d, k, mod, got, rt, k)
    # flux units do not matter
    d2 = {k: (v * c["k"]).astype(v.dtype) for k, v in d.items()}
    mod2, q2, u2, dq2, du2, m2 = call(f, d2, c)
    if c["order"] < 0 and m2.polyOrd != m.polyOrd:
        check(abs(m2.AIC - m.AIC) <= 0.1, lambda: "scaling the fluxes changes the selected order from %d to %d" % (m.polyOrd, m2.polyOrd))
        return False
    sig = d["dI"].astype(float)
    t = 0.05 * np.nanmedian(sig) / np.abs(mod).min() + 1e-6
    for k, x, y in (("Q", q, q2), ("U", u, u2), ("dQ", dq, dq2), ("dU", du, du2)):
        x, y = np.asarray(x, float), np.asarray(y, float)
        check(np.array_equal(np.isnan(x), np.isnan(y)), "%s: scaling all fluxes moves the NaNs" % k)
        g = ~np.isnan(x)
        check(np.all(np.abs(x[g] - y[g]) <= t * np.abs(x[g]) + 1e-12), lambda: "%s: fractional spectrum changes by %.3g when all fluxes are scaled" % (k, np.nanmax(np.abs(x / y - 1))))
    check(np.all(np.abs(np.asarray(mod2, float) / c["k"] - mod) <= t * np.abs(mod)), "the model does not scale with the fluxes")
    return True


@sub("flags", st.fixed_dictionaries(dict(gen, level=st.sampled_from([1.0, 0.3, 0.1, 0.0, -0.3]), nan=st.sampled_from(["none", "I", "dI"]), noise=st.sampled_from([0.03, 0.1, 0.5]))), quick=800, thorough=20000,
     rule="faint and negative Stokes I: the fit status carries 128 exactly when the model is negative somewhere and 64 exactly when it is below the channel error somewhere; non-trivial when one of them is set")
def flags(c):
    r, f, d, bad = spectra(c)
    d["I"] = (d["I"] + (c["level"] - 2)).astype(d["I"].dtype)
    mod, q, u, dq, du, m = call(f, d, c)
    mod = np.asarray(mod, float)
    dI = d["dI"].astype(float)
    if m.fitStatus == 9 or not np.isfinite(mod).all():
        return False
    with np.errstate(invalid="ignore"):
        if np.nanmin(np.abs(mod - dI) / np.abs(dI)) < 1e-5 or np.abs(mod).min() < 1e-9:
            return False
        neg, low = bool((mod < 0).any()), bool((mod < dI).any())
    check(bool(m.fitStatus & 128) == neg, lambda: "fit status %d, %s" % (m.fitStatus, "the model is negative in some channels" if neg else "the model is positive"))
    check(bool(m.fitStatus & 64) == low, lambda: "fit status %d, %s" % (m.fitStatus, "the model is below the error in some channels" if low else "the model is above the error in all channels"))
    return neg or low


@sub("supplied", st.fixed_dictionaries(dict(gen, zero=st.booleans())), quick=600, thorough=20000,
     rule="a Stokes I model is supplied (with zero or negative channels in half the cases); non-trivial always")
def supplied(c):
    r, f, d, bad = spectra(c)
    n = len(f)
    mi = (1 + r.rand(n)).astype(d["I"].dtype)
    if c["zero"]:
        mi[r.rand(n) < 0.2] = 0
        mi[r.rand(n) < 0.2] *= -1
    keep = mi.copy()
    I2 = d["I"].copy()
    mod, q, u, dq, du, m = call(f, d, c, modStokesI=mi)
    check(np.array_equal(mi, keep) and np.array_equal(np.asarray(mod), keep), "the supplied model is not used as given")
    check(m.fitStatus == 0, lambda: "fit status %s with a supplied model" % m.fitStatus)
    for k, got in (("Q", q), ("U", u), ("dQ", dq), ("dU", du)):
        quotient(d, k, keep, got, 1e-12 if c["bits"] == 64 else 1e-6, k)
    # Stokes I data are irrelevant then
    d["I"] = (r.randn(n) * 10).astype(d["I"].dtype)
    mod2, q2, u2, dq2, du2, m2 = call(f, d, c, modStokesI=mi)
    check(all(np.array_equal(a, b, equal_nan=True) for a, b in zip((q, u, dq, du), (q2, u2, dq2, du2))), "Stokes I data change the result although a model is supplied")
    return True


@sub("fallback", st.fixed_dictionaries({"n": st.integers(2, 30), "how": st.sampled_from(["allnan", "allnanerr", "badfunc"]), "order": st.sampled_from([0, 2, -2]), "fit": st.sampled_from(["linear", "log"]), "bits": st.sampled_from([32, 64]), "seed": seeds}),
     quick=200, thorough=2000, rule="Stokes I that cannot be fitted: the model must be unity and marked as failed, or (no valid channel) blank; non-trivial always")
def fallback(c):
    r = np.random.RandomState(c["seed"])
    n = c["n"]
    dt = "f%d" % (c["bits"] // 8)
    f = 1e9 + 1e7 * np.arange(n)
    d = {k: r.randn(n).astype(dt) for k in ("I", "Q", "U")}
    d.update({k: (0.1 + r.rand(n)).astype(dt) for k in ("dI", "dQ", "dU")})
    c = dict(c)
    if c["how"] == "allnan":
        d["I"][:] = np.nan
    elif c["how"] == "allnanerr":
        d["dI"][:] = np.nan
    else:
        c["fit"] = "cubic"
    mod, q, u, dq, du, m = call(f, d, c)
    if c["how"] != "badfunc" and m.fitStatus == 0:
        # without a single valid Stokes I channel the fitter may also refuse its input; the result must then be blank, not a number
        check(all(np.isnan(np.asarray(x, float)).all() for x in (mod, q, u, dq, du)), "no valid Stokes I channel, yet a finite fractional spectrum with a status other than failed")
        return True
    check(m.fitStatus == 9, lambda: "an impossible fit is reported with status %s" % m.fitStatus)
    check(np.all(np.asarray(mod) == 1) and len(mod) == n, "the fallback model is not unity")
    for k, got in (("Q", q), ("U", u), ("dQ", dq), ("dU", du)):
        check(np.allclose(got, d[k], rtol=1e-6), "%s is changed by a model of unity" % k)
    p = np.asarray(m.params, float)
    check(np.all(p[:5] == 0) and p[5] == 1, "fallback coefficients")
    return True


@sub("pipeline", st.fixed_dictionaries(dict(gen, how=st.sampled_from(["model", "none7", "none5", "fit"]))), quick=200, thorough=8000,
     rule="1D RM synthesis with a supplied model, no Stokes I, or a fit must equal RM synthesis of the divided spectra times the model at the reference frequency; non-trivial always")
def pipeline(c):
    c = dict(c, nan="none", noise=min(c["noise"], 0.03))
    r, f, d, bad = spectra(c)
    n = len(f)
    if c["bits"] == 32:
        f = f.astype("f4").astype(float)
    d = {k: v.astype(float) for k, v in d.items()}
    l2 = (299792458.0 / f) ** 2
    fw = 3.8 / np.ptp(l2)
    kw = dict(phiMax_radm2=6 * fw, dPhi_radm2=fw / 4, nBits=c["bits"])
    full = [f, d["I"], d["Q"], d["U"], d["dI"], d["dQ"], d["dU"]]
    five = [f, d["Q"], d["U"], d["dQ"], d["dU"]]
    if c["how"] == "model":
        o = np.argsort(f)
        s = r.uniform(-1, 1)
        mi = 1.5 + s * (f - f.mean()) / f.mean()
        if mi.min() < 0.1:
            skip()
        m1, a1 = run_rmsynth([x.copy() for x in full], modStokesI=mi.copy(), **kw)
    elif c["how"] == "fit":
        m1, a1 = run_rmsynth([x.copy() for x in full], polyOrd=c["order"], fit_function=c["fit"], **kw)
        dt = "f%d" % (c["bits"] // 8)
        mi = np.asarray(create_frac_spectra(f, *[d[k].astype(dt) for k in ("I", "Q", "U", "dI", "dQ", "dU")], polyOrd=c["order"], fit_function=c["fit"])[0], float)
    elif c["how"] == "none7":
        m1, a1 = run_rmsynth([x.copy() for x in full], noStokesI=True, **kw)
        mi = np.ones(n)
    else:
        m1, a1 = run_rmsynth([x.copy() for x in five], **kw)
        mi = np.ones(n)
    m2, a2 = run_rmsynth([f, d["Q"] / mi, d["U"] / mi, np.abs(d["dQ"] / mi), np.abs(d["dU"] / mi)], **kw)
    i0 = m1["Ifreq0"]
    if c["how"].startswith("none"):
        check(i0 == 1, lambda: "Ifreq0 %.6g without Stokes I" % i0)
    elif c["how"] == "model":
        e = 1.5 + s * (m1["freq0_Hz"] - f.mean()) / f.mean()
        if c["fk"] == "lin" or True:
            check(abs(i0 - e) <= 1e-4 * e, lambda: "Ifreq0 %.6g, the supplied model has %.6g there" % (i0, e))
    x, y = np.asarray(a1["dirtyFDF"], complex), np.asarray(a2["dirtyFDF"], complex) * i0
    t = 1e-9 if c["bits"] == 64 else 3e-4
    check(x.shape == y.shape and np.abs(x - y).max() <= t * np.abs(y).max(), lambda: "the FDF differs from that of the divided spectra by %.3g of its maximum" % (np.abs(x - y).max() / np.abs(y).max()))
    check(abs(m1["dFDFth"] - m2["dFDFth"] * abs(i0)) <= (1e-9 if c["bits"] == 64 else 1e-4) * m1["dFDFth"], "theoretical noise")
    return True


# the same at the size of survey data
sub("divide_large", wider(st.fixed_dictionaries(dict(gen, k=st.sampled_from([2.0**-12, 1e3]))), n=st.integers(100, 600)), quick=48, thorough=300, min_shard=2,
    rule="as divide, with hundreds of channels; non-trivial as there")(divide)
sub("supplied_large", wider(st.fixed_dictionaries(dict(gen, zero=st.booleans())), n=st.integers(100, 600)), quick=48, thorough=300, min_shard=2,
    rule="as supplied, with hundreds of channels; non-trivial as there")(supplied)
sub("pipeline_large", wider(st.fixed_dictionaries(dict(gen, how=st.sampled_from(["model", "none7", "none5", "fit"]))), n=st.integers(100, 600)), quick=24, thorough=200, min_shard=2,
    rule="as pipeline, with hundreds of channels; non-trivial as there")(pipeline)
