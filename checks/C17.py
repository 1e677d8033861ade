"""C17: each QU-fitting model computes the polarisation it documents.

Technique: property-based testing of every supplied model against independent oracles (numerical integration of the Faraday rotation through the source, Gaussian averaging, sums of components), metamorphic relations (angle periodicity, limits, bounds) and of the prior constraints, on generated parameters and wavelengths
Assurance: exploration of generated inputs; no proof
"""
import importlib

import numpy as np
from hypothesis import strategies as st

from vlib.gen import freq_cases, freqs, l2_of, seeds, wider
from vlib.harness import check, skip, sub

ASSUMPTIONS = ["wavelengths between 0.05 and 5 m"]

MODELS = [1, 2, 3, 4, 5, 6, 7, 11, 12, 111]
X, W = np.polynomial.legendre.leggauss(200)


def load(k):
    return importlib.import_module("RMtools_1D.models_ns.m%d" % k)


def slab(l2, d, s=0.0):
    """Mean over the depth x of exp(2i d x l2 - 2 s^2 x l2^2), 0<=x<=1, by composite Gauss-Legendre."""
    out = np.empty(len(l2), complex)
    for i, v in enumerate(l2):
        rate = 2j * d * v - 2 * s * s * v * v
        k = int(abs(rate) / 40) + 1
        if s and abs(rate.real) > 60:  # the integrand is gone long before the end
            top = min(1.0, 60 / abs(rate.real))
        else:
            top = 1.0
        edges = np.linspace(0, top, min(k, 4000) + 1)
        h = np.diff(edges)[:, None] / 2
        x = edges[:-1, None] + h * (X[None] + 1)
        out[i] = (h * W[None] * np.exp(rate * x)).sum()
    return out


def gauss(l2, s):
    return np.exp(-2 * s * s * l2 * l2)


def rot(p, psi, rm, l2):
    a = 2 * (psi * np.pi / 180 + rm * l2)
    return p * (np.cos(a) + 1j * np.sin(a))


def oracle(k, d, l2):
    g = d.get
    if k == 1:
        return rot(g("fracPol"), g("psi0_deg"), g("RM_radm2"), l2)
    if k == 2:
        return rot(g("fracPol"), g("psi0_deg"), g("RM_radm2"), l2) * gauss(l2, g("sigmaRM_radm2"))
    if k in (3, 4, 11, 6, 111):
        out = 0
        for i in "123"[: 3 if k == 111 else 2]:
            x = rot(g("fracPol" + i), g("psi0%s_deg" % i), g("RM%s_radm2" % i), l2)
            if k == 3:
                x = x * gauss(l2, g("sigmaRM_radm2"))
            if k == 4:
                x = x * gauss(l2, g("sigmaRM%s_radm2" % i))
            if k == 6:
                x = x * slab(l2, g("deltaRM%s_radm2" % i))
            out = out + x
        return out
    if k == 5:
        return rot(g("fracPol"), g("psi0_deg"), g("RM_radm2"), l2) * slab(l2, g("deltaRM_radm2"))
    if k == 7:
        return rot(g("fracPol"), g("psi0_deg"), g("RM_radm2"), l2) * slab(l2, g("deltaRM_radm2"), g("sigmaRM_radm2"))
    if k == 12:
        return rot(g("fracPol"), g("psi0_deg"), g("RM_screen"), l2) * slab(l2, g("deltaRM_radm2"), g("sigmaRM_radm2")) * gauss(l2, g("sigmaRM_radm2_FG"))


def draw(m, r, edge):
    """Parameters inside the priors; with edge, some of them on or near the ends."""
    d = {}
    for k, p in m.priors.items():
        if type(p).__name__ == "Constraint":
            continue
        lo, hi = float(p.minimum), float(p.maximum)
        v = r.uniform(lo, hi)
        if edge and r.rand() < 0.35:
            v = r.choice([lo, hi, lo + (hi - lo) * 10.0 ** r.uniform(-14, -1)])
        if r.rand() < 0.4 and ("sigma" in k or "delta" in k):
            v = 10.0 ** r.uniform(-6, 2) if hi >= 100 else v * 10.0 ** r.uniform(-5, 0)
            v = min(v, hi)
        d[k] = v
    return d


case = st.fixed_dictionaries({"m": st.sampled_from(MODELS), "freq": freq_cases(2, 25), "edge": st.booleans(), "seed": seeds})


@sub("formula", case, quick=2500, thorough=60000,
     rule="each model at parameters drawn from its own priors, ends and tiny widths included, against the independent oracle, with bounds, angle period and input purity; non-trivial unless all components are zero")
def formula(c):
    r = np.random.RandomState(c["seed"])
    m = load(c["m"])
    l2 = l2_of(freqs(c["freq"]))
    d = draw(m, r, c["edge"])
    tot = sum(v for k, v in d.items() if "fracPol" in k)
    d0, l0 = dict(d), l2.copy()
    got = m.model(d, l2)
    check(d == d0 and np.array_equal(l2, l0), "the model changed its inputs")
    check(np.shape(got) == l2.shape and np.iscomplexobj(got), "shape or type of the model")
    want = oracle(c["m"], d, l2)
    phase = max(abs(v) for k, v in d.items() if "RM" in k) * l2.max() * 4 + 10
    tol = 1e-13 * phase + 1e-9
    check(np.isfinite(got).all(), lambda: "m%d is not finite at %s" % (c["m"], d))
    check(np.abs(got - want).max() <= tol * max(tot, 1e-3), lambda: "m%d differs from its formula by %.3g at %s" % (c["m"], np.abs(got - want).max(), d))
    check(np.abs(got).max() <= tot * (1 + 1e-9) + 1e-15, lambda: "m%d exceeds the intrinsic fraction %.4g" % (c["m"], tot))
    k = r.randint(-3, 4) * 180.0
    e = {n: v + (k if n.startswith("psi") else 0) for n, v in d.items()}
    check(np.abs(m.model(e, l2) - got).max() <= 1e-10 * max(tot, 1e-3), "m%d is not periodic in angle with 180 deg" % c["m"])
    a = r.uniform(-200, 200)
    e = {n: v + (a if n.startswith("psi") else 0) for n, v in d.items()}
    check(np.abs(m.model(e, l2) - got * np.exp(2j * np.radians(a))).max() <= 1e-10 * max(tot, 1e-3), "m%d: rotating the angle by %g does not rotate Q,U by twice that" % (c["m"], a))
    # one wavelength at a time
    j = r.randint(len(l2))
    check(abs(m.model(d, l2[j:j + 1])[0] - got[j]) <= 1e-12 * max(tot, 1e-3), "m%d at one wavelength depends on the others" % c["m"])
    return tot > 1e-3


@sub("limits", case, quick=1000, thorough=20000,
     rule="as all widths and dispersions go to zero (10^-3 ... 0) every model tends to the sum of thin screens, and monotonically less depolarisation; non-trivial for models with a width")
def limits(c):
    r = np.random.RandomState(c["seed"])
    m = load(c["m"])
    l2 = l2_of(freqs(c["freq"]))
    d = draw(m, r, False)
    wid = [k for k in d if "sigma" in k or "delta" in k]
    suf = ["1", "2", "3"] if c["m"] == 111 else (["1", "2"] if c["m"] in (3, 4, 6, 11) else [""])
    thin = sum(rot(d["fracPol" + i], d["psi0%s_deg" % i], d["RM_screen" if c["m"] == 12 else "RM%s_radm2" % i], l2) for i in suf)
    tot = sum(d["fracPol" + i] for i in suf)
    for e in (1e-3, 1e-6, 1e-9, 1e-12, 0.0):
        x = e / l2.max()
        z = m.model(dict(d, **{k: x for k in wid}), l2)
        check(np.isfinite(z).all(), "m%d is not finite for widths of %g rad/m2" % (c["m"], x))
        check(np.abs(z - thin).max() <= (2 * e + 1e-10 + 1e-12 * 1100 * l2.max()) * max(tot, 1e-3), lambda: "m%d with widths %g differs from thin screens by %.3g" % (c["m"], x, np.abs(z - thin).max()))
    return bool(wid)


@sub("priors", st.fixed_dictionaries({"m": st.sampled_from(MODELS + [3, 4, 6, 11, 111, 111]), "seed": seeds, "edge": st.booleans()}), quick=1500, thorough=30000,
     rule="random parameter vectors in and out of the prior box: the prior admits exactly those inside the box with ordered Faraday depths and summed fractions not above one; samples drawn from the prior satisfy the constraints; non-trivial for models with constraints")
def priors(c):
    import bilby

    r = np.random.RandomState(c["seed"])
    m = load(c["m"])
    pr = m.priors
    if not isinstance(pr, bilby.core.prior.PriorDict):
        pr = bilby.core.prior.PriorDict(dict(pr))
    d = draw(m, r, False)
    if c["edge"]:
        k = list(d)[r.randint(len(d))]
        if type(m.priors[k]).__name__ != "Constraint":
            d[k] = r.choice([m.priors[k].minimum - 1, m.priors[k].maximum + 1])
    # orders of the depths and sums of the fractions, around those that the constraints admit
    ks = sorted(k for k in d if k[:2] == "RM")
    rm = sorted((d[k] for k in ks), reverse=True)
    how = r.randint(4)
    if how == 1:
        r.shuffle(rm)
    elif how == 2 and len(ks) > 1:
        i = r.randint(len(ks) - 1)
        rm[i], rm[i + 1] = rm[i + 1], rm[i]
    if how < 3:
        d.update(zip(ks, rm))
    f = [k for k in d if k.startswith("fracPol")]
    if r.rand() < 0.7:
        x = r.choice([0.5, 0.9, 1.1]) / max(sum(d[k] for k in f), 1e-6)
        d.update((k, d[k] * x) for k in f)
    inside = all(m.priors[k].minimum <= v <= m.priors[k].maximum for k, v in d.items())
    rms = [d[k] for k in sorted(k for k in d if k[:2] == "RM")]
    fs = [d[k] for k in d if k.startswith("fracPol")]
    if len(fs) > 1:
        if any(abs(a - b) < 1e-9 for a, b in zip(rms, rms[1:])) or abs(sum(fs) - 1) < 1e-9:
            skip()
        inside = inside and all(a > b for a, b in zip(rms, rms[1:])) and sum(fs) < 1
    with np.errstate(all="ignore"):
        # PriorDict.prob normalises by sampling, which is slow: the box and the constraints separately
        got = np.prod([m.priors[k].prob(v) for k, v in d.items()]) * float(pr.evaluate_constraints(d))
    check((got > 0) == inside, lambda: "m%d: prior %s %s" % (c["m"], "admits" if got > 0 else "refuses", d))
    for k, p in m.priors.items():
        if type(p).__name__ == "Constraint":
            continue
        if k.startswith("psi"):
            check(p.minimum == 0 and p.maximum == 180 and p.boundary == "periodic", "m%d: the prior of %s is not one period" % (c["m"], k))
        elif k.startswith("fracPol"):
            check(0 <= p.minimum < p.maximum <= 1, "m%d: the prior of %s is not within 0..1" % (c["m"], k))
        elif "sigma" in k or "delta" in k:
            check(p.minimum >= 0, "m%d: the prior of %s admits negative widths" % (c["m"], k))
        else:
            check(p.minimum < 0 < p.maximum and abs(p.minimum + p.maximum) < 1e-9, "m%d: the prior of %s is not symmetric" % (c["m"], k))
    return len(fs) > 1


# the same at the size of survey data
sub("formula_large", wider(case, freq=freq_cases(100, 500)), quick=180, thorough=1000, min_shard=4,
    rule="as formula, with hundreds of channels; non-trivial as there")(formula)
