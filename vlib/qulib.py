"""QU-fitting: models and their parameters, simulated spectra, and a stand-in for the sampler."""
import functools

import bilby
import numpy as np

from vlib.gen import freqs, l2_of

from RMtools_1D import do_QUfit_1D_mnest as Q

MODELS = [1, 2, 3, 4, 5, 6, 7, 11, 12, 111]
PAR = {1: ["fracPol", "psi0_deg", "RM_radm2"], 2: ["fracPol", "psi0_deg", "RM_radm2", "sigmaRM_radm2"], 5: ["fracPol", "psi0_deg", "RM_radm2", "deltaRM_radm2"],
       11: ["fracPol1", "fracPol2", "psi01_deg", "psi02_deg", "RM1_radm2", "RM2_radm2"], 111: ["fracPol1", "fracPol2", "fracPol3", "psi01_deg", "psi02_deg", "psi03_deg", "RM1_radm2", "RM2_radm2", "RM3_radm2"],
       3: ["fracPol1", "fracPol2", "psi01_deg", "psi02_deg", "RM1_radm2", "RM2_radm2", "sigmaRM_radm2"], 4: ["fracPol1", "fracPol2", "psi01_deg", "psi02_deg", "RM1_radm2", "RM2_radm2", "sigmaRM1_radm2", "sigmaRM2_radm2"],
       6: ["fracPol1", "fracPol2", "psi01_deg", "psi02_deg", "RM1_radm2", "RM2_radm2", "deltaRM1_radm2", "deltaRM2_radm2"], 7: ["fracPol", "psi0_deg", "RM_radm2", "deltaRM_radm2", "sigmaRM_radm2"],
       12: ["fracPol", "psi0_deg", "RM_screen", "deltaRM_radm2", "sigmaRM_radm2", "sigmaRM_radm2_FG"]}
load0 = Q.load_model


@functools.lru_cache(None)
def load(k):
    return load0(k)


def holding(m, fixed, tr):
    """The model file m with some parameters held at given values (delta-function priors, as bilby documents)."""
    import types

    mod = load(m)
    pri = mod.priors.copy()
    for k in fixed:
        pri[k] = bilby.core.prior.DeltaFunction(tr[k], name=k, latex_label=k)
    return types.SimpleNamespace(model=mod.model, priors=pri)


def truth(m, r, wide):
    """Parameters well inside the priors; depths in decreasing order."""
    d = {}
    for k in PAR[m]:
        if k.startswith("frac"):
            d[k] = r.uniform(0.05, 0.55) / sum(x.startswith("frac") for x in PAR[m])
        elif k.startswith("psi"):
            d[k] = r.choice([r.uniform(0, 180), r.choice([0.0, 0.02, 1.0, 44.9, 45.1, 89.0, 134.9, 135.1, 179.0, 179.99])])
        elif k.startswith("RM"):
            d[k] = r.uniform(-wide, wide)
        else:
            d[k] = r.uniform(0.1, 0.5) * wide / 30
    for i, (k, v) in enumerate(zip(sorted(k for k in d if k.startswith("RM")), sorted([d[k] for k in d if k.startswith("RM")], reverse=True))):
        d[k] = v
    return d


def chi2(q, dq, u, du, mod):
    a, b = (q - mod.real) / dq, (u - mod.imag) / du
    return float((a[np.isfinite(a)] ** 2).sum() + (b[np.isfinite(b)] ** 2).sum())


def flag(kind, q, u, dq, du, r):
    n = len(q)
    k = r.rand(n) < 0.25
    k[:4] = False
    if kind in ("q", "qu", "mixed"):
        q[k] = np.nan
    if kind in ("u", "qu"):
        u[k] = np.nan
    if kind == "mixed":
        u[(r.rand(n) < 0.25) & (np.arange(n) >= 4)] = np.nan
    return np.isfinite(q), np.isfinite(u)


def spectra(c, r, tr, sig):
    f = freqs(c["freq"])
    l2 = l2_of(f)
    n = len(f)
    dq, du = sig * (0.7 + 0.6 * r.rand(n)), sig * (0.7 + 0.6 * r.rand(n))
    p = load(c["m"]).model(tr, l2)
    q, u = p.real + dq * r.randn(n), p.imag + du * r.randn(n)
    flag(c["flag"], q, u, dq, du, r)
    if c["cols"] == 5:
        return f, l2, [f, q, u, dq, du]
    I = 3.0 * (f / f.mean()) ** -0.8
    Q_, U_ = I * q, I * u
    if c["flag"] == "mixed":
        I[(r.rand(n) < 0.2) & (np.arange(n) >= 4)] = np.nan
    m = 3.0 * (f / f.mean()) ** -0.8
    return f, l2, [f, I, Q_, U_, np.full(n, 3e-4), m * dq, m * du]


class FakeSampler:
    """Stands in for bilby.run_sampler: a posterior of the given width around the truth."""

    def __init__(self, tr, width, n, r):
        self.tr, self.width, self.n, self.r = tr, width, n, r

    def __call__(self, likelihood, priors, **kw):
        if type(priors) is dict:  # (as bilby.run_sampler does)
            priors = bilby.core.prior.PriorDict(priors)
        keys = [k for k, p in priors.items() if type(p).__name__ not in ("Constraint", "DeltaFunction")]
        fixed = [k for k, p in priors.items() if type(p).__name__ == "DeltaFunction"]
        likelihood.parameters.update({k: priors[k].peak for k in fixed})
        S = np.empty((self.n, len(keys)))
        for j, k in enumerate(keys):
            S[:, j] = self.tr[k] + self.width[k] * self.r.randn(self.n) * (1 + 0.5 * self.r.rand())
            if k.startswith("psi"):
                S[:, j] %= 180.0
        L = np.empty(self.n)
        for i in range(self.n):
            likelihood.parameters.update(dict(zip(keys, S[i])))
            L[i] = likelihood.log_likelihood()
        self.S, self.L, self.keys = S.copy(), L.copy(), keys
        res = bilby.core.result.Result(label="x", outdir=".", sampler="none", search_parameter_keys=keys, fixed_parameter_keys=fixed, constraint_parameter_keys=[], priors=priors, samples=S, log_likelihood_evaluations=L, log_evidence=-12.5, log_evidence_err=0.25)
        res.samples_to_posterior(priors=priors)  # (as bilby.run_sampler does)
        return res
