"""C31: the cube and QU-fitting command lines do what their options say.

Technique: property-based differential testing: the command lines run on generated files with generated option sets, against the library routines called on independently read arrays with the arguments those options document, and the Faraday spectra against their definition
Assurance: exploration of generated inputs; no proof. Sampling itself is replaced by a stand-in for qufit.
"""
import builtins
import gc
import json
import os
import sys
import tempfile

import bilby
import numpy as np
from astropy.io import fits as pf
from hypothesis import strategies as st

from vlib import ref
from vlib.cubelib import build, quiet, same, skyshape
from vlib.gen import freq_cases, freqs, l2_of, seeds
from vlib.harness import check, sub
from vlib.qulib import PAR, FakeSampler, spectra, truth

from RMtools_1D import do_QUfit_1D_mnest as Q
from RMtools_3D import do_RMclean_3D as C3
from RMtools_3D import do_RMsynth_3D as S3

ASSUMPTIONS = ["no sky axis of length 1 together with a Stokes axis before it", "MPI is not available here and is not exercised"]


def call(mod, args):
    old, prompt = sys.argv, builtins.input
    sys.argv = ["tool"] + [str(x) for x in args]
    builtins.input = lambda *a: ""
    try:
        mod.main()
    finally:
        sys.argv, builtins.input = old, prompt


def hdus(fn):
    with pf.open(fn) as h:
        return [(x.header.copy(), np.array(x.data)) for x in h]


def equal(a, b, what):
    """Two products hold the same planes and describe them in the same way."""
    x, y = hdus(a), hdus(b)
    check(len(x) == len(y), lambda: "%s: %d extensions, expected %d" % (what, len(x), len(y)))
    for k, ((h, v), (g, w)) in enumerate(zip(x, y)):
        same(v, w, what, 3e-6)
        for key in set(h) | set(g):
            if key in ("DATE", "HISTORY", "COMMENT", "CHECKSUM", "DATASUM"):
                continue
            p, q = h.get(key), g.get(key)
            check(p == q or isinstance(p, float) and isinstance(q, (int, float)) and abs(p - q) <= 1e-6 * abs(q), lambda: "%s: %s is %r, expected %r" % (what, key, p, q))


cube = {
    "lay": st.sampled_from(["xyf", "xyf", "xyfs", "fxy", "xysf", "yxf"]), "nx": st.integers(1, 3), "ny": st.integers(1, 3), "nf": st.integers(4, 12), "half": st.just(5), "nan": st.sampled_from(["none", "vox", "pix"]),
    "dir": st.sampled_from(["plain", "obs_tot_v1", "a.b"]), "pre": st.sampled_from([None, None, "src1_", "t_real_"]), "ct": st.just("all"), "unit": st.booleans(), "rot": st.booleans(), "seed": seeds,
}


@sub("synth3d", st.fixed_dictionaries(dict(cube, I=st.booleans(), noise=st.booleans(), w=st.sampled_from([None, "uniform", "variance", "variance"]), fit=st.sampled_from([False, False, True]), l=st.sampled_from([None, 4.4, 9.7]), d=st.sampled_from([None, None, 0.31]),
                                           s=st.sampled_from([None, None, 3.0, 6.5]), f=st.booleans(), R=st.sampled_from([False, False, True]), r=st.sampled_from([False, False, True]), v=st.booleans(), miss=st.sampled_from([None] * 9 + ["Q", "U"]))),
     quick=240, thorough=8000, timeout=100,
     rule="rmsynth3d on cubes in several axis orders with generated option sets (Stokes I model, noise file, weighting, fitted width, depth range, step or samples, combined files, no RMSF, super-resolution, prefix, a missing input); non-trivial with three or more options")
def synth3d(c):
    c, r, ax, n, h, QQ, UU = build(c)
    nf = n["f"]
    f = 1.1e9 + 2e7 * np.arange(nf) + 8e6 * r.rand(nf)
    l2 = l2_of(f)
    fw = 3.8 / np.ptp(l2)
    fo = len(ax) - 1 - ax.index("f")
    sky = [n[a] for a in reversed(ax) if a != "f"]

    def first(a):  # channels first, with the sky axes only
        a = np.moveaxis(a, fo, 0)
        return a.reshape([nf] + skyshape(ax, n)).astype("f8")

    a0, a1 = 1 + r.rand(*sky), r.uniform(-0.4, 0.4, sky)
    I = np.moveaxis(np.array([a0 * (1 + a1 * (x - f.mean()) / np.ptp(f)) for x in f]), 0, fo).astype("f4")
    rms = 0.05 + 0.1 * r.rand(nf)
    with tempfile.TemporaryDirectory() as t:
        d, o = os.path.join(t, c["dir"]), os.path.join(t, "other")
        os.mkdir(d)
        os.mkdir(o)
        for k, a in (("Q", QQ), ("U", UU), ("I", I)):
            if k != c["miss"]:
                pf.writeto(os.path.join(d if k != "I" else t, k + ".fits"), a, h)
        np.savetxt(os.path.join(t, "f.dat"), f)
        np.savetxt(os.path.join(t, "n.dat"), rms)
        args = [os.path.join(d, "Q.fits"), os.path.join(d, "U.fits"), os.path.join(t, "f.dat")]
        dphi, pm = c["d"] and c["d"] * fw, c["l"] and c["l"] * fw
        for key, val in (("-i", os.path.join(t, "I.fits") if c["I"] else None), ("-n", os.path.join(t, "n.dat") if c["noise"] else None), ("-w", c["w"]), ("-l", pm and repr(float(pm))), ("-d", dphi and repr(float(dphi))), ("-s", c["s"]), ("-o", c["pre"])):
            if val is not None:
                args += [key, val]
        args += ["-t"] * c["fit"] + ["-f"] * c["f"] + ["-R"] * c["R"] + ["-r"] * c["r"] + ["-v"] * c["v"]
        had = set(os.listdir(d))
        if c["miss"]:
            try:
                call(S3, args)
                stopped = False
            except (SystemExit, OSError):
                stopped = True
            check(stopped and set(os.listdir(d)) == had, "an input cube is missing, and the tool does not stop before writing")
            return True
        call(S3, args)
        made = set(os.listdir(d)) - had
        check(set(os.listdir(t)) == {c["dir"], "other", "I.fits", "f.dat", "n.dat"}, "products outside of the folder of the data")
        # the same with the library, from arrays put in order here
        q, u = first(QQ).astype("f4"), first(UU).astype("f4")
        out = S3.run_rmsynth(q, u, f.copy(), dataI=first(I).astype("f4") if c["I"] else None, rmsArr=rms.copy() if c["noise"] else None, phiMax_radm2=pm, dPhi_radm2=dphi, nSamples=c["s"] or 5, weightType=c["w"] or "uniform", fitRMSF=c["fit"], nBits=32,
                             verbose=False, not_rmsf=c["R"], super_resolution=c["r"], log=quiet)
        S3.writefits(out, headtemplate=h, prefixOut=c["pre"] or "", outDir=o, write_seperate_FDF=not c["f"], not_rmsf=c["R"], nBits=32, verbose=False, log=quiet)
        check(made == set(os.listdir(o)), lambda: "products %s, expected %s" % (sorted(made), sorted(os.listdir(o))))
        for x in sorted(made):
            equal(os.path.join(d, x), os.path.join(o, x), x)
        # grid and spectra by definition
        phi = np.asarray(out[1], float)
        width = 2.0 / (l2.max() + l2.min()) if c["r"] else fw
        step = dphi or width / (c["s"] or 5)
        top = pm or max(np.sqrt(3) / np.diff(np.sort(l2)).max(), 10 * width)
        half = int(round(top / step))
        check(abs(top / step % 1 - 0.5) < 1e-6 or len(phi) == 2 * half + 1, lambda: "%d depths, expected %d" % (len(phi), 2 * half + 1))
        check(np.abs(np.diff(phi) - step).max() <= 1e-3 * step + 1e-6 * phi[-1] and abs(phi[0] + phi[-1]) <= 1e-6 * phi[-1], "depths are not in steps of the documented size about zero")
        w = 1 / rms**2 if c["w"] == "variance" and c["noise"] else np.ones(nf)
        good = np.isfinite(q + u).reshape(nf, -1).any(1)
        l20 = 0.0 if c["r"] else ref.lam0(w * good, l2)
        b = os.path.join(d, c["pre"] or "")
        if c["f"]:
            x = hdus(b + "FDF_dirty.fits")
            F = x[0][1] + 1j * x[1][1]
        else:
            F = pf.getdata(b + "FDF_real_dirty.fits") + 1j * pf.getdata(b + "FDF_im_dirty.fits")
        F = np.moveaxis(F, fo, 0).reshape(len(phi), -1)
        i0 = np.ones(F.shape[1])
        p = (q + 1j * u).reshape(nf, -1).astype(complex)
        if c["I"]:
            f0 = ref.C / np.sqrt(l20) if l20 > 0 else f.mean()
            i0 = (a0 * (1 + a1 * (f0 - f.mean()) / np.ptp(f))).ravel()
            p = p / first(I).reshape(nf, -1)
        for k in range(F.shape[1]):
            e = ref.fdf(p[:, k], w, l2, phi, l20) * i0[k]
            check(np.array_equal(np.isnan(e), np.isnan(F[:, k])), "blank pixels")
            if np.isfinite(e).all():
                check(np.abs(F[:, k] - e).max() <= 1e-3 * np.nanmax(np.abs(p[:, k])) * i0[k] + 1e-4, lambda: "the Faraday spectrum of pixel %d differs from its definition by %g" % (k, np.abs(F[:, k] - e).max()))
    return sum([c["I"], c["noise"], c["w"] is not None, c["fit"], c["l"] is not None, c["d"] is not None, c["s"] is not None, c["f"], c["R"], c["r"], c["pre"] is not None]) >= 3


@sub("clean3d", st.fixed_dictionaries(dict(cube, cut=st.sampled_from([None, 0.15, 0.3, 0.8]), win=st.sampled_from([None, None, 0.05, 0.12]), it=st.sampled_from([None, 3, 40]), gain=st.sampled_from([None, 0.05, 0.3]), f=st.booleans(), v=st.booleans(),
                                           cores=st.sampled_from([None, None, None, None, 1, 2]), chunk=st.sampled_from([None, None, None, 1, 3]), fit=st.booleans(), scale=st.sampled_from([1.0, 4.0]), miss=st.sampled_from([False] * 9 + [True]), file=st.integers(0, 8))),
     quick=160, thorough=4000, timeout=120, min_shard=8,
     rule="rmclean3d on the products of cube RM synthesis with generated option sets (cutoff, window, iterations, gain, prefix, combined files, number of processes and chunk size, any component file as input, a missing input); non-trivial when a pixel was cleaned")
def clean3d(c):
    c, r, ax, n, h, QQ, UU = build(c)
    nf = n["f"]
    f = 1.1e9 + 3e7 * np.arange(nf) + 8e6 * r.rand(nf)
    fo = len(ax) - 1 - ax.index("f")
    q, u = (np.moveaxis(z, fo, 0).reshape([nf] + skyshape(ax, n)) * np.float32(c["scale"]) for z in (QQ, UU))
    fw = 3.8 / np.ptp(l2_of(f))
    with tempfile.TemporaryDirectory() as t:
        d, o = os.path.join(t, c["dir"]), os.path.join(t, "other")
        os.mkdir(d)
        os.mkdir(o)
        out = S3.run_rmsynth(q, u, f, phiMax_radm2=5.3 * fw, dPhi_radm2=fw / 4.3, fitRMSF=c["fit"], nBits=32, verbose=False, log=quiet)
        S3.writefits(out, headtemplate=h, prefixOut="in_", outDir=d, write_seperate_FDF=True, do_peakmaps=False, verbose=False, log=quiet)
        fdf = os.path.join(d, "in_FDF_%s_dirty.fits" % ["real", "im", "tot"][c["file"] % 3])
        rms = os.path.join(d, "in_RMSF_%s.fits" % ["real", "im", "tot"][c["file"] // 3])
        args = [fdf, rms]
        if c["miss"]:
            os.unlink(args[c["file"] % 2])
        for key, val in (("-c", c["cut"]), ("-w", c["win"]), ("-n", c["it"]), ("-g", c["gain"]), ("-o", c["pre"]), ("--ncores", c["cores"]), ("--chunk", c["chunk"])):
            if val is not None:
                args += [key, val]
        args += ["-f"] * c["f"] + ["-v"] * c["v"]
        had = set(os.listdir(d))
        if c["miss"]:
            try:
                call(C3, args)
                stopped = False
            except (SystemExit, OSError):
                stopped = True
            check(stopped and set(os.listdir(d)) == had, "an input cube is missing, and the tool does not stop before writing")
            return True
        try:
            call(C3, args)
        finally:
            gc.collect()  # (ends the processes of the pool)
        made = set(os.listdir(d)) - had
        check(set(os.listdir(t)) == {c["dir"], "other"}, "products outside of the folder of the data")
        cl, cc, it, rs, hd = C3.run_rmclean(fdf, rms, 1.0 if c["cut"] is None else c["cut"], maxIter=c["it"] or 1000, gain=c["gain"] or 0.1, nBits=32, verbose=False, log=quiet, window=np.nan if c["win"] is None else c["win"])
        C3.writefits(cl, cc, it, rs, hd, prefixOut=c["pre"] or "", outDir=o, write_separate_FDF=not c["f"], verbose=False, log=quiet)
        check(made == set(os.listdir(o)), lambda: "products %s, expected %s" % (sorted(made), sorted(os.listdir(o))))
        for x in sorted(made):
            equal(os.path.join(d, x), os.path.join(o, x), x)
        # what the options promise of the products
        b = os.path.join(d, c["pre"] or "")
        n_it = pf.getdata(b + "CLEAN_nIter.fits").ravel()
        check(n_it.max(initial=0) <= (c["it"] or 1000) and (n_it >= 0).all(), "more iterations than allowed")
        F = np.asarray(out[0]).reshape(len(out[1]), -1)
        pk = np.abs(F).max(0)
        cut = 1.0 if c["cut"] is None else c["cut"]
        for k in range(F.shape[1]):
            if np.isnan(pk[k]) or abs(pk[k] - cut) < 1e-5 * cut:
                continue
            check((n_it[k] > 0) == (pk[k] > cut), lambda: "pixel %d: peak %g, cutoff %g, %d iterations" % (k, pk[k], cut, n_it[k]))
    return bool(np.any(n_it > 0))


@sub("qufit", st.fixed_dictionaries({"m": st.sampled_from([1, 2, 5, 11, 111]), "freq": freq_cases(14, 30, kinds=("lin", "gap", "jit")), "flag": st.sampled_from(["none", "q", "u", "qu"]), "cols": st.sampled_from([5, 7]), "ff": st.sampled_from([None, "log", "linear"]), "ord": st.sampled_from([None, 0, 1, 3, -2]),
                                     "i": st.booleans(), "v": st.booleans(), "sampler": st.sampled_from([None, "nestle", "dynesty"]), "cores": st.sampled_from([None, 2]), "nlive": st.sampled_from([None, 77]), "stem": st.sampled_from(["a", "my.src", "s_1"]), "dir": st.sampled_from(["", "d.e"]), "defm": st.booleans(), "seed": seeds}),
     quick=120, thorough=4000, timeout=100,
     rule="qufit with generated option sets on generated files, with a stand-in sampler: which model, sampler, number of points and processes were asked of it, and results equal to the fitting routine called with the documented arguments; non-trivial always")
def qufit(c):
    import matplotlib.figure
    import matplotlib.pyplot as plt

    r = np.random.RandomState(c["seed"])
    c = dict(c, m=1 if c["defm"] else c["m"])
    wide = 3.8 / np.ptp(l2_of(freqs(c["freq"])))
    tr = truth(c["m"], r, wide)
    f, l2, data = spectra(c, r, tr, 0.02)
    if c["cols"] == 5 or c["i"]:
        c = dict(c, ord=2 if c["ord"] is None else c["ord"])
    w = {k: (0.003 if k.startswith("frac") else 2.0 if k.startswith("psi") else 0.01 * wide) for k in tr}
    seen = []
    figure = getattr(Q, "plot_Ipqu_spectra_fig", None)
    if figure:  # (takes seconds)
        Q.plot_Ipqu_spectra_fig = lambda *a, **k: None
    keep = (bilby.run_sampler, bilby.core.result.Result.plot_corner, matplotlib.figure.Figure.savefig)
    bilby.core.result.Result.plot_corner = lambda self, *a, **k: plt.figure()
    matplotlib.figure.Figure.savefig = lambda *a, **k: None

    def stand_in(likelihood, priors, **k):
        seen.append(k)
        return FakeSampler(tr, w, 60, np.random.RandomState(c["seed"] % 1000))(likelihood, priors, **k)

    bilby.run_sampler = stand_in
    try:
        with tempfile.TemporaryDirectory() as t:
            d = os.path.join(t, c["dir"])
            os.makedirs(d, exist_ok=True)
            np.savetxt(os.path.join(d, c["stem"] + ".dat"), np.array(data).T)
            args = [os.path.join(d, c["stem"] + ".dat")]
            for key, val in (("-m", None if c["defm"] else c["m"]), ("-f", c["ff"]), ("-o", c["ord"]), ("--sampler", c["sampler"]), ("--ncores", c["cores"]), ("--nlive", c["nlive"])):
                if val is not None:
                    args += [key, val]
            args += ["-i"] * c["i"] + ["-v"] * c["v"]
            call(Q, args)
            plt.close("all")
            s = c["sampler"] or "dynesty"
            check(len(seen) == 1, "the sampler was called %d times" % len(seen))
            k = seen[0]
            check(k.get("sampler") == s and k.get("nlive") == (c["nlive"] or 300) and k.get("npool") == (c["cores"] or 1), lambda: "sampler called with %s" % {x: k.get(x) for x in ("sampler", "nlive", "npool")})
            name = "%s_m%d_%s" % (c["stem"], c["m"], s)
            have = {x for x in os.listdir(d) if os.path.isfile(os.path.join(d, x))}
            check({name + ".json", name + ".dat", c["stem"] + ".dat"} <= have and os.listdir(d) != [] and all(x.startswith(c["stem"]) for x in os.listdir(d)), lambda: "files %s" % sorted(have))
            got = json.load(open(os.path.join(d, name + ".json")))
            lib = [np.float32(x) for x in data]
            Q.run_qufit(lib, c["m"], polyOrd=2 if c["ord"] is None else c["ord"], nBits=32, noStokesI=c["i"], fit_function=c["ff"] or "log", sampler=s, ncores=1, nlive=10, prefixOut=os.path.join(t, "lib"))
            plt.close("all")
            exp = json.load(open(os.path.join(t, "lib_m%d_%s.json" % (c["m"], s))))
    finally:
        bilby.run_sampler, bilby.core.result.Result.plot_corner, matplotlib.figure.Figure.savefig = keep
        if figure:
            Q.plot_Ipqu_spectra_fig = figure
        plt.close("all")
    check(set(got) == set(exp), "other results")
    check(sorted(got["parNames"]) == sorted(PAR[c["m"]]), lambda: "parameters %s are not those of model %d" % (got["parNames"], c["m"]))
    for k in exp:
        a, b = got[k], exp[k]
        ok = a == b or str(a) == str(b)
        if not ok and isinstance(b, (int, float)):
            ok = abs(a - b) <= 1e-6 * abs(b)
        if not ok and isinstance(b, list) and all(isinstance(x, (int, float)) for x in b):
            ok = np.allclose(a, b, rtol=1e-6, atol=1e-9)
        check(ok or "time" in k.lower(), lambda: "%s: %r by the command line, %r by the routine" % (k, a, b))
    if c["cols"] == 7 and not c["i"]:
        check(c["ord"] is not None and c["ord"] < 0 and got["IfitPolyOrd"] <= -c["ord"] or got["IfitPolyOrd"] == (2 if c["ord"] is None else c["ord"]), lambda: "order %r requested, %r fitted" % (c["ord"], got["IfitPolyOrd"]))
    return True
