"""C33: the products of a run depend on its inputs and options alone, not on where it runs, how paths are written or what an earlier run left.

Technique: property-based testing: metamorphic relation between a run of generated command lines in a fresh folder with absolute paths and a run of the same command lines from another folder, with relative paths, over the remains of a run on other data
Assurance: exploration of generated inputs, options, path styles and histories; no proof
"""
import json
import logging
import os
import tempfile

import bilby
import numpy as np
from hypothesis import strategies as st
from matplotlib import pyplot as plt

from vlib.gen import seeds
from vlib.harness import check, skip, sub
from vlib.runs import Run, below, differ, execute, jnear, small

from RMtools_1D import do_QUfit_1D_mnest

logging.getLogger("bilby").setLevel(logging.ERROR)
ASSUMPTIONS = ["the worker processes of Stokes I fitting and rescaling are replaced by a loop in this process", "dates and histories in FITS headers, and the look of figures, are not compared"]
DIRS = ["d", "a.b", "x y", "m_tot_dirty", "im_1", "FDF_real_dirty.d", "s.C0.2", "data.fits", "x.dat"]
STYLES = ["abs", "name", "dot", "sub", "up"]


W = ["oned"] * 3 + ["bwdepol"] + ["bwpredict"] + ["calc"] + ["three"] * 4 + ["icube"] * 2 + ["fits1"]
LIGHT = ["icube", "boxes", "chunks", "chunks", "made1", "made3"]


def cases(tools, dirs):
    return st.fixed_dictionaries({"what": st.sampled_from(tools), "style": st.sampled_from(STYLES), "dir": st.sampled_from(dirs), "past": st.sampled_from(["none", "run", "junk"]), "stem": st.sampled_from(["s", "src.1", "my_tot"]), "n": st.integers(6, 9), "nx": st.integers(1, 4), "ny": st.integers(1, 4), "wt": st.booleans(), "seed": seeds})


@sub("places", cases(W, DIRS), quick=320, thorough=7000, timeout=180,
     rule="command lines of the tools (1D synthesis, CLEAN and model; 3D synthesis, CLEAN and peaks; Stokes I fit and rescale) in another folder, with paths absolute, by name, ./, folder/ or ../folder/, over nothing, the products of a run on other data or junk under the names of the products: the same products with the same content, inputs untouched, nothing outside the folder; non-trivial always")
def places(c):
    run = Run(c)
    with tempfile.TemporaryDirectory() as t, small(c["seed"] % 10 == 3):
        t = os.path.realpath(t)
        ref, root = os.path.join(t, "ref", "fresh"), os.path.join(t, "v")
        d = os.path.join(root, c["dir"])
        for x in (ref, d, os.path.join(root, "elsewhere"), os.path.join(t, "ref", "elsewhere")):
            os.makedirs(x)
            for k in getattr(run, "folders", []):
                if "elsewhere" not in x:
                    os.makedirs(os.path.join(x, k))
        run.inputs(ref, c["seed"])
        first = below(ref)
        why = execute(run, "abs", os.path.dirname(ref), ref)
        check(why is None, lambda: "the run with absolute paths fails: %s" % why)
        want = below(ref)
        changed = [k for k in first if want.get(k) != first[k]]
        check(not changed, lambda: "%s: inputs changed by the run: %s" % (c["what"], changed))
        made = sorted(set(want) - set(first))
        check(made and not os.listdir(os.path.join(t, "ref", "elsewhere")), lambda: "%s: no products, or files in the working folder: %s" % (c["what"], os.listdir(os.path.join(t, "ref", "elsewhere"))))
        past = set()
        if c["past"] == "run":
            run.inputs(d, c["seed"] + 1)
            why = execute(run, "abs", root, d, 9)
            check(why is None, lambda: "the run with other data fails: %s" % why)
            past = set(below(d))
        run.inputs(d, c["seed"])
        if c["past"] == "junk":
            for k in made:
                os.makedirs(os.path.dirname(os.path.join(d, k)), exist_ok=True)
                with open(os.path.join(d, k), "wb") as g:
                    g.write(b"# not a product\n" * 7)
            past = set(below(d))
        before = below(d)
        why = execute(run, c["style"], root, d)
        check(why is None, lambda: "%s: the run with paths of style '%s', over '%s', fails: %s" % (c["what"], c["style"], c["past"], why))
        got = below(d)
        check(not os.listdir(os.path.join(root, "elsewhere")) and sorted(os.listdir(root)) == sorted(["elsewhere", c["dir"]]), lambda: "%s: files outside of the data folder: %s %s" % (c["what"], os.listdir(os.path.join(root, "elsewhere")), os.listdir(root)))
        changed = [k for k in first if got.get(k) != before[k]]
        check(not changed, lambda: "%s: inputs changed by the run: %s" % (c["what"], changed))
        more, less = sorted(set(got) - set(want) - past), sorted(set(want) - set(got))
        check(not more and not less, lambda: "%s: paths of style '%s': products missing %s, additional %s" % (c["what"], c["style"], less, more))
        for k in made:
            x = differ(os.path.join(ref, k), os.path.join(d, k))
            check(x is None, lambda: "%s: %s differs (%s) with paths of style '%s' over '%s'" % (c["what"], k, x, c["style"], c["past"]))
    return True


@sub("light", cases(LIGHT, DIRS + ["data.fits"] * 2), quick=600, thorough=12000, timeout=180,
     rule="likewise with the tools that take little time (Stokes I fit and rescale, cutouts and frequency lists, chunks and their assembly, test data); non-trivial always")
def light(c):
    return places(c)


@sub("fits", st.fixed_dictionaries({"m": st.sampled_from([1, 1, 2]), "style": st.sampled_from(STYLES), "dir": st.sampled_from(DIRS), "past": st.sampled_from(["none", "run", "run"]), "cols": st.sampled_from([5, 7]), "n": st.integers(14, 20), "seed": seeds}), quick=16, thorough=300, min_shard=2, timeout=300,
     rule="rmtools_qufit with the nestle sampler and the same random numbers, likewise, with data of another source fitted before under the same name; non-trivial always")
def fits(c):
    def inputs(d, seed):
        r = np.random.RandomState(seed)
        f = np.linspace(1.0e9, 1.8e9, c["n"]) + 4e6 * r.rand(c["n"])
        p = r.uniform(0.2, 0.6) * np.exp(2j * (r.uniform(0, 3) + r.uniform(-60, 60) * (299792458.0 / f) ** 2))
        I = 3 * (f / f[0]) ** -0.7 if c["cols"] == 7 else np.ones(c["n"])
        e = np.full(c["n"], 0.03)
        cols = [f, I * p.real + e * r.randn(c["n"]), I * p.imag + e * r.randn(c["n"]), e, e]
        if c["cols"] == 7:
            cols[1:1], cols[4:4] = [I], [e / 10]
        np.savetxt(os.path.join(d, "src.dat"), np.array(cols).T)

    run = type("R", (), {})()
    run.steps = [(do_QUfit_1D_mnest, lambda P: [P("src.dat"), "-m", c["m"], "--sampler", "nestle", "--nlive", 50] + (["-i"] if c["cols"] == 5 else []))]
    keep = bilby.run_sampler, bilby.core.result.Result.plot_corner
    bilby.run_sampler = lambda *a, **k: keep[0](*a, **dict(k, plot=False))
    bilby.core.result.Result.plot_corner = lambda *a, **k: plt.figure()

    def go(style, root, d, seed):
        bilby.core.utils.random.seed(seed)
        why = execute(run, style, root, d, seed)
        if why and ("infs or NaNs" in why or "130" in why):
            skip("the sampler failed")
        return why

    try:
        with tempfile.TemporaryDirectory() as t, small(False):
            t = os.path.realpath(t)
            ref, root = os.path.join(t, "ref", "fresh"), os.path.join(t, "v")
            d = os.path.join(root, c["dir"])
            for x in (ref, d, os.path.join(root, "elsewhere"), os.path.join(t, "ref", "elsewhere")):
                os.makedirs(x)
            inputs(ref, c["seed"])
            s = c["seed"] % 1000
            why = go("abs", os.path.dirname(ref), ref, s)
            check(why is None, lambda: "the fit with absolute paths fails: %s" % why)
            want = below(ref)
            if c["past"] == "run":
                inputs(d, c["seed"] + 1)
                why = go("abs", root, d, s + 1)
                check(why is None, lambda: "the fit of other data fails: %s" % why)
            inputs(d, c["seed"])
            why = go(c["style"], root, d, s)
            check(why is None, lambda: "the fit with paths of style '%s' over '%s' fails: %s" % (c["style"], c["past"], why))
            got = {k: v for k, v in below(d).items() if not k.endswith(".old")}  # (kept by bilby)
            check(set(got) == set(want) and got["src.dat"] == want["src.dat"], lambda: "files %s instead of %s" % (sorted(set(got) - set(want)), sorted(set(want) - set(got))))
            check(not os.listdir(os.path.join(root, "elsewhere")) and sorted(os.listdir(root)) == sorted(["elsewhere", c["dir"]]), "files outside of the data folder")
            a, b = (json.load(open(os.path.join(x, "src_m%d_nestle.json" % c["m"]))) for x in (ref, d))
            for k in ("values", "errPlus", "errMinus", "chiSqRed", "BIC", "ln(EVIDENCE) "):
                check(jnear(a.get(k), b.get(k)), lambda: "%s is %s with paths of style '%s' over '%s', and %s in a fresh folder" % (k, b.get(k), c["style"], c["past"], a.get(k)))
    finally:
        bilby.run_sampler, bilby.core.result.Result.plot_corner = keep
    return True
