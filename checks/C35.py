"""C35: the results do not depend on the form in which the same data are stored.

Technique: property-based testing: metamorphic relation between generated runs of the command lines on inputs in their plain form and on the same inputs rewritten in an equivalent form (FITS: number type, scaling, degenerate axes, coordinate keywords, further extensions and cards; text: number format, separators, comments, blank lines, line ends)
Assurance: exploration of generated inputs, options and forms; no proof
"""
import logging
import os
import re
import tempfile

import bilby
import numpy as np
from astropy.io import fits as pf
from hypothesis import strategies as st

from vlib.clilib import call
from vlib.gen import seeds
from vlib.harness import check, sub
from vlib.runs import Run, below, differ, execute, small

from RMtools_1D import do_QUfit_1D_mnest

logging.getLogger("bilby").setLevel(logging.ERROR)
ASSUMPTIONS = ["the worker processes of Stokes I fitting and rescaling are replaced by a loop in this process", "pixel values are multiples of 1/64, so that every number type holds them exactly"]
CARDS = [("OBSERVER", "O'Neil & \"co\""), ("EQUINOX", 2000.0), ("RADESYS", "FK5"), ("RESTFRQ", 1.42e9), ("BMAJ", 0.01), ("BMIN", 0.01), ("BPA", 12.0), ("HIERARCH long keyword here", 3), ("OBSGEO-X", -2.5e6), ("TELESCOP", "ASKAP"), ("LONGTXT", "x" * 120), ("SPECSYS", "TOPOCENT"), ("LONPOLE", 180.0), ("CUNIT3", "Hz"), ("CROTA2", 0.0), ("BLANKCRD", None)]


def quantise(d):
    for x in os.listdir(d):
        if x.endswith(".fits"):
            p = os.path.join(d, x)
            with pf.open(p) as h:
                a, hd = np.array(h[0].data), h[0].header
            pf.PrimaryHDU((np.round(a * 64) / 64).astype("f4"), hd).writeto(p, overwrite=True)


def refits(p, c, r):
    """Rewrite an image in an equivalent form."""
    with pf.open(p) as h:
        a, hd = np.array(h[0].data), h[0].header.copy()
    for k in ("BITPIX", "BSCALE", "BZERO"):
        hd.remove(k, ignore_missing=True)
    if c["cards"]:
        for i in r.permutation(len(CARDS))[:r.randint(1, 6)]:
            hd[CARDS[i][0]] = CARDS[i][1]
        hd.add_history("made by a test")
        hd.add_comment("a comment")
    if c["wcs"] == "pc":
        for i in range(1, hd["NAXIS"] + 1):
            hd["PC%d_%d" % (i, i)] = 1.0
    hdu = pf.PrimaryHDU(a.astype("f8" if c["num"][0] == "i" else c["num"]), hd)
    if c["num"][0] == "i":
        hdu.scale({"i2": "int16", "i4": "int32"}[c["num"]], bscale=1 / 64.0, bzero=2.0 ** r.randint(-2, 3))
    out = [hdu]
    if c["ext"]:
        out += [pf.ImageHDU(r.rand(3, 4)), pf.BinTableHDU.from_columns([pf.Column("X", "D", array=np.arange(3.0))])]
    pf.HDUList(out).writeto(p, overwrite=True)


def retext(p, c, r):
    """Rewrite a table of numbers in an equivalent form."""
    csv = p.endswith(".csv")
    out = []
    if c["comments"]:
        out += ["# a comment", "#", "# name, unit: 1.0 2.0"]
    for l in open(p).read().split("\n"):
        if not l.strip() or l.startswith("#"):
            continue
        v = [x.strip() for x in l.split(",")] if csv else l.split()
        if not csv:
            v = [{"repr": repr(float(x)), "e": "%.17e" % float(x), "E": ("%.17e" % float(x)).upper(), "plus": "%+.17g" % float(x)}[c["fmt"]] for x in v]
        sep = {"space": " ", "spaces": "   ", "tab": "\t"}[c["sep"]] if not csv else {"space": ", ", "spaces": ",  ", "tab": ","}[c["sep"]]
        out.append(("  " if c["indent"] and not csv else "") + sep.join(v))
        if c["blank"] and r.rand() < 0.2:
            out.append("")
        if c["comments"] and r.rand() < 0.1:
            out.append("# another comment")
    nl = "\r\n" if c["crlf"] else "\n"
    with open(p, "w", newline="") as g:
        g.write(nl.join(out) + ("" if c["open"] else nl))


def same(x, y, c):
    """What is different between two products: additional cards of the input may be in the header."""
    if x.endswith((".pdf", ".png")):
        return None  # (angles in figures wrap at rounding)
    if not x.endswith(".fits"):
        return differ(x, y)
    with pf.open(y) as h:
        with pf.open(x) as g:
            if len(g) != len(h):
                return "extensions"
            for a, b in zip(g, h):
                for k in list(b.header):
                    if k and k not in a.header and (k.upper() in EXTRA or re.match(r"PC\d_\d$", k) or k in ("COMMENT", "HISTORY", "EXTEND")):
                        b.header.remove(k, ignore_missing=True, remove_all=True)
                if "polAngle" in x and a.data is not None and np.shape(a.data) == np.shape(b.data):
                    turn = np.abs((a.data - b.data + 90) % 180 - 90)
                    b.data = np.where(turn < 0.05, a.data, b.data)
                if "peakFDF" in x:  # (may be close to zero)
                    b.data = np.where(np.abs(a.data - b.data) < 2e-4, a.data, b.data)
                if a.data is not None and b.data is not None and a.data.dtype.names is None and a.data.shape == b.data.shape:
                    b.data = b.data.astype(a.data.dtype)
        z = y + ".plain.fits"
        h.writeto(z, overwrite=True)
    try:
        return differ(x, z)
    finally:
        os.remove(z)


EXTRA = [k.replace("HIERARCH ", "").upper() for k, _ in CARDS]
form = {"num": st.sampled_from(["f4", "f8", "i2", "i4"]), "cards": st.booleans(), "wcs": st.sampled_from(["plain", "pc"]), "ext": st.booleans(), "fmt": st.sampled_from(["repr", "e", "E", "plus"]), "sep": st.sampled_from(["space", "spaces", "tab"]), "indent": st.booleans(), "comments": st.booleans(), "blank": st.booleans(), "crlf": st.booleans(), "open": st.booleans()}
base = {"stem": st.sampled_from(["s", "src.1", "my_tot"]), "n": st.integers(6, 9), "nx": st.integers(1, 4), "ny": st.integers(1, 4), "wt": st.booleans(), "seed": seeds}


def cases(tools):
    return st.fixed_dictionaries(dict(base, what=st.sampled_from(tools), **form))


W = ["oned"] * 3 + ["bwdepol"] + ["bwpredict"] + ["calc"] + ["three"] * 4 + ["icube"] * 2 + ["fits1"]
LIGHT = ["icube", "boxes", "boxes", "chunks", "chunks", "made1", "made3"]


@sub("runs", cases(W), quick=300, thorough=6000, timeout=180,
     rule="command lines of the tools (1D synthesis, CLEAN and model; 3D synthesis, CLEAN and peaks; Stokes I fit and rescale; RMSF) on inputs rewritten in another form: the same products with the same content; non-trivial always")
def runs(c):
    run = Run(c)
    r = np.random.RandomState(c["seed"] + 1)
    with tempfile.TemporaryDirectory() as t, small(False):
        t = os.path.realpath(t)
        ref, d = os.path.join(t, "ref", "d"), os.path.join(t, "v", "d")
        for x in (ref, d):
            os.makedirs(x)
            for k in getattr(run, "folders", []):
                os.makedirs(os.path.join(x, k))
            run.inputs(x, c["seed"])
            quantise(x)
        inputs = sorted(below(d))
        for k in inputs:
            p = os.path.join(d, k)
            refits(p, c, r) if k.endswith(".fits") else retext(p, c, r)
        why = execute(run, "name", os.path.dirname(ref), ref)
        check(why is None, lambda: "the run on plain inputs fails: %s" % why)
        why = execute(run, "name", os.path.dirname(d), d)
        if why and "memory-mapped" in why and c["num"][0] == "i" and c["what"] in ("boxes", "chunks"):
            return False  # (refused: scaled numbers cannot be mapped)
        check(why is None, lambda: "%s: the run on rewritten inputs fails: %s" % (c["what"], why))
        a, b = sorted(below(ref)), sorted(below(d))
        check(a == b, lambda: "%s: products %s" % (c["what"], sorted(set(a) ^ set(b))))
        for k in a:
            if k not in inputs:
                x = same(os.path.join(ref, k), os.path.join(d, k), c)
                check(x is None, lambda: "%s: %s differs (%s)" % (c["what"], k, x))
    return True


@sub("light", cases(LIGHT), quick=500, thorough=10000, timeout=180,
     rule="likewise with the tools that take little time (Stokes I fit and rescale, cutouts and frequency lists, chunks and their assembly, test data); non-trivial always")
def light(c):
    return runs(c)


class Seen(Exception):
    pass


@sub("qufit", st.fixed_dictionaries(dict(form, cols=st.sampled_from([5, 7]), n=st.integers(6, 14), m=st.sampled_from([1, 2, 11]), seed=seeds)), quick=120, thorough=2000, timeout=120,
     rule="rmtools_qufit up to the call of the sampler: the likelihood is built from the same data; non-trivial always")
def qufit(c):
    r = np.random.RandomState(c["seed"])
    f = np.linspace(1.0e9, 1.8e9, c["n"]) + 4e6 * r.rand(c["n"])
    p = 0.4 * np.exp(2j * (r.uniform(0, 3) + 20 * (299792458.0 / f) ** 2))
    I = 3 * (f / f[0]) ** -0.7
    cols = [f, I * p.real, I * p.imag, 0.02 + 0.03 * r.rand(c["n"]), 0.02 + 0.03 * r.rand(c["n"])]
    if c["cols"] == 7:
        cols[1:1], cols[4:4] = [I], [0.01 + 0.01 * r.rand(c["n"])]
    keep, got = bilby.run_sampler, []

    def stand_in(likelihood, priors, **k):
        bilby.core.utils.random.seed(3)
        out = []
        for i in range(5):
            likelihood.parameters.update(bilby.core.prior.PriorDict(dict(priors)).sample())
            out.append(likelihood.log_likelihood())
        got.append(out)
        raise Seen

    bilby.run_sampler = stand_in
    try:
        with tempfile.TemporaryDirectory() as t, small(False):
            for x in ("a", "b"):
                os.makedirs(os.path.join(t, x))
                q = os.path.join(t, x, "s.dat")
                np.savetxt(q, np.array(cols).T, fmt="%.17g")
                if x == "b":
                    retext(q, c, r)
                why = []
                call(do_QUfit_1D_mnest, [q, "-m", c["m"]] + (["-i"] if c["cols"] == 5 else []), why)
                check(len(got) == 1 + (x == "b"), lambda: "%s: the sampler is not called: %s" % (x, why))
    finally:
        bilby.run_sampler = keep
    a, b = got
    check(np.all(np.isfinite(a)) and np.allclose(a, b, rtol=1e-6), lambda: "likelihoods %s, of the rewritten table %s" % (a, b))
    return True
