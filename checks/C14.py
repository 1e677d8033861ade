"""C14: frequency and Faraday-depth axes are reconstructed exactly from headers.

Technique: property-based testing of header-to-axis conversion against the FITS linear-axis formula in extended precision, of the axis finders against the generated axis order, and of the saved frequency file against the header
Assurance: exploration of generated inputs; no proof
"""
import os
import sys
import tempfile

import numpy as np
from astropy.io import fits as pf
from hypothesis import strategies as st

from vlib.gen import seeds, wider
from vlib.harness import check, fail, sub

from RMtools_3D import make_freq_file
from RMtools_3D.do_RMclean_3D import find_axes as find_axes_clean
from RMtools_3D.do_RMsynth_3D import find_freq_axis, readFitsCube
from RMtools_3D.RMpeakfit_3D import find_axes as find_axes_peak
from RMutils.util_RM import fits_make_lin_axis

ASSUMPTIONS = ["linear axes described by CRVAL, CRPIX and CDELT (or a CD or PC matrix, for the frequency file)", "one spectral axis per header"]


@sub("linear", st.fixed_dictionaries({"naxis": st.integers(1, 4), "axis": st.integers(0, 5), "n": st.one_of(st.integers(1, 40), st.sampled_from([100, 1000, 4097])), "val": st.sampled_from([0.0, 1.4e9, 1.1e8, -500.0, 7.5e-3, 1e12]),
                                     "cd": st.sampled_from([1.0, -1.0, 1e6, -1e6, 2.5, 0.1, 1e3, 18518.5, -0.3333]), "pix": st.sampled_from([1.0, 0.0, 0.5, -3.25, 17.0, 200.75]), "dtype": st.sampled_from(["f4", "f8", "float32", "float64", None]), "npix": st.booleans(), "seed": seeds}),
     quick=4000, thorough=200000, rule="linear axes with any reference pixel, increment sign and length; non-trivial when the axis exists and has more than one pixel")
def linear(c):
    r = np.random.RandomState(c["seed"])
    h = pf.Header()
    h["NAXIS"] = c["naxis"]
    for i in range(c["naxis"]):
        h["NAXIS%d" % (i + 1)] = int(r.randint(1, 50))
        h["CRVAL%d" % (i + 1)], h["CRPIX%d" % (i + 1)], h["CDELT%d" % (i + 1)] = r.randn(), float(r.randint(9)), r.rand() + 0.1
    a = c["axis"]
    if a >= c["naxis"]:
        out = fits_make_lin_axis(h, axis=a)
        check(len(out) == 0, lambda: "axis %d of a %d-axis header gives %d values" % (a, c["naxis"], len(out)))
        return False
    k = str(a + 1)
    h["NAXIS" + k], h["CRVAL" + k], h["CRPIX" + k], h["CDELT" + k] = c["n"], c["val"], c["pix"], c["cd"]
    keep = h.copy()
    kw = {} if c["dtype"] is None else {"dtype": c["dtype"]}
    out = fits_make_lin_axis(h, axis=a, **kw)
    check(h.tostring() == keep.tostring(), "the header passed in was changed")
    check(len(out) == c["n"], lambda: "%d values for %d planes" % (len(out), c["n"]))
    check(out.dtype == np.dtype(c["dtype"] or "f4"), "data type %s" % out.dtype)
    L = np.longdouble
    want = L(c["val"]) + (np.arange(1, c["n"] + 1).astype(L) - L(c["pix"])) * L(c["cd"])
    eps = 2e-15 if out.dtype == np.float64 else 2.0**-23
    tol = eps * np.maximum(np.abs(want), 1e-300) + 4e-16 * (abs(c["val"]) + (abs(c["pix"]) + c["n"]) * abs(c["cd"]))
    check(np.all(np.abs(out.astype(L) - want) <= tol), lambda: "axis value off by up to %.3g increments" % float(np.max(np.abs(out.astype(L) - want)) / abs(c["cd"])))
    return c["n"] > 1


def cube_header(c, spell="FREQ"):
    r = np.random.RandomState(c["seed"])
    ax = list(c["lay"])
    n = {"x": c["nx"], "y": c["ny"], "f": c["nf"], "s": 1}
    h = pf.Header()
    h["SIMPLE"], h["BITPIX"], h["NAXIS"] = True, -32, len(ax)
    scale = {"Hz": 1.0, "kHz": 1e3, "MHz": 1e6, "GHz": 1e9}[c["unit"]]
    for i, a in enumerate(ax):
        k = str(i + 1)
        h["NAXIS" + k] = n[a]
    for i, a in enumerate(ax):
        k = str(i + 1)
        h["CTYPE" + k] = {"x": "RA---TAN", "y": "DEC--TAN", "f": spell, "s": "STOKES"}[a]
        h["CRPIX" + k] = c["pix"] if a == "f" else 2.0
        h["CRVAL" + k] = {"x": 200.5, "y": -20.25, "f": c["val"] / scale, "s": 1.0}[a]
        h["CDELT" + k] = {"x": -0.01, "y": 0.01, "f": c["cd"] / scale, "s": 1.0}[a]
        h["CUNIT" + k] = {"x": "deg", "y": "deg", "f": c["unit"], "s": ""}[a]
    return r, h, ax, n


hdr = {"lay": st.sampled_from(["xyf", "fxy", "xfy", "xysf", "xyfs", "fxys", "sfxy", "xsfy", "f", "sxyf"]), "nx": st.integers(1, 3), "ny": st.integers(1, 3), "nf": st.integers(1, 40),
       "val": st.sampled_from([1.4e9, 1.1e8, 888e6, 2.97e9]), "cd": st.sampled_from([1e6, -1e6, 18518.5, -3.3e6]), "pix": st.sampled_from([1.0, 0.0, 0.5, -3.25, 17.0, 40.75]), "unit": st.sampled_from(["Hz", "kHz", "MHz", "GHz"]), "seed": seeds}


def restyle(h, ax, style, r):
    """The same increments as a CD matrix, or as a PC matrix with other CDELT; the sky axes may be rotated."""
    rot = r.uniform(0, 360) if "x" in ax and r.rand() < 0.5 else 0.0
    M = np.diag([h["CDELT%d" % (i + 1)] for i in range(len(ax))])
    if rot:
        i, j = ax.index("x"), ax.index("y")
        co, si = np.cos(np.radians(rot)), np.sin(np.radians(rot))
        M[i, i], M[i, j], M[j, i], M[j, j] = -0.01 * co, -0.01 * si, -0.01 * si, 0.01 * co
    for i in range(len(ax)):
        s = 1.0
        if style == "cd":
            del h["CDELT%d" % (i + 1)]
        else:
            s = h["CDELT%d" % (i + 1)] = float(h["CDELT%d" % (i + 1)] * r.choice([1.0, 0.5, -1.0, 4.0]))
        for j in range(len(ax)):
            if M[i, j] != 0:
                h["%s%d_%d" % (style.upper(), i + 1, j + 1)] = M[i, j] / s


@sub("freqfile", st.fixed_dictionaries(dict(hdr, ext=st.booleans(), style=st.sampled_from(["cdelt", "cdelt", "cd", "pc"]))), quick=700, thorough=20000,
     rule="FITS cubes with the frequency axis anywhere and in any unit, the increment in CDELT or in a CD or PC matrix (of rotated sky axes): array and saved file against the header formula; non-trivial with more than one channel")
def freqfile(c):
    r, h, ax, n = cube_header(c)
    if c["style"] != "cdelt":
        restyle(h, ax, c["style"], r)
    with tempfile.TemporaryDirectory() as t:
        p, o = os.path.join(t, "c.fits"), os.path.join(t, "freqs.dat")
        pf.writeto(p, np.zeros([n[a] for a in reversed(ax)], "f4"), h)
        blob = open(p, "rb").read()
        f = np.asarray(make_freq_file.get_freq_array(p), float)
        want = c["val"] + (np.arange(1, c["nf"] + 1) - c["pix"]) * c["cd"]
        check(f.shape == want.shape, lambda: "%s frequencies for %d channels" % (f.shape, c["nf"]))
        check(np.all(np.abs(f - want) <= 1e-12 * np.abs(want)), lambda: "channel frequency off by up to %.3g Hz" % np.abs(f - want).max())
        argv = sys.argv
        sys.argv = ["rmtools_freqfile", p, o]
        try:
            make_freq_file.save_freq_file()
        finally:
            sys.argv = argv
        g = np.loadtxt(o, ndmin=1)
        check(g.shape == f.shape and np.all(np.abs(g - f) <= 1e-14 * np.abs(f)), "the saved file does not hold the channel frequencies")
        check(open(p, "rb").read() == blob, "the input file was modified")
    return c["nf"] > 1


@sub("find", st.fixed_dictionaries(dict(hdr, kind=st.sampled_from(["freq", "fdep"]), spell=st.integers(0, 5), miss=st.sampled_from(["no", "no", "type", "all"]))), quick=1000, thorough=30000,
     rule="spectral axis finders on every axis order and spelling, with the axis or all axis types missing; non-trivial when the axis is there but not last")
def find(c):
    sp = ["FREQ", "freq", "OBSFREQ", "Frequency", "FREQ-LSR", "Freq"][c["spell"]] if c["kind"] == "freq" else ["FDEP", "fdep", "FDEP", "Fdep", "FDEP", "FDEP"][c["spell"]]
    r, h, ax, n = cube_header(c, sp)
    pos = ax.index("f") + 1
    if c["miss"] == "type":
        h["CTYPE%d" % pos] = "LINEAR"
    if c["miss"] == "all":
        for i in range(len(ax)):
            del h["CTYPE%d" % (i + 1)]
    keep = h.tostring()
    if c["kind"] == "freq":
        got = find_freq_axis(h)
        want = pos if c["miss"] == "no" else 0
        check(got == want, lambda: "frequency axis reported as %s, it is %d (0 = absent) in %s" % (got, want, ax))
    else:
        for fn in (find_axes_clean, find_axes_peak):
            nd, got = fn(h)
            want = pos if c["miss"] == "no" else len(ax)
            check(nd == len(ax) and got == want, lambda: "%s: Faraday depth axis reported as %s of %s, it is %d" % (fn.__module__, got, nd, want))
    check(h.tostring() == keep, "the header passed in was changed")
    if c["miss"] != "no" and c["kind"] == "freq":
        with tempfile.TemporaryDirectory() as t:
            p = os.path.join(t, "c.fits")
            pf.writeto(p, np.zeros([n[a] for a in reversed(ax)], "f4"), h)
            try:
                f = make_freq_file.get_freq_array(p)
            except Exception:  # noqa: BLE001
                pass
            else:
                fail("frequencies %s invented for a cube without a frequency axis" % f[:3])
    return c["miss"] == "no" and pos != len(ax)


@sub("readcube", st.fixed_dictionaries(dict(hdr, nf=st.integers(2, 5), nx=st.integers(2, 4), ny=st.integers(2, 4), typed=st.booleans())), quick=400, thorough=10000,
     rule="cube reader on every axis order: frequency first, sky axes in order, no data lost; non-trivial when the frequency axis is not last in FITS order")
def readcube(c):
    r, h, ax, n = cube_header(c)
    if "x" not in ax or ax[-1] == "y" and not c["typed"]:
        return False
    if not c["typed"] and ax[-1] != "f":
        return False
    if not c["typed"]:
        for i in range(len(ax)):
            del h["CTYPE%d" % (i + 1)]
    d = r.randn(*[n[a] for a in reversed(ax)]).astype("f4")
    with tempfile.TemporaryDirectory() as t:
        p = os.path.join(t, "c.fits")
        pf.writeto(p, d, h)
        g, e = readFitsCube(p, False)
        rev = list(reversed(ax))
        want = np.transpose(d, [rev.index("f")] + [i for i, a in enumerate(rev) if a != "f"])
        want = want.reshape([n["f"]] + [n[a] for a in rev if a in "xy"])
        check(e.shape == want.shape and np.array_equal(e, want), lambda: "axes %s read with shape %s" % (ax, e.shape))
        check(all(g[k] == h[k] for k in h if not k.startswith(("SIMPLE", "EXTEND"))), "header changed on reading")
    return ax[-1] != "f"


# the same at the size of survey data
sub("freqfile_large", wider(st.fixed_dictionaries(dict(hdr, ext=st.booleans(), style=st.sampled_from(["cdelt", "cdelt", "cd", "pc"]))), nf=st.integers(50, 2000)), quick=72, thorough=300, min_shard=2,
    rule="as freqfile, with up to 2000 channels; non-trivial as there")(freqfile)
sub("readcube_large", wider(st.fixed_dictionaries(dict(hdr, typed=st.booleans())), nf=st.integers(30, 200), nx=st.integers(5, 20), ny=st.integers(5, 20)), quick=36, thorough=300, min_shard=2,
    rule="as readcube, with larger cubes; non-trivial as there")(readcube)
