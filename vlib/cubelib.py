"""Generated cubes in every axis order, and comparisons of FITS products with arrays in memory."""
import numpy as np
from astropy.io import fits as pf

from vlib.harness import check

from RMutils.util_RM import fits_make_lin_axis


def build(c):
    r = np.random.RandomState(c["seed"])
    if c["lay"][0] == "s":  # with a leading Stokes axis, a sky axis of length 1 cannot be told from it
        c = dict(c, nx=max(2, c["nx"]), ny=max(2, c["ny"]))
    ax = list(c["lay"])
    n = {"x": c["nx"], "y": c["ny"], "f": c["nf"], "s": 1}
    if c["half"] > 100:
        n["x"], n["y"] = (1, 2) if c["lay"][0] != "s" else (2, 2)
        c = dict(c, nx=n["x"], ny=n["y"])
    h = pf.Header()
    h["SIMPLE"], h["BITPIX"], h["NAXIS"] = True, -32, len(ax)
    for i, a in enumerate(ax):
        h["NAXIS%d" % (i + 1)] = n[a]
    for i, a in enumerate(ax):
        k = str(i + 1)
        h["CTYPE" + k] = {"x": "RA---SIN", "y": "DEC--SIN", "f": "FREQ", "s": "STOKES"}[a]
        h["CRPIX" + k] = {"x": 3.5, "y": -2.0, "f": 1.0, "s": 1.0}[a]
        h["CRVAL" + k] = {"x": 200.5, "y": -20.25, "f": 1.1e9, "s": 2.0}[a]
        h["CDELT" + k] = {"x": -0.01, "y": 0.012, "f": 1e7, "s": 1.0}[a]
        h["CUNIT" + k] = {"x": "deg", "y": "deg", "f": "Hz", "s": ""}[a]
    if "s" in ax:  # the same Stokes parameter, referred to another pixel
        k, x = str(ax.index("s") + 1), c["seed"] % 3
        h["CRPIX" + k], h["CRVAL" + k] = 1.0 - x, 2.0 - x
    if c["unit"]:
        h["BUNIT"] = "Jy/beam"
    if c["rot"]:
        i, j = ax.index("x") + 1, ax.index("y") + 1
        for a, b, v in ((i, i, 0.8), (i, j, -0.6), (j, i, 0.6), (j, j, 0.8)):
            h["PC%d_%d" % (a, b)] = v
    if c.get("range"):
        h["DATAMAX"], h["DATAMIN"] = 73.5, -73.5
    h["BMAJ"], h["BMIN"], h["BPA"], h["OBJECT"] = 0.02, 0.01, 30.0, "field 7"
    # the readers accept cubes without axis types, taking the last axis as frequency
    if c["lay"] == "xyf" and c["ct"] != "all":
        for i in (1, 2, 3) if c["ct"] != "nosky" else (1, 2):
            for k in ("CTYPE",) if c["ct"] != "nowcs" else ("CTYPE", "CRPIX", "CRVAL", "CDELT", "CUNIT"):
                del h[k + str(i)]
        for k in list(h["PC*"]) if c["ct"] == "nowcs" else []:
            del h[k]
    sh = [n[a] for a in reversed(ax)]
    Q, U = r.randn(*sh).astype("f4"), r.randn(*sh).astype("f4")
    if c["nan"] == "vox":
        Q[r.rand(*sh) < 0.1] = np.nan
    if c["nan"] == "pix" and n["x"] * n["y"] > 1:
        m = np.moveaxis(Q, len(ax) - 1 - ax.index("f"), 0).reshape(n["f"], -1)
        view = np.moveaxis(Q, len(ax) - 1 - ax.index("f"), 0)
        idx = np.unravel_index(r.randint(m.shape[1]), view.shape[1:])
        view[(slice(None),) + idx] = np.nan
    return c, r, ax, n, h, Q, U


def place(cube, ax, n):
    """(plane, sky...) array of the tool -> array in the order of the file."""
    rest = [n[a] for a in reversed(ax) if a != "f"]
    return np.moveaxis(np.reshape(cube, [-1] + rest), 0, len(ax) - 1 - ax.index("f"))


def same(got, want, what, tol=0.0):
    check(got.shape == want.shape, lambda: "%s: shape %s in the file, %s expected" % (what, got.shape, want.shape))
    a, b = np.asarray(got, float), np.asarray(want, float)
    ok = (a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= tol * np.nanmax(np.abs(np.r_[b.ravel(), 1e-300])))
    check(ok.all(), lambda: "%s: values in the file differ by up to %.3g" % (what, np.nanmax(np.abs(a - b))))


def skykeys(h, g, ax, what, planes=True):
    for i, a in enumerate(ax):
        if a in "xy":
            for k in ("CTYPE", "CRPIX", "CRVAL", "CDELT", "CUNIT", "NAXIS"):
                k += str(i + 1)
                check(g.get(k) == h.get(k) or k.startswith(("CTYPE", "CUNIT")) and not g.get(k) and not h.get(k), lambda: "%s: %s is %r, in the input %r" % (what, k, g.get(k), h.get(k)))
    for k in ["PC%d_%d" % (i, j) for i in range(1, 5) for j in range(1, 5)] + ["BMAJ", "BMIN", "BPA", "OBJECT"]:
        check(g.get(k) == h.get(k), lambda: "%s: %s is %r, in the input %r" % (what, k, g.get(k), h.get(k)))


def skyshape(ax, n):
    return [n[a] for a in reversed(ax) if a in "xy"]


def mapkeys(h, g, ax, what):
    """The header of a two-dimensional map describes the sky axes of the cube, in the order of the file."""
    sky = [i for i, a in enumerate(ax) if a in "xy"]
    check(g["NAXIS"] == 2, "%s: not two-dimensional" % what)
    for new, old in enumerate(sky):
        for k in ("CTYPE", "CRPIX", "CRVAL", "CDELT", "CUNIT", "NAXIS"):
            a, b = g.get("%s%d" % (k, new + 1)), h.get("%s%d" % (k, old + 1))
            check(a == b or not a and not b and k in ("CTYPE", "CUNIT"), lambda: "%s: %s%d is %r, the cube has %r" % (what, k, new + 1, a, b))
        for m, o in enumerate(sky):
            a, b = g.get("PC%d_%d" % (new + 1, m + 1)), h.get("PC%d_%d" % (old + 1, o + 1))
            check(a == b, lambda: "%s: PC%d_%d is %r, the cube has %r" % (what, new + 1, m + 1, a, b))
    for k in g:
        check(k[-1:] not in ("3", "4") or k[:-1] not in ("CTYPE", "CRPIX", "CRVAL", "CDELT", "CUNIT", "NAXIS"), lambda: "%s: %s left over" % (what, k))
    for k in ("BMAJ", "BMIN", "BPA", "OBJECT"):
        check(g.get(k) == h.get(k), lambda: "%s: %s is %r, in the input %r" % (what, k, g.get(k), h.get(k)))


def fdaxis(g, ax, phi, what, slack=1e-3):
    p = ax.index("f") + 1
    check("FDEP" in g["CTYPE%d" % p] and g["CUNIT%d" % p] == "rad/m^2", "%s: Faraday depth axis not labelled" % what)
    check(g["NAXIS%d" % p] == len(phi), "%s: number of planes" % what)
    x = g["CRVAL%d" % p] + (np.arange(1, len(phi) + 1) - g["CRPIX%d" % p]) * g["CDELT%d" % p]
    d = abs(float(phi[-1]) - float(phi[0])) / (len(phi) - 1)
    check(np.abs(x - phi.astype(float)).max() <= slack * d + 3e-7 * np.abs(phi).max(), lambda: "%s: the depth axis of the file is off by up to %.3g planes" % (what, np.abs(x - phi).max() / d))
    y = fits_make_lin_axis(g, p - 1, dtype="f8")
    check(len(y) == len(phi) and np.abs(y - phi).max() <= slack * d + 3e-7 * np.abs(phi).max(), "%s: fits_make_lin_axis" % what)


def quiet(*a):
    pass
