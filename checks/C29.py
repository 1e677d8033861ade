"""C29: FITS helpers keep the right axes, pixels and coordinates.

Technique: property-based testing over generated FITS headers and files; the oracle is an independent evaluation of the parent's coordinates (astropy WCS of the original header) and of the pixels found there, and a differential comparison of the FITS spectrum tool with the library on the spectrum of that pixel
Assurance: exploration of generated inputs; no proof
"""
import contextlib
import io
import json
import math
import os
import sys
import tempfile
import warnings

import numpy as np
from astropy.io import fits as pf
from astropy.wcs import WCS
from hypothesis import strategies as st
from matplotlib.figure import Figure

from vlib.gen import seeds
from vlib.harness import check, skip, sub

from RMtools_1D import do_RMsynth_1D as S1
from RMtools_1D import do_RMsynth_1D_fromFITS as FF
from RMutils import util_FITS as U

ASSUMPTIONS = ["images small compared with the sphere and away from the poles", "coordinate systems astropy itself can interpret"]


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


def nolog(*a, **k):
    pass


head_case = {"nd": st.integers(2, 5), "nx": st.integers(2, 40), "ny": st.integers(2, 40), "nz": st.integers(2, 12), "proj": st.sampled_from(["RA-SIN", "RA-TAN", "GAL-CAR", "GAL-TAN", "LIN"]), "x0": st.sampled_from([0.0, 0.001, 359.999, 90.0, 181.0, 275.5]),
             "y0": st.sampled_from([-60.0, -30.0, 0.0, 20.0, 65.0]), "form": st.sampled_from(["CDELT", "CD", "PC", "PCold", "CROTA"]), "rot": st.sampled_from([0.0, 0.0, 30.0, -75.0]), "flip": st.booleans(), "sq": st.booleans(), "cunit": st.booleans(),
             "third": st.sampled_from(["FREQ", "FDEP", "STOKES"]), "seed": seeds}


def header(c, r):
    """A FITS header with nd axes: sky, a third axis, then axes of length one."""
    n = [c["nx"], c["ny"], c["nz"], 1, 1][: c["nd"]]
    h = pf.Header()
    h["SIMPLE"], h["BITPIX"], h["NAXIS"] = True, -32, len(n)
    for i, v in enumerate(n):
        h["NAXIS%d" % (i + 1)] = v
    s = 10 ** r.uniform(-4, -2)
    dx = -s if not c["flip"] else s
    dy = s if c["sq"] else s * r.uniform(0.4, 2.5)
    ct = {"RA-SIN": ("RA---SIN", "DEC--SIN"), "RA-TAN": ("RA---TAN", "DEC--TAN"), "GAL-CAR": ("GLON-CAR", "GLAT-CAR"), "GAL-TAN": ("GLON-TAN", "GLAT-TAN"), "LIN": ("OFFX", "OFFY")}[c["proj"]]
    y0 = 0.0 if c["proj"] == "GAL-CAR" else c["y0"]
    z = {"FREQ": ("FREQ", 1.4e9, 1e6 * r.uniform(0.5, 9)), "FDEP": ("FDEP", r.uniform(-500, 500), r.uniform(0.5, 9)), "STOKES": ("STOKES", 1.0, 1.0)}[c["third"]]
    f = {"FREQ": ("STOKES", 1.0, 1.0), "FDEP": ("STOKES", 1.0, 1.0), "STOKES": ("FREQ", 1.4e9, 1e6)}[c["third"]]
    d, v, p = [dx, dy, z[2], f[2], 1.0], [c["x0"], y0, z[1], f[1], 1.0], [c["nx"] / 2 + r.uniform(-5, 5), c["ny"] / 2 + r.uniform(-5, 5), r.uniform(-2, c["nz"]), 1.0, 1.0]
    t = [ct[0], ct[1], z[0], f[0], "BEAM"]
    for i in range(c["nd"]):
        k = str(i + 1)
        h["CTYPE" + k], h["CRVAL" + k], h["CRPIX" + k] = t[i], v[i], p[i]
        if c["form"] != "CD":
            h["CDELT" + k] = d[i]
        if c["cunit"] and t[i] != "STOKES":
            h["CUNIT" + k] = {"FREQ": "Hz", "FDEP": "rad/m2", "BEAM": ""}.get(t[i], "deg")
    a = math.radians(c["rot"]) if c["form"] != "CDELT" else 0.0
    m = np.array([[math.cos(a), -math.sin(a)], [math.sin(a), math.cos(a)]])
    if c["form"] == "CD":
        m = np.diag([dx, dy]) @ m
        for i in range(c["nd"]):
            for j in range(c["nd"]):
                x = m[i, j] if i < 2 and j < 2 else (d[i] if i == j else 0.0)
                if x or (i < 2 and j < 2):
                    h["CD%d_%d" % (i + 1, j + 1)] = x
    if c["form"] in ("PC", "PCold"):
        for i in range(c["nd"]):
            for j in range(c["nd"]):
                h[("PC%d_%d" if c["form"] == "PC" else "PC%03d%03d") % (i + 1, j + 1)] = m[i, j] if i < 2 and j < 2 else float(i == j)
    if c["form"] == "CROTA":
        h["CROTA2"] = c["rot"]
        if c["nd"] > 2:
            h["CROTA3"] = 0.0
    h["BUNIT"] = "Jy/beam"
    return h, d


def rotated(c):
    return c["form"] != "CDELT" and c["rot"] != 0.0


def cards(h):
    return [(k, str(v)) for k, v in h.items()]


@sub("strip", st.fixed_dictionaries(dict(head_case, mind=st.integers(2, 3), force=st.sampled_from([0, 4, 5]), what=st.sampled_from(["both", "data", "header"]), short=st.booleans())), quick=900, thorough=25000,
     rule="headers of 2 to 5 axes in every form of the coordinate matrix, with and without data; data and header must agree, sky coordinates be unchanged, inputs untouched; non-trivial when axes are removed")
def strip(c):
    r = np.random.RandomState(c["seed"])
    h, _ = header(c, r)
    if c["mind"] > c["nd"]:
        skip()
    a = r.randn(*[h["NAXIS%d" % i] for i in range(c["nd"], 0, -1)]).astype("f4")
    full = h.copy()
    if c["short"] and c["force"] >= c["nd"] and c["nd"] > c["mind"]:
        # the data already lost their extra axes, the header kept their coordinates
        for i in range(c["mind"] + 1, c["nd"] + 1):
            del h["NAXIS%d" % i]
        h["NAXIS"] = c["mind"]
        a = a[(0,) * (c["nd"] - c["mind"])].copy()
    ka, kh = a.copy(), cards(h)
    with quiet():
        out = U.strip_fits_dims(a if c["what"] != "header" else None, h if c["what"] != "data" else None, minDim=c["mind"], forceCheckDims=c["force"])
    check(cards(h) == kh, "the header passed in was changed")
    x, g = (out if c["what"] == "both" else (out, None) if c["what"] == "data" else (None, out))
    if x is not None:
        e = a[(0,) * (a.ndim - c["mind"])]
        check(np.shape(x) == e.shape and np.array_equal(x, e), "wrong planes kept")
        x[...] = 7
        check(np.array_equal(a, ka), "changing the stripped data changes the original")
        if g is not None:
            check(g["NAXIS"] == x.ndim and all(g["NAXIS%d" % (i + 1)] == x.shape[-1 - i] for i in range(x.ndim)), "header and data disagree in shape")
    if g is not None:
        check(g["NAXIS"] == c["mind"] and g["BUNIT"] == "Jy/beam", "axes left in the header: %s" % g["NAXIS"])
        left = [k for k in g if any(k == p + str(i) for i in range(c["mind"] + 1, c["nd"] + 1) for p in ("NAXIS", "CRVAL", "CRPIX", "CDELT", "CTYPE", "CUNIT", "CROTA"))]
        if h["NAXIS"] == c["nd"] or c["force"]:
            check(not left, lambda: "cards of removed axes left: %s" % left)
        with quiet():
            w0, w1 = WCS(full), WCS(g)
            check(w1.naxis == c["mind"], lambda: "the stripped header describes %d axes" % w1.naxis)
            px = r.uniform(1, 30, (5, c["mind"]))
            full_px = np.hstack([px, np.ones((5, c["nd"] - c["mind"]))])
            e = w0.wcs_pix2world(full_px, 1)[:, : c["mind"]]
            got = w1.wcs_pix2world(px, 1)
        dd = np.abs(got - e)
        dd[:, 0] = np.minimum(dd[:, 0], 360 - dd[:, 0])
        check(np.all(dd <= 1e-9 * (1 + np.abs(e))), lambda: "coordinates moved by %s" % dd.max(0))
    return c["nd"] > c["mind"]


def sky_ok(c):
    return c["proj"] != "LIN"


def wrap(x):
    return (x + 180.0) % 360.0 - 180.0


@sub("wcsdict", st.fixed_dictionaries(dict(head_case, wrap=st.booleans())), quick=900, thorough=25000,
     rule="coordinate summaries of 2 to 5 dimensional headers, images across right ascension zero included: reference values, centre, bounds, pixel steps with their sign, type of coordinates; non-trivial for sky coordinates")
def wcsdict(c):
    r = np.random.RandomState(c["seed"])
    h, d = header(c, r)
    keep = cards(h)
    with quiet():
        w = U.mkWCSDict(h, wrapX180=c["wrap"])
        W = WCS(h)
    check(cards(h) == keep, "the header passed in was changed")
    for k, i in (("x", 1), ("y", 2)) + ((("z", 3),) if c["nd"] > 2 else ()):
        check(w[k + "rpix"] == h["CRPIX%d" % i] and w[k + "rval"] == h["CRVAL%d" % i] and w[k + "naxis"] == h["NAXIS%d" % i], "reference pixel, value or length of axis %d" % i)
    nd = c["nd"]
    one = [1.0] * (nd - 3 if nd > 3 else 0)

    def world(x, y, z=1.0):
        with quiet():
            return W.wcs_pix2world([[x, y] + ([z] + one if nd > 2 else [])], 1)[0]

    cx, cy, cz = c["nx"] / 2 + 0.5, c["ny"] / 2 + 0.5, c["nz"] / 2 + 0.5
    e = world(cx, cy, cz)
    sky = sky_ok(c)
    dx = wrap(w["xcent"] - e[0]) if sky or c["wrap"] else w["xcent"] - e[0]
    check(abs(dx) < 1e-8 and abs(w["ycent"] - e[1]) < 1e-8, lambda: "centre %r %r, expected %r" % (w["xcent"], w["ycent"], e[:2]))
    if c["wrap"] and sky:
        check(-180 - 1e-9 <= w["xcent"] <= 180 + 1e-9, "centre not wrapped to +-180")
    check(w["coord_type"] == {"R": "EQU", "G": "GAL", "L": ""}[c["proj"][0]], lambda: "coordinate type %r" % w["coord_type"])
    if nd > 2:
        z1, z2 = world(cx, cy, 1.0)[2], world(cx, cy, float(c["nz"]))[2]
        t = 1e-9 * max(abs(z1), abs(z2), 1)
        check(abs(w["zcent"] - e[2]) <= t and abs(w["zmin"] - min(z1, z2)) <= t and abs(w["zmax"] - max(z1, z2)) <= t, "centre or bounds of the third axis")
        check(abs(w["zdelt"] - d[2]) <= 1e-6 * abs(d[2]), lambda: "step of the third axis %r, expected %r" % (w["zdelt"], d[2]))
    # bounds: the corners (pixel centres) of the image
    P = np.array([world(x, y)[:2] for x, y in ((1, 1), (1, c["ny"]), (c["nx"], 1), (c["nx"], c["ny"]))])
    check(abs(w["ymin"] - P[:, 1].min()) < 1e-8 and abs(w["ymax"] - P[:, 1].max()) < 1e-8, "bounds of the second axis")
    if sky:
        if c["wrap"]:
            q = np.where(P[:, 0] > 180, P[:, 0] - 360, P[:, 0])
            across = np.ptp(q) > 180
        else:
            q = P[:, 0]
            across = np.ptp(q) > 180
        if not across:
            check(abs(w["xmin"] - q.min()) < 1e-8 and abs(w["xmax"] - q.max()) < 1e-8, lambda: "bounds of the first axis %r to %r, expected %r to %r" % (w["xmin"], w["xmax"], q.min(), q.max()))
    if not rotated(c):
        t = 2e-3
        ex = d[0] if sky else d[0] * math.cos(math.radians(h["CRVAL2"]))
        check(abs(w["xdelt"] - ex) <= t * abs(d[0]), lambda: "step of the first axis %r, expected %r" % (w["xdelt"], ex))
        check(abs(w["ydelt"] - d[1]) <= t * abs(d[1]), lambda: "step of the second axis %r, expected %r" % (w["ydelt"], d[1]))
        if c["sq"] and sky:
            check(abs(w["pixscale"] - abs(d[1])) <= t * abs(d[1]), lambda: "pixel scale %r, expected %r" % (w["pixscale"], abs(d[1])))
    return sky


sub_case = dict(head_case, nd=st.integers(2, 4), fx=st.floats(-0.6, 1.6), fy=st.floats(-0.6, 1.6), rad=st.sampled_from([0.05, 0.3, 1.0, 3.0, 7.3, 60.0]), nan=st.sampled_from(["no", "some", "all"]), zr=st.sampled_from(["none", "none", "in", "wide", "low"]), gone=st.booleans(), third=st.sampled_from(["FREQ", "FDEP"]))


@sub("subimage", st.fixed_dictionaries(sub_case), quick=700, thorough=20000, timeout=60,
     rule="cut-outs of maps and cubes around positions inside, at the edges of and outside the image, across right ascension zero, with channel limits: every pixel keeps its sky position and value, everything within the radius is included, nothing else beyond one pixel; non-trivial when the cut-out is smaller than the image")
def subimage(c):
    r = np.random.RandomState(c["seed"])
    if c["proj"] == "LIN":
        skip()
    h, d = header(c, r)
    if rotated(c):
        skip()  # the box is aligned with the pixels: radius along the axes only
    shape = [h["NAXIS%d" % i] for i in range(c["nd"], 0, -1)]
    a = r.randn(*shape).astype("f4")
    if c["nan"] == "some":
        a[r.rand(*shape) < 0.3] = np.nan
    if c["nan"] == "all":
        a[...] = np.nan
    X, Y = round(c["fx"] * (c["nx"] - 1), 3), round(c["fy"] * (c["ny"] - 1), 3)
    with quiet():
        W2 = WCS(h).celestial
        x, y = (float(v) for v in W2.wcs_pix2world([[X, Y]], 0)[0])
    if not (np.isfinite(x) and np.isfinite(y)):
        skip()
    if c["proj"] == "GAL-CAR" and abs(wrap(x - c["x0"])) > 170:
        skip()
    if c["proj"].endswith("CAR"):
        x = c["x0"] + wrap(x - c["x0"])
    s = abs(d[1])
    rad = c["rad"] * s
    kw = {}
    z0 = z1 = None
    if c["zr"] != "none":
        if c["nd"] < 3:
            skip()
        zw = h["CRVAL3"] + (np.arange(c["nz"]) + 1 - h["CRPIX3"]) * h["CDELT3"] if "CDELT3" in h else h["CRVAL3"] + (np.arange(c["nz"]) + 1 - h["CRPIX3"]) * d[2]
        lo = {"in": r.uniform(0, c["nz"] - 1), "wide": -3.3, "low": 0.0 - 0.3}[c["zr"]]
        hi = {"in": lo + r.uniform(1.01, c["nz"]), "wide": c["nz"] + 2.7, "low": r.uniform(1.2, c["nz"])}[c["zr"]]
        if min(abs(lo - round(lo)), abs(hi - round(hi))) < 1e-3:
            skip()
        kw = dict(zMin_w=zw[0] + lo * d[2], zMax_w=zw[0] + hi * d[2], do3D=True)
        z0, z1 = max(math.ceil(lo), 0), min(math.floor(hi), c["nz"] - 1)
    with tempfile.TemporaryDirectory() as t:
        p = os.path.join(t, "x.fits")
        with quiet():
            pf.PrimaryHDU(a, h).writeto(p)
            if c["gone"] and c["seed"] % 7 == 0:
                check(U.get_subfits(os.path.join(t, "none.fits"), x, y, rad) == (None, None), "a file that does not exist")
            D, g = U.get_subfits(p, x, y, rad, **kw)
            D = None if D is None else np.array(D)
    # pixel radius of the box along each axis
    rx, ry = rad / abs(d[0]), rad / abs(d[1])
    xi, yi = np.arange(c["nx"]), np.arange(c["ny"])
    tol = 0.02 * (1 + max(rx, ry)) if c["proj"] != "GAL-CAR" else 0.01
    must_x, must_y = xi[np.abs(xi - X) <= rx - tol], yi[np.abs(yi - Y) <= ry - tol]
    may_x, may_y = xi[np.abs(xi - X) <= rx + 1.5 + tol], yi[np.abs(yi - Y) <= ry + 1.5 + tol]
    if not len(may_x) or not len(may_y):
        check(D is None or D.size == 0, lambda: "a cut-out of shape %s for a position off the image" % (np.shape(D),))
        return False
    if D is None or D.size == 0:
        check(not len(must_x) or not len(must_y), "no cut-out for a position on the image")
        return False
    check(D.ndim == c["nd"], "number of axes changed")
    check(all(g["NAXIS%d" % (i + 1)] == D.shape[-1 - i] for i in range(D.ndim)), lambda: "header says %s, data have shape %s" % ([g["NAXIS%d" % (i + 1)] for i in range(D.ndim)], D.shape))
    with quiet():
        w0, w1 = WCS(h), WCS(g)
        k = np.argwhere(np.ones(D.shape, bool))[:, ::-1].astype(float)
        if len(k) > 400:
            k = k[r.choice(len(k), 400, replace=False)]
        back = w0.wcs_world2pix(w1.wcs_pix2world(k, 0), 0)
    n = np.round(back).astype(int)
    check(np.abs(back - n).max() < 1e-3, "pixel centres of the cut-out do not fall on pixel centres of the image")
    ok = np.all((n >= 0) & (n < np.array(shape[::-1])), axis=1)
    check(ok.all(), "the cut-out extends beyond the image")
    for q, m in zip(k.astype(int), n):
        u, v = D[tuple(q[::-1])], a[tuple(m[::-1])]
        check(u == v or (np.isnan(u) and np.isnan(v)), lambda: "pixel %s of the cut-out is not pixel %s of the image, where its coordinates are" % (q, m))
    # extent
    with quiet():
        c0 = w0.wcs_world2pix(w1.wcs_pix2world([[0.0] * c["nd"]], 0), 0)[0]
    gx, gy = int(round(c0[0])) + np.arange(D.shape[-1]), int(round(c0[1])) + np.arange(D.shape[-2])
    check(set(must_x) <= set(gx) and set(must_y) <= set(gy), lambda: "pixels within the radius are missing (columns %s to %s, rows %s to %s around %g, %g, radius %g pixels)" % (gx[0], gx[-1], gy[0], gy[-1], X, Y, rx))
    check(set(gx) <= set(may_x) and set(gy) <= set(may_y), lambda: "pixels more than a pixel beyond the radius (columns %s to %s, rows %s to %s around %g, %g, radius %g pixels)" % (gx[0], gx[-1], gy[0], gy[-1], X, Y, rx))
    if c["nd"] > 2:
        gz = int(round(c0[2])) + np.arange(D.shape[-3])
        e = (0, c["nz"] - 1) if z0 is None else (z0, z1)
        check((gz[0], gz[-1]) == e, lambda: "channels %d to %d, expected %d to %d" % (gz[0], gz[-1], e[0], e[1]))
    if c["nan"] != "all":
        if np.isfinite(D).any():
            check(abs(g["DATAMIN"] - np.nanmin(D)) < 1e-6 and abs(g["DATAMAX"] - np.nanmax(D)) < 1e-6, "data limits in the header")
    return D.shape[-1] < c["nx"] or D.shape[-2] < c["ny"]


@sub("simple", st.fixed_dictionaries({"nx": st.integers(1, 40), "ny": st.integers(1, 40), "nz": st.integers(1, 20), "st": st.sampled_from("IQUV"), "sys": st.sampled_from(["EQU", "GAL"]), "x": st.sampled_from([0.0, 90.0, 200.0, 359.9]), "y": st.sampled_from([-60.0, 0.0, 45.0]), "seed": seeds, "hist": st.booleans(), "some": st.booleans()}), quick=500, thorough=10000,
     rule="created images: centre, scale, beam, frequencies, Stokes; beams read back from cards or AIPS history, and their area; non-trivial always")
def simple(c):
    r = np.random.RandomState(c["seed"])
    f0, df, s = r.uniform(1e8, 5e9), 10 ** r.uniform(3, 8), 10 ** r.uniform(-5, -2)
    bmin, bmaj, pa = sorted(10 ** r.uniform(-4, -2, 2)) + [r.uniform(-90, 90)]
    y = 0.0 if c["sys"] == "GAL" else c["y"]
    with quiet():
        u = U.create_simple_fits_hdu((1, c["nz"], c["ny"], c["nx"]), freq_Hz=f0, dFreq_Hz=df, xCent_deg=c["x"], yCent_deg=y, beamMinFWHM_deg=bmin, beamMajFWHM_deg=bmaj, beamPA_deg=pa, pixScale_deg=s, stokes=c["st"], system=c["sys"])
    h = u.header
    check(u.data.shape == (1, c["nz"], c["ny"], c["nx"]) and u.data.dtype == np.dtype("f4") and not u.data.any(), "blank data of the requested shape")
    with tempfile.TemporaryDirectory() as t, quiet():
        p = os.path.join(t, "a.fits")
        u.writeto(p)
        h = pf.getheader(p)
        W = WCS(h)
        cen = W.wcs_pix2world([[(c["nx"] - 1) / 2, (c["ny"] - 1) / 2, 0, 0]], 0)[0]
        z = W.wcs_pix2world([[0, 0, k, 0] for k in range(c["nz"])], 0)[:, 2]
        q = W.celestial.wcs_pix2world([[h["CRPIX1"] - 0.5, h["CRPIX2"]], [h["CRPIX1"] + 0.5, h["CRPIX2"]], [h["CRPIX1"], h["CRPIX2"] - 0.5], [h["CRPIX1"], h["CRPIX2"] + 0.5]], 1)
    check(abs(wrap(cen[0] - c["x"])) < 1e-8 and abs(cen[1] - y) < 1e-8, lambda: "centre at %r" % (cen[:2],))
    check(abs(cen[3] - " IQUV".index(c["st"])) < 1e-9, "Stokes parameter")
    check(np.abs(z - (f0 + df * np.arange(c["nz"]))).max() <= 1e-9 * z.max(), "frequencies")
    check(abs(abs(wrap(q[1, 0] - q[0, 0])) * math.cos(math.radians(y)) - s) <= 1e-4 * s and abs(abs(q[3, 1] - q[2, 1]) - s) <= 1e-4 * s, "pixel scale")
    check(W.wcs.lngtyp == ("GLON" if c["sys"] == "GAL" else "RA"), "coordinate system")
    check(np.allclose((h["BMAJ"], h["BMIN"], h["BPA"]), (bmaj, bmin, pa), rtol=1e-12), "beam cards")
    check(np.allclose(U.get_beam_from_header(h), (bmaj, bmin, pa), rtol=1e-12), "beam read back")
    a = U.get_beam_area(bmaj, bmin, s)
    e = math.pi * bmaj * bmin / (4 * math.log(2)) / s ** 2
    check(abs(a - e) <= 1e-9 * e, lambda: "beam area %r pixels, expected %r" % (a, e))
    b = pf.Header()
    if c["some"]:
        b["BPA"] = 3.0
    b["HISTORY"] = "something else"
    if c["hist"]:
        b["HISTORY"] = "AIPS   CLEAN BMAJ=  9.9000E-03 BMIN=  8.8000E-03 BPA=  10.00"
        b["HISTORY"] = "AIPS   CLEAN BMAJ=  %.4E BMIN=  %.4E BPA=%7.2f" % (bmaj, bmin, abs(pa))
        b["HISTORY"] = "more"
    g = U.get_beam_from_header(b)
    if c["hist"]:
        check(None not in g[:2] and np.allclose(g[:2], (bmaj, bmin), rtol=1e-3) and abs(g[2] - abs(pa)) < 0.01, lambda: "beam in the AIPS history read as %r" % (g,))
    else:
        check(g == (None, None, 3.0 if c["some"] else None), lambda: "no beam in the header, got %r" % (g,))
    return True


fits_case = {"nx": st.integers(1, 6), "ny": st.integers(1, 6), "nz": st.integers(8, 24), "lay": st.sampled_from(["xyf", "xyf", "xyf", "xyfs", "xysf"]), "mode": st.sampled_from(["pix", "pix", "sky", "default", "out", "skyout"]), "px": seeds, "I": st.sampled_from(["no", "file", "ignored"]), "zero": st.sampled_from(["no", "Q", "U", "both"]), "nan": st.booleans(), "bits": st.booleans(), "sr": st.booleans(), "ord": st.sampled_from([0, 1, 2, 3]), "wt": st.sampled_from(["variance", "uniform"]), "ns": st.sampled_from([None, 4, 6.5]), "fit": st.booleans(), "unit": st.sampled_from(["none", "head", "flag"]), "seed": seeds}


@sub("spectrum", st.fixed_dictionaries(fits_case), quick=150, thorough=4000, timeout=120,
     rule="spectra taken from FITS cubes at a pixel, a sky position or by default, with blanks, empty Stokes parameters, Stokes I files and degenerate axes: saved arrays equal the library on that pixel's spectrum; positions off the image refused; non-trivial with more than one pixel")
def spectrum(c):
    r = np.random.RandomState(c["seed"])
    nx, ny, n = c["nx"], c["ny"], c["nz"]
    f0, df = r.choice([1e9, 1.4e9]), 10e6 * r.uniform(0.5, 2)
    f = f0 + df * np.arange(n)
    l2 = (299792458.0 / f) ** 2
    I = (2 + r.rand(ny, nx)) * np.ones((n, 1, 1)) * (f / f0)[:, None, None] ** r.uniform(-1, 0.3) * 10 ** (r.uniform(-20, 20, (ny, nx)) * np.log10(f / f0)[:, None, None] ** 2)
    P = I * 0.5 * np.exp(2j * (np.pi * r.rand(ny, nx) + r.uniform(-300, 300, (ny, nx)) * l2[:, None, None])) + 0.01 * (r.randn(n, ny, nx) + 1j * r.randn(n, ny, nx))
    Q, V = P.real.astype("f4"), P.imag.astype("f4")
    I = I.astype("f4")
    if c["nan"]:
        Q[r.rand(n, ny, nx) < 0.1] = np.nan
        V[r.randint(n)] = np.inf
    j, i = np.random.RandomState(c["px"]).randint(ny), np.random.RandomState(c["px"] % 977 + 1).randint(nx)
    if c["mode"] == "default":
        j = i = 0
    if c["zero"] in ("Q", "both"):
        Q[:, j, i] = 0
    if c["zero"] in ("U", "both"):
        V[:, j, i] = 0
    h = pf.Header()
    lay = c["lay"]
    L = {"x": nx, "y": ny, "f": n, "s": 1}
    for k, ax in enumerate(lay):
        k = str(k + 1)
        h["CTYPE" + k] = {"x": "RA---SIN", "y": "DEC--SIN", "f": "FREQ", "s": "STOKES"}[ax]
        h["CRVAL" + k] = {"x": 10.0, "y": -30.0, "f": f0, "s": 1.0}[ax]
        h["CRPIX" + k] = {"x": 2.0, "y": 2.0, "f": 1.0, "s": 1.0}[ax]
        h["CDELT" + k] = {"x": -0.01, "y": 0.01, "f": df, "s": 1.0}[ax]
        if ax in "xy":
            h["CUNIT" + k] = "deg"
        if ax == "f":
            h["CUNIT" + k] = "Hz"
    if c["unit"] == "head":
        h["BUNIT"] = "K"

    def cube(a):
        return a.reshape([L[k] for k in lay[::-1]]) if lay != "xysf" else a[:, None]

    with tempfile.TemporaryDirectory() as t:
        p = {k: os.path.join(t, k + "cube.fits") for k in "QUI"}
        with quiet():
            for k, a in (("Q", Q), ("U", V), ("I", I)):
                pf.PrimaryHDU(cube(a), h).writeto(p[k])
            W = WCS(h).celestial
        argv = ["rmsynth1dFITS", p["Q"], p["U"]]
        x, y = i + 1, j + 1
        if c["mode"] == "out":
            x, y = [(0, y), (-1, y), (nx + 1, y), (x, 0), (x, ny + 1), (x, -2)][c["px"] % 6]
        if c["mode"].startswith("sky"):
            q = (i, j) if c["mode"] == "sky" else [(-1, j), (nx, j), (i, -1), (i, ny), (-3, -2)][c["px"] % 5]
            q = (q[0] + r.uniform(-0.49, 0.49), q[1] + r.uniform(-0.49, 0.49))
            with quiet():
                x, y = (float(v) for v in W.wcs_pix2world([q], 0)[0])
        opt = (["-c"] if c["mode"].startswith("sky") else []) + ["-S", "-l", "600", "-o", c["ord"], "-w", c["wt"]] + (["-d", "20"] if c["ns"] is None else ["-s", c["ns"]]) + ["-t"] * c["fit"] + (["-b"] if c["bits"] else []) + (["-r"] if c["sr"] else []) + (["-U", "mJy"] if c["unit"] == "flag" else [])
        if c["I"] != "no":
            opt += ["-I", p["I"]]
        if c["I"] == "ignored":
            opt += ["-i"]
        argv = ["rmsynth1dFITS"] + [str(o) for o in opt] + ["--", p["Q"], p["U"]] + ([] if c["mode"] == "default" else [repr(x), repr(y)])
        keep = sys.argv
        err = None
        figs, draw = [], Figure.savefig
        try:
            with quiet():
                sys.argv = argv
                Figure.savefig = lambda self, fn, *a, **k: figs.append(str(fn))
                FF.main()
        except (Exception, SystemExit) as e:
            err = e
        finally:
            sys.argv = keep
            Figure.savefig = draw
        check(all(x.startswith(os.path.join(t, "Qcube")) for x in figs), lambda: "figures saved as %s, not beside the other products" % figs)
        done = os.path.exists(os.path.join(t, "Qcube_FDFdirty.dat"))
        if c["mode"] in ("out", "skyout"):
            check(err is not None and not done, "a spectrum for a position off the image")
            return False
        q, u = Q[:, j, i].astype(float), V[:, j, i].astype(float)
        if c["zero"] == "both" and not c["nan"]:
            check(err is not None and not done, "a pixel without data was accepted")
            return False
        if err is not None and c["zero"] != "both":
            raise err
        if err is not None:
            return False
        D = np.loadtxt(os.path.join(t, "Qcube_FDFdirty.dat"))
        m = json.load(open(os.path.join(t, "Qcube_RMsynth.json")))
    q[~np.isfinite(q)] = np.nan
    u[~np.isfinite(u)] = np.nan
    e = np.full(n, 1e-3)
    data = [f, q, u, e, e] if c["I"] == "no" else [f, I[:, j, i].astype(float), q, u, e, e, e]
    with quiet():
        M, A = S1.run_rmsynth(data, polyOrd=c["ord"], phiMax_radm2=600.0, dPhi_radm2=20.0 if c["ns"] is None else None, nSamples=c["ns"] or 10, weightType=c["wt"], fitRMSF=c["fit"], noStokesI=c["I"] == "ignored", nBits=64 if c["bits"] else 32, super_resolution=c["sr"], units={"none": "Jy/beam", "head": "K", "flag": "mJy"}[c["unit"]], log=nolog)
    G = np.asarray(A["dirtyFDF"], complex)
    check(len(D) == len(G) and np.abs(D[:, 0] - A["phiArr_radm2"]).max() < 0.01, "Faraday depths")
    check(np.abs(D[:, 1] + 1j * D[:, 2] - G).max() <= 2e-3 * np.abs(G).max() + 1e-9, lambda: "the FDF is not that of pixel %d, %d (off by %.3g of its maximum)" % (i + 1, j + 1, np.abs(D[:, 1] + 1j * D[:, 2] - G).max() / np.abs(G).max()))
    for k in ("lam0Sq_m2", "freq0_Hz", "Ifreq0", "dFDFth"):
        check(abs(m[k] - M[k]) <= 1e-3 * abs(M[k]) + 1e-12, lambda: "%s saved as %r, the library has %r" % (k, m[k], M[k]))
    check(m["units"] == M["units"], lambda: "units %r" % m["units"])
    return nx * ny > 1
