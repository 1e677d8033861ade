"""C13: region extraction returns the requested pixels with correct coordinates.

Technique: property-based testing of the command-line tool on generated headers, cubes and boxes against direct indexing, with world coordinates of every extracted pixel compared through astropy's WCS
Assurance: exploration of generated inputs; no proof
"""
import os
import sys
import tempfile

import numpy as np
from astropy.io import fits as pf
from astropy.wcs import WCS
from hypothesis import strategies as st

from vlib.gen import seeds, wider
from vlib.harness import check, fail, sub

from RMtools_3D import extract_region

ASSUMPTIONS = ["box limits are whole pixels", "headers have reference pixels"]


def run(*args):
    argv = sys.argv
    sys.argv = ["extract_region"] + [str(a) for a in args]
    try:
        extract_region.main()
    finally:
        sys.argv = argv


lim = st.integers(-1, 14)
box = st.tuples(lim, lim, lim, lim)
gen = {
    "lay": st.sampled_from(["xy", "xyf", "xyfs", "xysf", "xyf1"]), "nx": st.integers(1, 12), "ny": st.integers(1, 12), "nz": st.integers(2, 6),
    "box": box, "good": st.booleans(), "z": st.one_of(st.none(), st.tuples(st.integers(-1, 8), st.integers(-1, 8))), "center": st.booleans(),
    "proj": st.sampled_from(["TAN", "SIN", "CAR"]), "pc": st.booleans(), "dtype": st.sampled_from(["f4", "f8", "i2"]), "over": st.booleans(), "seed": seeds,
}


def build(c):
    r = np.random.RandomState(c["seed"])
    ax = {"xy": "xy", "xyf": "xyf", "xyfs": "xyfs", "xysf": "xysf", "xyf1": "xyfs"}[c["lay"]]
    nz = 1 if c["lay"] == "xyf1" else c["nz"]
    n = {"x": c["nx"], "y": c["ny"], "f": nz, "s": 1}
    h = pf.Header()
    shape = tuple(n[a] for a in reversed(ax))
    d = r.randn(*shape) * 100
    d = d.astype(c["dtype"])
    for i, a in enumerate(ax):
        k = str(i + 1)
        h["CTYPE" + k] = {"x": "RA---" + c["proj"], "y": "DEC--" + c["proj"], "f": "FREQ", "s": "STOKES"}[a]
        h["CRPIX" + k] = float(np.round(r.uniform(-3, 10), 3))
        h["CRVAL" + k] = {"x": 200.5, "y": -20.25, "f": 1.4e9, "s": 1.0}[a]
        h["CDELT" + k] = {"x": -0.01, "y": 0.012, "f": -2e6, "s": 1.0}[a]
        h["CUNIT" + k] = {"x": "deg", "y": "deg", "f": "Hz", "s": ""}[a]
    if c["pc"]:
        t = r.uniform(0, 1)
        h["PC1_1"], h["PC1_2"], h["PC2_1"], h["PC2_2"] = (float(np.round(v, 8)) for v in (np.cos(t), -np.sin(t), np.sin(t), np.cos(t)))
    h["BUNIT"] = "K"
    h["OBJECT"] = "a name"
    return r, d, h, ax, nz


@sub("box", st.fixed_dictionaries(gen), quick=2500, thorough=60000,
     rule="random images and cubes of every layout, boxes inside, on the edge, with -1 limits, empty or outside, optional plane range, pixel or centre form; non-trivial when a proper sub-box is extracted")
def boxes(c):
    r, d, h, ax, nz = build(c)
    nx, ny = c["nx"], c["ny"]
    b = list(c["box"])
    z = list(c["z"]) if c["z"] is not None and "f" in ax else None
    if c["good"]:  # a proper box
        b = [min(max(1, b[0]), nx), min(max(1, b[1]), nx), min(max(1, b[2]), ny), min(max(1, b[3]), ny)]
        b[:2], b[2:] = sorted(b[:2]), sorted(b[2:])
        if z:
            z = sorted(min(max(1, v), nz) for v in z)
    args = list(b)
    if c["center"]:
        args = [(b[0] + b[1]) / 2, (b[1] - b[0]) / 2, (b[2] + b[3]) / 2, (b[3] - b[2]) / 2]
        if min(args[1], args[3]) < 0 or -1 in b:
            args, cen = list(b), False
        else:
            cen = True
    else:
        cen = False

    def lims(lo, hi, n):
        if hi != -1 and lo > hi:
            return None
        lo = max(lo, 1)
        hi = n if hi == -1 or hi > n else hi
        return (lo, hi) if lo <= hi else None

    lx, ly = lims(b[0], b[1], nx), lims(b[2], b[3], ny)
    lz = lims(z[0], z[1], nz) if z else (1, nz)
    with tempfile.TemporaryDirectory() as t:
        p, o = os.path.join(t, "in.fits"), os.path.join(t, "out.fits")
        pf.writeto(p, d, h)
        blob = open(p, "rb").read()
        if c["over"]:
            open(o, "w").write("precious")
            try:
                run(p, o, *args, *(["-c"] if cen else []))
            except Exception:  # noqa: BLE001
                pass
            else:
                fail("an existing file was overwritten without -o")
            check(open(o).read() == "precious", "an existing file was changed without -o")
        try:
            run(p, o, *args, *(["-c"] if cen else []), *(["-z"] + z if z else []), *(["-o"] if c["over"] else []))
        except Exception as e:  # noqa: BLE001
            if lx and ly and lz:
                fail("box %s z %s of a %dx%dx%d image refused: %s" % (b, z, nx, ny, nz, e))
            if c["over"]:
                check(open(o).read() == "precious", "a refused box destroyed the existing file")
            else:
                check(not os.path.exists(o), "a refused box left a file behind")
            return False
        check(lx and ly and lz, lambda: "box %s z %s of a %dx%dx%d image was not refused" % (b, z, nx, ny, nz))
        check(open(p, "rb").read() == blob, "the input file was modified")
        with pf.open(o) as hd:
            e, g = np.array(hd[0].data), hd[0].header.copy()
        idx = [slice(None)] * len(ax)
        idx[len(ax) - 1] = slice(lx[0] - 1, lx[1])
        idx[len(ax) - 2] = slice(ly[0] - 1, ly[1])
        if "f" in ax:
            idx[len(ax) - 1 - ax.index("f")] = slice(lz[0] - 1, lz[1])
        want = d[tuple(idx)]
        check(e.shape == want.shape, lambda: "box %s z %s: shape %s, expected %s" % (b, z, e.shape, want.shape))
        check(np.array_equal(e.astype(d.dtype), want), "the pixels are not those of the box")
        check(e.dtype.newbyteorder("=") == d.dtype, "data type")
        check([g["NAXIS%d" % (i + 1)] for i in range(len(ax))] == list(want.shape[::-1]), "axis lengths in the header")
        # every pixel keeps its coordinates
        w0, w1 = WCS(h), WCS(g)
        grid = np.stack([q.ravel() for q in np.meshgrid(*[np.arange(1, s + 1) for s in want.shape[::-1]], indexing="ij")], 1).astype(float)
        off = np.zeros(len(ax))
        off[0], off[1] = lx[0] - 1, ly[0] - 1
        if "f" in ax:
            off[ax.index("f")] = lz[0] - 1
        A, B = w0.all_pix2world(grid + off, 1), w1.all_pix2world(grid, 1)
        ok = np.abs(A - B) <= 1e-9 * np.maximum(1, np.abs(A))
        check(ok[~np.isnan(A)].all() and np.array_equal(np.isnan(A), np.isnan(B)), lambda: "an extracted pixel changed its coordinate (e.g. %s instead of %s)" % (B[~ok.all(1)][0], A[~ok.all(1)][0]))
        for k in h:
            if not k.startswith(("CRPIX", "NAXIS")):
                check(g.get(k) == h[k], lambda: "header keyword %s changed from %r to %r" % (k, h[k], g.get(k)))
    return want.size < d.size


# the same at the size of survey data
sub("box_large", wider(st.fixed_dictionaries(gen), nx=st.integers(40, 150), ny=st.integers(40, 150), nz=st.integers(10, 60), z=st.one_of(st.none(), st.tuples(st.integers(-1, 60), st.integers(-1, 60)))), quick=90, thorough=600, min_shard=2,
    rule="as box, with larger images; non-trivial as there")(boxes)
