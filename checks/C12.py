"""C12: splitting a cube into chunks and reassembling it is lossless.

Technique: property-based round-trip testing of the command-line tools on generated cubes, headers and chunk sizes, with a direct model of which pixel belongs to which chunk and a derived product with another number of planes
Assurance: exploration of generated inputs; no proof
"""
import os
import sys
import tempfile

import numpy as np
from astropy.io import fits as pf
from hypothesis import strategies as st

from vlib.gen import seeds, wider
from vlib.harness import check, fail, skip, sub

from RMtools_3D import assemble_chunks, create_chunks
from RMtools_3D.do_RMsynth_3D import readFitsCube, run_rmsynth, writefits

ASSUMPTIONS = ["chunk files of one cube are alone in their folder, apart from derived products with another name"]


def tool(mod, *args):
    argv = sys.argv
    sys.argv = [mod.__name__] + [str(a) for a in args]
    try:
        mod.main()
    finally:
        sys.argv = argv


def header(naxis, order, r, nx, ny, nz, extra):
    h = pf.Header()
    h["SIMPLE"] = True
    h["BITPIX"] = -32
    h["NAXIS"] = naxis
    ct = ["RA---TAN", "DEC--TAN"] + order[: naxis - 2]
    for i, t in enumerate(ct):
        h["NAXIS%d" % (i + 1)] = [nx, ny, 1, 1][i] if i < 2 else (nz if t.startswith("FREQ") else 1)
    for i, t in enumerate(ct):
        k = i + 1
        h["CTYPE%d" % k] = t
        h["CRPIX%d" % k] = float(np.round(r.uniform(-5, 5), 2))
        h["CRVAL%d" % k] = {"R": 123.4, "D": -31.2, "F": 1.1e9, "S": 2.0}[t[0]] + float(np.round(r.rand(), 3))
        h["CDELT%d" % k] = {"R": -0.01, "D": 0.01, "F": 1e6, "S": 1.0}[t[0]]
        h["CUNIT%d" % k] = {"R": "deg", "D": "deg", "F": "Hz", "S": ""}[t[0]]
    h["BUNIT"] = "Jy/beam"
    if extra:
        h["OBJECT"] = "generated field"
        h["BMAJ"], h["BMIN"], h["BPA"] = 0.01, 0.005, 12.5
        h["HISTORY"] = "made by a generator"
        h["EQUINOX"] = 2000.0
    return h


gen = {
    "naxis": st.sampled_from([2, 3, 4]), "swap": st.booleans(), "nx": st.integers(1, 9), "ny": st.integers(1, 9), "nz": st.integers(1, 5),
    "chunk": st.one_of(st.integers(1, 30), st.sampled_from(["all", "all+1", "all-1", "row", "col"])), "dtype": st.sampled_from(["f4", "f8", "i2", "i4"]),
    "scaled": st.booleans(), "nan": st.booleans(), "mem": st.booleans(), "stem": st.sampled_from([None, None, "out_x", "f.C3.v2", "C12", "a[1]", "g.C1.C22.h", "run.C5.d/out", "w[0-9].C0"]), "extra": st.booleans(), "pick": st.integers(0, 1000), "seed": seeds,
}


def chunksize(c):
    n = c["nx"] * c["ny"]
    k = {"all": n, "all+1": n + 1, "all-1": max(1, n - 1), "row": c["nx"], "col": c["ny"]}.get(c["chunk"], c["chunk"])
    return n, k


def make(c, d):
    r = np.random.RandomState(c["seed"])
    order = ["STOKES", "FREQ"] if c["swap"] else ["FREQ", "STOKES"]
    if c["naxis"] == 3:
        order = ["FREQ"]
    h = header(c["naxis"], order, r, c["nx"], c["ny"], c["nz"], c["extra"])
    shape = tuple(h["NAXIS%d" % i] for i in range(c["naxis"], 0, -1))
    a = r.randn(*shape) if c["dtype"][0] == "f" else r.randint(-30000, 30000, shape)
    a = a.astype(c["dtype"])
    if c["nan"] and c["dtype"][0] == "f":
        a[r.rand(*shape) < 0.2] = np.nan
    p = os.path.join(d, "cube.fits")
    pf.writeto(p, a, h)
    if c.get("scaled") and c["mem"] and c["dtype"][0] == "i":
        # scaled integers (astropy only reads these without memory mapping)
        with pf.open(p, mode="update", do_not_scale_image_data=True, memmap=False) as hd:
            hd[0].header["BSCALE"], hd[0].header["BZERO"] = 0.25, 7.5
        a = pf.getdata(p)
        a = a.astype(a.dtype.newbyteorder("="))
    return r, a, h, p


IGNORE = ("SIMPLE", "BITPIX", "NAXIS", "EXTEND", "OLDXDIM", "OLDYDIM", "HISTORY", "COMMENT", "CHECKSUM", "DATASUM")


def same_header(h, g, what, skipkeys=()):
    for k in h:
        if k in IGNORE or k in skipkeys or k == "":
            continue
        check(k in g and (g[k] == h[k]), lambda: "%s: header keyword %s is %r, in the original %r" % (what, k, g.get(k), h[k]))
    check(g["NAXIS"] == h["NAXIS"], "%s: number of axes" % what)
    check("OLDXDIM" not in g and "OLDYDIM" not in g, "%s: bookkeeping keywords of the chunks left in the header" % what)


def chunks_of(d, stem, tail=".fits"):
    import re

    f = [x for x in os.listdir(d) if re.fullmatch(re.escape(stem) + r"\.C\d+" + re.escape(tail), x)]
    return sorted(f, key=lambda x: int(x[len(stem) + 2 :].split(".")[0]))


@sub("roundtrip", st.fixed_dictionaries(gen), quick=1500, thorough=40000,
     rule="random images and cubes of 2-4 axes, dtypes and chunk sizes (dividing, not dividing, equal to and above the number of pixels, names and folders that look like chunk numbers or patterns): chunk, inspect, derive, reassemble; non-trivial with more than one chunk")
def roundtrip(c):
    n, k = chunksize(c)
    with tempfile.TemporaryDirectory() as d:
        r, a, h, p = make(c, d)
        before = open(p, "rb").read()
        stem = c["stem"] or "cube"
        opt = (["-m"] if c["mem"] else []) + (["-p", os.path.join(d, stem)] if c["stem"] else [])
        if "/" in stem:
            d = os.path.join(d, os.path.dirname(stem))
            os.mkdir(d)
            stem = os.path.basename(stem)
        tool(create_chunks, p, k, *opt)
        check(open(p, "rb").read() == before, "the input file was modified")
        files = chunks_of(d, stem)
        nc = -(-n // k)
        check(len(files) == nc, lambda: "%d chunk files for %d pixels in chunks of %d" % (len(files), n, k))
        check(len({len(f) for f in files}) == 1, "chunk names do not sort in order")
        # the chunks cover every pixel once: concatenated, they hold a permutation of the spectra, column by column of the image
        sp = np.moveaxis(a.reshape(-1, c["ny"], c["nx"]), 0, 2).transpose(1, 0, 2).reshape(n, -1)
        got = []
        for i, f in enumerate(files):
            with pf.open(os.path.join(d, f)) as hd:
                x = np.array(hd[0].data)
                check(x.ndim == a.ndim and x.shape[-2] == 1, lambda: "chunk %d has shape %s" % (i, x.shape))
                check(x.shape[-1] == (k if i < nc - 1 else n - k * (nc - 1)), lambda: "chunk %d holds %d pixels" % (i, x.shape[-1]))
                check(x.dtype.newbyteorder("=") == a.dtype, lambda: "chunk data type %s, not %s" % (x.dtype, a.dtype))
                got.append(np.moveaxis(x.reshape(-1, x.shape[-1]), 0, 1))
        got = np.concatenate(got)
        key = lambda z: sorted(np.ascontiguousarray(z).view(np.uint8).reshape(len(z), -1).tolist())  # noqa: E731
        check(got.shape == sp.shape and key(got.astype(a.dtype)) == key(sp.astype(a.dtype)), "the chunks do not hold every pixel's spectrum exactly once")
        # a derived product with another number of planes and another spectral axis
        w = r.randn(3, sp.shape[1])

        def derive(z):
            z = np.nan_to_num(z.astype(float))
            return (w @ z.reshape(z.shape[0] * z.shape[1] if z.ndim == 4 else z.shape[0], -1)).reshape((3,) + z.shape[-2:]) if z.ndim > 2 else z[None] * np.array([1.0, 2, 3])[:, None, None]

        fax = [i for i in range(1, c["naxis"] + 1) if h["CTYPE%d" % i] == "FREQ"]
        if c["naxis"] > 2:
            for f in files:
                with pf.open(os.path.join(d, f)) as hd:
                    x, hh = hd[0].data, hd[0].header.copy()
                    y = derive(x)
                    if c["naxis"] == 4:
                        y = y[:, None] if fax[0] == 4 else y[None]
                    hh["CTYPE%d" % fax[0]] = "FDEP"
                    hh["CRVAL%d" % fax[0]] = -50.0
                    hh["CDELT%d" % fax[0]] = 12.5
                    pf.writeto(os.path.join(d, f[:-5] + ".FDF.fits"), y, hh)
        pick = os.path.join(d, files[c["pick"] % nc])
        out = os.path.join(d, "again.fits")
        tool(assemble_chunks, pick, "-f", out, *(["-m"] if c["mem"] else []))
        with pf.open(out) as hd:
            b, g = np.array(hd[0].data), hd[0].header
            check(b.shape == a.shape and b.dtype.newbyteorder("=") == a.dtype and np.array_equal(a, b.astype(a.dtype), equal_nan=True), "the reassembled cube differs from the original")
            same_header(h, g, "reassembled cube")
            check([g["NAXIS%d" % (i + 1)] for i in range(c["naxis"])] == list(a.shape[::-1]), "axis lengths in the header")
        if c["naxis"] > 2:
            tool(assemble_chunks, os.path.join(d, files[c["pick"] % nc][:-5] + ".FDF.fits"))
            want = derive(a)
            check(os.path.exists(os.path.join(d, stem + ".FDF.fits")), lambda: "the cube assembled from %s.FDF.fits does not have the name without the chunk number: %s" % (files[0][:-5], os.listdir(d)))
            with pf.open(os.path.join(d, stem + ".FDF.fits")) as hd:
                y, g = np.array(hd[0].data), hd[0].header
                check(y.size == want.size and np.allclose(y.reshape(want.shape), want, rtol=1e-9, atol=1e-9), "the assembled derived cube differs from the product of the whole cube")
                same_header(h, g, "derived cube", skipkeys=("NAXIS%d" % fax[0], "CTYPE%d" % fax[0], "CRVAL%d" % fax[0], "CDELT%d" % fax[0]))
                check((g["CTYPE%d" % fax[0]], g["CRVAL%d" % fax[0]], g["CDELT%d" % fax[0]], g["NAXIS%d" % fax[0]]) == ("FDEP", -50.0, 12.5, 3), "the spectral axis of the product was not kept")
            # existing files are not silently replaced
            blob = open(out, "rb").read()
            try:
                tool(assemble_chunks, pick, "-f", out)
            except OSError:
                pass
            else:
                fail("an existing file was overwritten without -o")
            check(open(out, "rb").read() == blob, "an existing file was changed without -o")
            tool(assemble_chunks, pick, "-f", out, "-o")
            check(np.array_equal(pf.getdata(out), a, equal_nan=True), "overwriting gives another cube")
        # a missing chunk is an error, not a hole
        if nc > 1:
            os.remove(os.path.join(d, files[(c["pick"] * 7 + 1) % nc]))
            left = chunks_of(d, stem)
            try:
                tool(assemble_chunks, os.path.join(d, left[0]), "-f", os.path.join(d, "hole.fits"))
            except Exception:  # noqa: BLE001
                pass
            else:
                fail("assembling with a missing chunk went unnoticed")
        check(open(p, "rb").read() == before, "the input file was modified")
    return nc > 1


@sub("synthesis", st.fixed_dictionaries({"naxis": st.sampled_from([3, 4]), "swap": st.booleans(), "nx": st.integers(1, 5), "ny": st.integers(1, 5), "nz": st.integers(3, 8), "chunk": st.integers(1, 12), "flag": st.booleans(), "seed": seeds}),
     quick=60, thorough=2000, rule="RM synthesis of each chunk file, products written per chunk and reassembled, against the products of the whole cube; non-trivial with more than one chunk")
def synthesis(c):
    c = dict(c, dtype="f4", extra=True, nan=False)
    n, k = chunksize(c)
    with tempfile.TemporaryDirectory() as d:
        r, a, h, p = make(c, d)
        os.rename(p, os.path.join(d, "Q.fits"))
        b = r.randn(*a.shape).astype("f4")
        if c["flag"] and c["nz"] > 3:  # whole channels: isolated flags change the (global) reference wavelength of a chunk, by design
            for z in (a, b):
                np.moveaxis(z, {("FREQ", 3): 0, ("FREQ", 4): 0 if c["swap"] else 1}[("FREQ", c["naxis"])], 0)[1] = np.nan
            pf.writeto(os.path.join(d, "Q.fits"), a, h, overwrite=True)
        pf.writeto(os.path.join(d, "U.fits"), b, h)
        f = 1.1e9 + 1e7 * np.arange(c["nz"])

        def synth(q, u, prefix):
            hq, dq = readFitsCube(os.path.join(d, q), False)
            hu, du = readFitsCube(os.path.join(d, u), False)
            out = run_rmsynth(dq, du, f, phiMax_radm2=200.0, dPhi_radm2=40.0, weightType="uniform", verbose=False, log=lambda *_: None)
            writefits(out, headtemplate=hq, prefixOut=prefix, outDir=d, write_seperate_FDF=True, do_peakmaps=False, log=lambda *_: None)

        synth("Q.fits", "U.fits", "whole.")
        for s in "QU":
            tool(create_chunks, os.path.join(d, s + ".fits"), k)
        for fq in chunks_of(d, "Q"):
            tag = fq.split(".")[1]
            synth(fq, "U." + tag + ".fits", "res." + tag + ".")
        nc = len(chunks_of(d, "Q"))
        tag0 = chunks_of(d, "Q")[0].split(".")[1]
        for prod in ("FDF_real_dirty", "FDF_im_dirty", "FDF_tot_dirty", "RMSF_real", "RMSF_im"):
            tool(assemble_chunks, os.path.join(d, "res.%s.%s.fits" % (tag0, prod)))
            with pf.open(os.path.join(d, "whole.%s.fits" % prod)) as A, pf.open(os.path.join(d, "res.%s.fits" % prod)) as B:
                x, y = A[0].data, B[0].data
                check(x.shape == y.shape, lambda: "%s: shape %s assembled, %s whole" % (prod, y.shape, x.shape))
                check(np.allclose(x, y, rtol=1e-4, atol=1e-5 * np.nanmax(np.abs(x)), equal_nan=True), lambda: "%s assembled from chunks differs from that of the whole cube" % prod)
                same_header(A[0].header, B[0].header, prod, skipkeys=("DATAMAX", "DATAMIN"))
    return nc > 1


# the same at the size of survey data
sub("roundtrip_large", wider(st.fixed_dictionaries(gen), nx=st.integers(10, 32), ny=st.integers(10, 32), nz=st.integers(1, 40), chunk=st.sampled_from(["all", "all+1", "all-1", "row", "col", 7, 64, 100, 101, 256])), quick=48, thorough=300, min_shard=2,
    rule="as roundtrip, with hundreds of pixels, many chunks and planes; non-trivial as there")(roundtrip)
