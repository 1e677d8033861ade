"""C15: cube products written to FITS read back as the same data.

Technique: property-based round-trip testing of the FITS products of RM synthesis and RM-CLEAN for generated layouts, headers and names, against the arrays in memory and brute-force maps; the follow-on readers are differential partners
Assurance: exploration of generated inputs; no proof
"""
import os
import tempfile

import numpy as np
from astropy.io import fits as pf
from hypothesis import strategies as st

from vlib.cubelib import build, fdaxis, mapkeys, place, quiet, same, skykeys, skyshape
from vlib.gen import seeds, wider
from vlib.harness import check, sub

from RMtools_3D import do_RMclean_3D as C3
from RMtools_3D import do_RMsynth_3D as S3
from RMtools_3D import RMpeakfit_3D as P3
from RMutils.util_RM import do_rmclean_hogbom, fits_make_lin_axis

ASSUMPTIONS = ["no sky axis of length 1 together with a Stokes axis before it", "no slash in output prefixes"]

gen = {
    "lay": st.sampled_from(["xyf", "xyf", "xysf", "xyfs", "fxy", "xfy", "fxys", "sxyf", "sfxy", "fyx", "yxf"]), "nx": st.integers(1, 4), "ny": st.integers(1, 4), "nf": st.integers(4, 10), "half": st.one_of(st.integers(2, 20), st.sampled_from([1500])),
    "dphi": st.sampled_from([7.3, 1.0, 12.5, 0.37, 101.1]), "sep": st.booleans(), "peak": st.booleans(), "which": st.sampled_from(["both", "both", "synth", "rmsf"]), "bits": st.sampled_from([32, 64]),
    "nan": st.sampled_from(["none", "vox", "pix"]), "dir": st.sampled_from(["plain", "obs_tot_v1", "my_im_real", "a.C3.b", "FDF_im_x"]), "pre": st.sampled_from(["", "src1_", "t_real_", "x_im.", "a_tot_"]), "ct": st.sampled_from(["all", "all", "all", "nosky", "none", "nowcs"]), "unit": st.booleans(), "rot": st.booleans(), "range": st.booleans(), "seed": seeds,
}


def ranges(d):
    """A data range in the header, if any, is that of the data in the file (not that of the input cube)."""
    for fn in os.listdir(d):
        with pf.open(os.path.join(d, fn)) as hd:
            for x in hd:
                if x.data is not None and fn not in ("Q.fits", "U.fits"):
                    for k, v in (("DATAMAX", np.nanmax), ("DATAMIN", np.nanmin)):
                        check(k not in x.header or np.isclose(x.header[k], v(x.data), rtol=1e-5), lambda: "%s: %s is not that of the data" % (fn, k))


@sub("synth", st.fixed_dictionaries(gen), quick=500, thorough=15000, timeout=100,
     rule="RM synthesis products of cubes in every axis order, in one file or separate files, with odd directory and prefix names, short and long depth axes; non-trivial unless the cube is in the plain 3-axis order with names the readers expect")
def synth(c):
    c, r, ax, n, h, Q, U = build(c)
    with tempfile.TemporaryDirectory() as t:
        d = os.path.join(t, c["dir"])
        os.mkdir(d)
        pf.writeto(os.path.join(d, "Q.fits"), Q, h)
        pf.writeto(os.path.join(d, "U.fits"), U, h)
        hq, q = S3.readFitsCube(os.path.join(d, "Q.fits"), False)
        u = S3.readFitsCube(os.path.join(d, "U.fits"), False)[1]
        f = 1.1e9 + 1e7 * np.arange(n["f"])
        kw = {"both": {}, "synth": {"not_rmsf": True}, "rmsf": {"not_rmsynth": True}}[c["which"]]
        out = S3.run_rmsynth(q, u, f, phiMax_radm2=c["half"] * c["dphi"], dPhi_radm2=c["dphi"], weightType="uniform", nBits=c["bits"], verbose=False, log=quiet, **kw)
        mem = [np.array(x) if isinstance(x, np.ndarray) else x for x in out]
        hk = hq.tostring()
        S3.writefits(out, headtemplate=hq, prefixOut=c["pre"], outDir=d, nBits=c["bits"], write_seperate_FDF=c["sep"], do_peakmaps=c["peak"], verbose=False, log=quiet, **kw)
        ranges(d)
        check(hq.tostring() == hk, "the template header was changed")
        check(all(np.array_equal(a, b, equal_nan=True) for a, b in zip(mem, out) if isinstance(a, np.ndarray)), "writing changed the arrays in memory")
        b = os.path.join(d, c["pre"])
        made = set(os.listdir(d)) - {"Q.fits", "U.fits"}
        want = set()
        if c["which"] != "rmsf":
            want |= {"FDF_real_dirty", "FDF_im_dirty", "FDF_tot_dirty"} if c["sep"] else {"FDF_dirty"}
            if c["peak"]:
                want |= {"FDF_maxPI", "FDF_peakRM"}
        if c["which"] != "synth":
            want |= {"RMSF_real", "RMSF_im", "RMSF_tot", "RMSF_FWHM"} if c["sep"] else {"RMSF"}
        check(made == {c["pre"] + w + ".fits" for w in want}, lambda: "files written: %s" % sorted(made))
        lam0 = mem[-2] if c["which"] != "rmsf" else mem[-1]
        prods = []
        if c["which"] != "rmsf":
            prods.append(("FDF", "_dirty", mem[0], np.asarray(mem[1])))
        if c["which"] == "both":
            prods.append(("RMSF", "", mem[2], np.asarray(mem[3])))
        if c["which"] == "rmsf":
            prods.append(("RMSF", "", mem[0], np.asarray(mem[1])))
        tol = 3e-7
        for name, suf, cube, phi in prods:
            cube = place(cube, ax, n)
            for e, (tag, val, stokes) in enumerate((("real", cube.real, "Q"), ("im", cube.imag, "U"), ("tot", np.abs(cube), None))):
                if c["sep"]:
                    fn, ext = b + name + "_" + tag + suf + ".fits", 0
                else:
                    fn, ext = b + name + suf + ".fits", e
                with pf.open(fn) as hd:
                    g, a = hd[ext].header, hd[ext].data
                    what = "%s %s" % (name, tag)
                    same(a, val, what, tol)
                    skykeys(h, g, ax, what)
                    fdaxis(g, ax, phi, what, 1e-3 if name == "FDF" else 1e-3 + 1e-8 * len(phi) ** 2)  # the doubled axis is itself extrapolated in single precision
                    check(g.get("STOKES") == stokes, lambda: "%s: STOKES keyword %r" % (what, g.get("STOKES")))
                    if "s" in ax:
                        k = str(ax.index("s") + 1)
                        check(g["CRVAL" + k] + (1 - g["CRPIX" + k]) * g["CDELT" + k] == {"Q": 2, "U": 3, None: 0}[stokes], "%s: Stokes axis" % what)
                    check(abs(g["LAMSQ0"] - lam0) <= 1e-6 * lam0, "%s: LAMSQ0" % what)
                    if c["unit"]:
                        check(g["BUNIT"] == ("Jy/beam/RMSF" if name == "FDF" else ""), lambda: "%s: BUNIT %r" % (what, g["BUNIT"]))
                    check(g["BITPIX"] == -c["bits"], "%s: BITPIX" % what)
        if c["which"] != "synth":
            fw = np.asarray(mem[4] if c["which"] == "both" else mem[2])
            with pf.open(b + ("RMSF_FWHM" if c["sep"] else "RMSF") + ".fits") as hd:
                k = hd[0] if c["sep"] else hd[3]
                same(k.data, fw.reshape(skyshape(ax, n)), "RMSF_FWHM", tol)
                mapkeys(h, k.header, ax, "RMSF_FWHM")
        if c["peak"] and c["which"] != "rmsf":
            F, phi = place(mem[0], ax, n), np.asarray(mem[1])
            A = np.abs(F)
            pa = len(ax) - 1 - ax.index("f")
            for fn, val in (("FDF_maxPI", A.max(pa)), ("FDF_peakRM", np.where(np.isnan(A).all(pa), np.nan, phi[np.nanargmax(np.where(np.isnan(A), -1, A), pa)]))):
                with pf.open(b + fn + ".fits") as hd:
                    g, a = hd[0].header, hd[0].data
                    want = [1 if x == "f" else n[x] for x in reversed(ax)]
                    check(list(a.shape) == want, lambda: "%s: shape %s" % (fn, a.shape))
                    skykeys(h, g, ax, fn)
                    same(a.squeeze(), val.squeeze(), fn, tol)
                    if c["unit"] or fn == "FDF_peakRM":
                        check(g["BUNIT"] == ("Jy/beam" if fn == "FDF_maxPI" else "rad/m^2"), lambda: "%s: BUNIT %r" % (fn, g["BUNIT"]))
        # the next tools read the same arrays
        if c["sep"] and c["which"] == "both":
            for tag in ("real", "im", "tot"):
                z, g, p = C3.read_FDF_cubes(b + "FDF_%s_dirty.fits" % tag)
                check(p == ax.index("f") + 1, "reader found the wrong Faraday depth axis")
                w = mem[0].squeeze()
                check(z.shape == w.shape and np.allclose(z, w, rtol=1e-6, atol=1e-7 * np.nanmax(np.abs(w)), equal_nan=True), "RM-CLEAN reads another FDF than was written (given the %s file)" % tag)
            if True:
                np.savetxt(os.path.join(t, "f.dat"), f)
                z, p, w, l2, l0, g = P3.read_files(b + "FDF_tot_dirty.fits", os.path.join(t, "f.dat"))
                ref = mem[0].reshape([-1] + skyshape(ax, n))
                check(z.shape == ref.shape and np.allclose(z, ref, rtol=1e-6, atol=1e-7 * np.nanmax(np.abs(ref)), equal_nan=True), "peak fitting reads another FDF than was written")
                check(np.abs(p - mem[1]).max() <= 1e-3 * c["dphi"] + 3e-7 * np.abs(mem[1]).max(), "peak fitting reads other Faraday depths than were written")
                check(np.allclose(w, np.asarray(mem[4]).reshape(skyshape(ax, n)), rtol=1e-6, equal_nan=True) and abs(l0 - lam0) <= 1e-6 * lam0 and np.allclose(l2, (299792458.0 / f) ** 2), "peak fitting reads other widths or wavelengths than were written")
        elif not c["sep"] and c["which"] != "rmsf":
            z, g, p = C3.read_FDF_cube(b + "FDF_dirty.fits")
            w = mem[0].squeeze()
            check(z.shape == w.shape and np.allclose(z, w, rtol=1e-6, atol=1e-7 * np.nanmax(np.abs(w)), equal_nan=True), "the multi-extension reader returns another FDF than was written")
    return c["lay"] != "xyf" or c["dir"] != "plain" or c["pre"] != "" or c["half"] > 100


@sub("clean", st.fixed_dictionaries(dict(gen, half=st.integers(8, 16), nan=st.just("none"), which=st.just("both"))), quick=250, thorough=8000, timeout=100,
     rule="RM-CLEAN of written cubes against RM-CLEAN of the arrays in memory, and its products read back; non-trivial always")
def clean(c):
    c, r, ax, n, h, Q, U = build(c)
    with tempfile.TemporaryDirectory() as t:
        d = os.path.join(t, c["dir"])
        os.mkdir(d)
        f = 1.1e9 + 3e7 * np.arange(n["f"])
        fo = len(ax) - 1 - ax.index("f")
        q, u = (np.moveaxis(z, fo, 0) for z in (Q, U))
        if len(ax) > 3:
            q, u = q.squeeze(), u.squeeze()
        fw = 3.8 / np.ptp((299792458.0 / f) ** 2)
        out = S3.run_rmsynth(q, u, f, phiMax_radm2=c["half"] * fw / 4, dPhi_radm2=fw / 4, weightType="uniform", nBits=32, verbose=False, log=quiet)
        S3.writefits(out, headtemplate=h, prefixOut=c["pre"], outDir=d, write_seperate_FDF=True, do_peakmaps=False, verbose=False, log=quiet)
        b = os.path.join(d, c["pre"])
        cl, cc, it, rs, hd = C3.run_rmclean(b + "FDF_tot_dirty.fits", b + "RMSF_%s.fits" % ["tot", "real", "im"][c["seed"] % 3], cutoff=0.4, maxIter=8, gain=0.2, nBits=c["bits"], verbose=False, log=quiet)
        check(cc.dtype == np.dtype("c%d" % (c["bits"] // 4)), "requested precision %d, the components are %s" % (c["bits"], cc.dtype))
        fd, ph, rm, ph2, wd = out[:5]
        # both sides get the depths of the files (which are judged in "synth"): CLEAN is chaotic at the rounding level
        ph, ph2 = (fits_make_lin_axis(pf.getheader(b + x), n_f, dtype="float%d" % c["bits"]) for n_f, x in ((ax.index("f"), "FDF_tot_dirty.fits"), (ax.index("f"), "RMSF_tot.fits")))
        fd, rm, wd = np.asarray(fd, "c8"), np.asarray(rm, "c8"), np.asarray(wd, "f4")
        a = do_rmclean_hogbom(fd.reshape(len(ph), -1), ph, rm.reshape(len(ph2), -1), ph2, np.asarray(wd).reshape(-1), cutoff=0.4, maxIter=8, gain=0.2, nBits=c["bits"], verbose=False)
        sh = [n[x] for x in reversed(ax)]
        sh[fo] = len(ph)
        tol = 3e-4
        for name, x, y in (("clean FDF", cl, a[0]), ("components", cc, a[1]), ("residual", rs, a[3])):
            y = place(y, ax, n)
            check(x.shape == tuple(sh), lambda: "%s: shape %s, the FDF file has %s" % (name, x.shape, tuple(sh)))
            # ties between neighbouring depths can be resolved differently when the depth axis is rounded: compare what is insensitive to that
            if name == "components":
                x, y = x.sum(fo), y.sum(fo)
            bad = np.abs(x - y) > tol * max(1, np.abs(y).max())
            check(bad.mean() <= 0.02 or name == "residual", lambda: "%s: cleaning the files differs from cleaning the arrays by %.3g" % (name, np.abs(x - y).max()))
        same(np.ravel(it), np.ravel(a[2]), "iterations", 0.05)
        C3.writefits(cl, cc, it, rs, hd, nBits=c["bits"], prefixOut=c["pre"], outDir=d, write_separate_FDF=c["sep"], verbose=False, log=quiet)
        ranges(d)
        for name, cube in (("clean", cl), ("CC", cc)):
            for e, (tag, val, stokes) in enumerate((("real", cube.real, "Q"), ("im", cube.imag, "U"), ("tot", np.abs(cube), None))):
                fn, ext = (b + "FDF_%s_%s.fits" % (name, tag), 0) if c["sep"] else (b + "FDF_%s.fits" % name, e)
                with pf.open(fn) as k:
                    same(k[ext].data, val, "%s %s" % (name, tag), 3e-7)
                    skykeys(h, k[ext].header, ax, "%s %s" % (name, tag))
                    fdaxis(k[ext].header, ax, np.asarray(ph), "%s %s" % (name, tag))
                    check(k[ext].header.get("STOKES") == stokes, "%s %s: STOKES keyword" % (name, tag))
        with pf.open(b + "CLEAN_nIter.fits") as k:
            sh[fo] = 1
            same(k[0].data, np.asarray(it).reshape(sh), "CLEAN_nIter")
            skykeys(h, k[0].header, ax, "CLEAN_nIter")
            check(k[0].header["BUNIT"] == "Iterations", "CLEAN_nIter: BUNIT")
        if c["sep"]:
            z = C3.read_FDF_cubes(b + "FDF_clean_im.fits")[0]
            check(np.allclose(place(z, ax, n), cl, rtol=1e-6, atol=1e-7), "the clean FDF reads back differently")
            if True:
                np.savetxt(os.path.join(t, "f.dat"), f)
                z, p, w, l2, l0, g = P3.read_files(b + "FDF_clean_tot.fits", os.path.join(t, "f.dat"))
                check(np.allclose(z, np.moveaxis(cl, fo, 0).reshape(z.shape), rtol=1e-6, atol=1e-7) and list(z.shape[1:]) == skyshape(ax, n), "peak fitting reads another clean FDF than was written")
    return True


# the same at the size of survey data
sub("synth_large", wider(st.fixed_dictionaries(gen), nx=st.integers(5, 16), ny=st.integers(5, 16), nf=st.integers(12, 150), half=st.integers(20, 150)), quick=48, thorough=300, min_shard=2, timeout=140,
    rule="as synth, with larger cubes; non-trivial as there")(synth)
sub("clean_large", wider(st.fixed_dictionaries(dict(gen, nan=st.just("none"), which=st.just("both"))), nx=st.integers(5, 9), ny=st.integers(5, 9), nf=st.integers(12, 60), half=st.integers(20, 80)), quick=24, thorough=200, min_shard=1, timeout=140,
    rule="as clean, with larger cubes; non-trivial as there")(clean)
