"""C32: inputs that are missing or do not fit together are refused, and leave nothing behind.

Technique: property-based testing: valid inputs with one generated defect (a length, shape, file, option or box), with the oracle that the valid call gives a result and the defective one gives none and leaves the files as they were
Assurance: exploration of generated inputs and defects; no proof
"""
import io
import os
import tempfile
from contextlib import redirect_stderr, redirect_stdout

import numpy as np
from astropy.io import fits as pf
from hypothesis import strategies as st

from vlib.clilib import call, serial_pools, state
from vlib.gen import seeds
from vlib.harness import check, skip, sub

from RMtools_1D import calculate_RMSF, do_QUfit_1D_mnest, do_RMclean_1D, do_RMsynth_1D, do_RMsynth_1D_fromFITS, mk_test_ascii_data, rmtools_bwdepol
from RMtools_3D import RMpeakfit_3D, assemble_chunks, create_chunks, do_fitIcube, do_RMclean_3D, do_RMsynth_3D, extract_region, rescale_I_model_3D
from RMutils import util_RM

ASSUMPTIONS = ["a refusal is an exception, an exit, or a result of None; the exit status is not judged"]
CC = 299792458.0


def quiet(*a, **k):
    pass


def outcome(f):
    """None if the call was refused, else its result."""
    try:
        with redirect_stdout(io.StringIO()), redirect_stderr(io.StringIO()), np.errstate(all="ignore"):
            v = f()
    except (Exception, SystemExit):
        return None
    while isinstance(v, (tuple, list)) and len(v):
        v = v[0]
    return v


def other(r, n):
    """A length other than n (1 included: it would be stretched to any length)."""
    return int([k for k in (1, 1, n - 1, n + 1, n + 7, max(n // 2, 1)) if k != n and k > 0][r.randint(4 if n > 2 else 2)])


def bad_shape(r, s):
    """Another shape: one axis of another length, exchanged axes, or an axis more."""
    s = list(s)
    k = r.randint(4)
    if k <= (len(s) > 2) and len(s) > 1 and len(set(s)) > 1:
        t = s[:-2] + s[:-3:-1] if len(s) > 2 and r.rand() < 0.7 else s[::-1]
        if t != s:
            return t
    if k == 1 and np.prod(s) > 1:
        return s + [2]
    i = r.randint(len(s))
    s[i] = other(r, s[i])
    return s


A = [("synth", x) for x in ("w", "u", "l2", "dims", "turn")] + [("rmsf", x) for x in ("w", "mask", "mdims")] + [("clean", x) for x in ("phi", "phi2", "short", "sky", "dims", "fdims", "mask")]
A += [("adjoint", x) for x in ("w", "u", "l2", "dims")] + [("adjrmsf", x) for x in ("w", "mask", "mdims")] + [("cube", x) for x in ("u", "i", "f", "none")] + [("noise3d", x) for x in ("w", "u", "l2", "dims")] + [("rmsf3d", x) for x in ("w", "dims")]
A += [("icube", x) for x in ("f", "noise")] + [("peaks", x) for x in ("i", "chan", "wt", "noise")] + [("oned", x) for x in ("cols", "six")]


@sub("arrays", st.fixed_dictionaries({"what": st.sampled_from(A), "shape": st.sampled_from([[], [3], [2, 3], [4, 2], [1, 3]]), "n": st.integers(5, 20), "np": st.integers(6, 20), "seed": seeds}), quick=800, thorough=30000,
     rule="one array of another length or shape (length 1 included), axes in another order, too many dimensions, for the routines of synthesis, RMSF, CLEAN, cubes, Stokes I fitting and peak maps; the same call with matching arrays must work; non-trivial always")
def arrays(c):
    r = np.random.RandomState(c["seed"])
    fn, bad = c["what"]
    n, npz, sky = c["n"], c["np"], list(c["shape"])
    if fn in ("cube", "peaks") or bad in ("turn", "sky") and len(sky) < 1:
        sky = [2, 3]
    f = 1e9 + 1e7 * np.arange(n) + 4e6 * r.rand(n)
    l2 = (CC / f) ** 2
    phi = np.linspace(-100, 100, npz)
    sh = [n] + sky
    q, u = r.randn(*sh), r.randn(*sh)
    a = {"q": q, "u": u, "l2": l2, "f": f, "w": 0.5 + r.rand(n), "mask": r.rand(*sh) < 0.1, "phi": phi}

    def rand(s):
        return 0.5 + r.rand(*s)

    def run(a):
        if fn == "synth":
            return util_RM.do_rmsynth_planes(a["q"], a["u"], a["l2"], phi, weightArr=a["w"].copy(), log=quiet)
        if fn == "rmsf":
            return util_RM.get_rmsf_planes(a["l2"], phi, weightArr=a["w"].copy(), mskArr=a["mask"].copy(), log=quiet)
        if fn == "noise3d":
            return util_RM.threeDnoise_do_rmsynth_planes(a["q"], a["u"], a["l2"], phi, weightArr=a["w"].copy(), log=quiet)
        if fn == "rmsf3d":
            return util_RM.threeDnoise_get_rmsf_planes(a["l2"], phi, weightArr=a["w"].copy(), log=quiet)
        if fn == "adjoint":
            return rmtools_bwdepol.do_adjoint_rmsynth_planes(a["f"], a["q"], a["u"], phi, widths_Hz=np.full(n, 1e6), weightArr=a["w"].copy(), log=quiet)
        if fn == "adjrmsf":
            return rmtools_bwdepol.bwdepol_get_rmsf_planes(a["f"], np.full(n, 1e6), phi, 3.0, weightArr=a["w"].copy(), mskArr=a["mask"].copy(), fitRMSF=False, log=quiet)
        if fn == "cube":
            return do_RMsynth_3D.run_rmsynth(a["q"], a["u"], a["f"], dataI=a["i"], phiMax_radm2=50, dPhi_radm2=10, not_rmsynth=a.get("none", False), not_rmsf=a.get("none", False), verbose=False, log=quiet)
        if fn == "clean":
            return util_RM.do_rmclean_hogbom(a["fdf"], a["phi"], a["rmsf"], a["phi2"], 30.0, 0.5, maxIter=3, mskArr=a["m"], log=quiet)
        if fn == "icube":
            h = pf.Header()
            h["BITPIX"], h["NAXIS1"], h["NAXIS2"] = -64, a["I"].shape[2], a["I"].shape[1]
            if bad == "noise":
                return do_fitIcube.cube_noise(a["I"], h, a["f"], -3)[0]
            with tempfile.TemporaryDirectory() as t:
                np.savetxt(os.path.join(t, "f"), a["f"])
                return do_fitIcube.get_frequencies(a["I"], h, os.path.join(t, "f"))
        if fn == "peaks":
            return RMpeakfit_3D.pixelwise_peak_fitting(a["fdf"].copy(), phi, np.full(a["fdf"].shape[1:], 30.0), l2, l2.mean(), ["ampPeakPIfit", "Ifreq0", "dFDFth"], noiseArr=a["noise"], stokesIcube=a["i"], weightType=a["wt"])["Ifreq0"]
        return do_RMsynth_1D.run_rmsynth([x.copy() for x in a["data"]], phiMax_radm2=50.0, dPhi_radm2=10.0, nBits=64, log=quiet)

    if fn == "clean":
        a["fdf"] = (r.randn(npz, *sky) + 1j * r.randn(npz, *sky)).astype("c8")
        step = phi[1] - phi[0]
        k = (npz + 1) // 2 + (r.randint(10) if bad != "short" else 0)
        a["phi2"] = phi[0] + np.arange(-k, npz + k) * step
        a["rmsf"] = (np.exp(-((a["phi2"] / 30) ** 2)).reshape([-1] + [1] * len(sky)) * np.ones(sky)).astype("c8")
        a["m"] = np.ones(sky, bool) if bad == "mask" else None
    if fn in ("cube", "peaks"):
        a["i"] = rand(sh)
    if fn == "icube":
        a["I"] = r.randn(n, 6, 7)
    if fn == "peaks":
        a["fdf"] = r.randn(npz, *sky) + 1j * r.randn(npz, *sky)
        a["noise"], a["wt"] = 0.1 + r.rand(n), "variance"
    if fn in ("noise3d", "rmsf3d") and r.rand() < 0.5:
        a["w"] = rand(sh)
    if fn == "oned":
        a["data"] = [f, r.randn(n), r.randn(n), 0.1 + r.rand(n), 0.1 + r.rand(n)]
    check(outcome(lambda: run(a)) is not None, "the call with matching arrays is refused")
    b = dict(a)
    if bad == "w":
        # (an RMSF has no sky axes to match: only the depth counts)
        b["w"] = rand([other(r, n)] + list(a["w"].shape[1:]) if fn == "rmsf3d" else bad_shape(r, a["w"].shape))
    elif bad == "u":
        b["u"] = rand(bad_shape(r, sh))
    elif bad == "i":
        b["i"] = rand(bad_shape(r, sh))
        if fn == "peaks" and [x for x in b["i"].shape[1:] if x > 1] == [x for x in sky if x > 1] and b["i"].shape[0] == n:
            skip()
    elif bad == "l2":
        k = other(r, n)
        b["l2"], b["f"] = 0.05 + 0.01 * r.rand(k), 1e9 + 1e8 * r.rand(k)
        if r.rand() < 0.6:  # (only the data do not fit)
            b["w"] = rand([k] + list(a["w"].shape[1:]))
    elif bad == "f":
        k = other(r, n)
        if k == 1:
            k = n + 2
        b["f"] = 1e9 + 1e8 * r.rand(k)
    elif bad == "none":
        b["none"] = True
    elif bad == "dims":
        if fn == "clean":  # only one of the two has sky axes of length 1 more
            b["rmsf"] = a["rmsf"][..., None] if len(sky) < 2 or r.rand() < 0.5 else a["rmsf"].reshape(len(a["phi2"]), -1)
        elif fn == "rmsf3d":
            b["w"] = rand([n, 2, 2, 2])
        else:
            b["q"], b["u"] = r.randn(n, 2, 2, 2), r.randn(n, 2, 2, 2)
    elif bad == "fdims":
        b["fdf"], b["rmsf"] = np.ones((npz, 2, 2, 2), "c8"), np.ones((len(a["phi2"]), 2, 2, 2), "c8")
    elif bad == "turn":  # frequency last
        b["q"], b["u"] = np.moveaxis(q, 0, -1), np.moveaxis(u, 0, -1)
        if b["q"].shape[0] == n:
            skip()
    elif bad == "mask":
        if fn == "clean":
            b["m"] = np.ones(bad_shape(r, sky) if sky else [2], bool)
        else:
            b["mask"] = np.zeros([other(r, n)] + sky, bool)
    elif bad == "mdims":
        b["mask"] = np.zeros((n, 2, 2, 2), bool)
    elif bad == "phi":
        b["phi"] = np.linspace(-100, 100, other(r, npz))
    elif bad == "phi2":
        b["phi2"] = np.linspace(-200, 200, len(a["phi2"]) + r.randint(1, 5))
    elif bad == "short":
        k = r.randint(2, 2 * npz)
        b["phi2"], b["rmsf"] = a["phi2"][:k], a["rmsf"][:k]
    elif bad == "sky":
        b["rmsf"] = np.ones([len(a["phi2"])] + bad_shape(r, sky), "c8")
        if b["rmsf"].ndim != a["rmsf"].ndim:
            skip()
    elif bad == "chan":
        k = other(r, n)
        b["i"] = rand([k] + sky)
    elif bad == "wt":
        b["wt"] = ["varianc", "natural", "", None][r.randint(4)]
    elif bad == "noise":
        if fn == "icube":
            b["f"] = 1e9 + 1e8 * r.rand(max(2, other(r, n)) + (1 if n == 2 else 0))
            if len(b["f"]) == n:
                skip()
        else:
            k = other(r, n)
            if k == 1:
                k = n + 1
            b["noise"] = 0.1 + r.rand(k)
    elif bad == "cols":
        i = r.randint(3)
        k = other(r, n)
        d = list(a["data"])
        d[i] = 1e9 * (1 + r.rand(max(2, k) + (1 if max(2, k) == n else 0))) if i == 0 else r.randn(max(2, k) + (1 if max(2, k) == n else 0))
        if len(d[i]) == n:
            skip()
        b["data"] = d
    elif bad == "six":
        b["data"] = (a["data"] + a["data"])[: [3, 4, 6, 8][r.randint(4)]]
    v = outcome(lambda: run(b))
    check(v is None, lambda: "%s: arrays that do not match (%s) give a result instead of a refusal" % (fn, bad))
    return True


T = [("extract", x) for x in ("missing", "exists", "xflip", "yflip", "outside", "z", "zout")] + [("chunk", "missing")] + [("assemble", x) for x in ("gone", "gone", "extra", "exists")]
T += [("synth3", x) for x in ("missing", "u", "i", "f", "nofreq")] + [("clean3", x) for x in ("missing", "depth", "sky", "name")] + [("peak3", x) for x in ("both", "fdf", "freq", "i")]
T += [("rescale", x) for x in ("both", "missing", "name", "coeff0", "exists")] + [("fits1", x) for x in ("missing", "outside", "zero", "size", "size")] + [("synth1", x) for x in ("missing", "cols")] + [("clean1", x) for x in ("fdf", "rmsf", "weight", "json")]
T += [("bw1", x) for x in ("missing", "cols")] + [("rmsfc", x) for x in ("nofreq", "weights")] + [("quf", x) for x in ("missing",)] + [("mk1", "missing")]


@sub("tools", st.fixed_dictionaries({"what": st.sampled_from(T), "nx": st.integers(2, 5), "ny": st.integers(2, 5), "n": st.integers(4, 8), "seed": seeds, "stem": st.sampled_from(["a", "src.1", "my_cube"])}), quick=240, thorough=8000, timeout=120,
     rule="command lines with a missing or unsuitable file, an option pair that excludes each other, boxes and pixels outside of the image, an existing output, a missing or additional chunk; the same command line without the defect must work; non-trivial always")
def tools(c):
    r = np.random.RandomState(c["seed"])
    fn, bad = c["what"]
    nx, ny, n = c["nx"], c["ny"], c["n"]
    f = 1e9 + 3e7 * np.arange(n) + 4e6 * r.rand(n)
    with tempfile.TemporaryDirectory() as t:
        old = os.getcwd()
        os.chdir(t)
        try:
            with serial_pools(do_fitIcube, rescale_I_model_3D):
                return tools_in(t, r, fn, bad, nx, ny, n, f, c["stem"])
        finally:
            os.chdir(old)


def tools_in(t, r, fn, bad, nx, ny, n, f, stem):
    def P(x):
        return os.path.join(t, x)

    h = pf.Header()
    for i, (k, v, d) in enumerate((("RA---TAN", 30.0, -0.01), ("DEC--TAN", -20.0, 0.01), ("FREQ", f[0], f[1] - f[0])), 1):
        h["CTYPE%d" % i], h["CRVAL%d" % i], h["CRPIX%d" % i], h["CDELT%d" % i] = k, v, 1.0, d

    def cube(name, shape=(n, ny, nx), pos=False):
        a = (r.randn(*shape) + (5 if pos else 0)).astype("f4")
        pf.writeto(P(name), a, h, overwrite=True)
        return a

    np.savetxt(P("f.dat"), f)
    fits = stem + ".fits"
    good, spoil, mod = None, None, None
    if fn == "extract":
        mod = extract_region
        cube(fits)
        x0, y0 = r.randint(1, nx), r.randint(1, ny)
        good = [P(fits), P("o.fits"), x0, nx, y0, ny]
        if bad == "missing":
            bads = [P("x" + fits)] + good[1:]
        elif bad == "exists":
            bads, spoil = list(good), lambda: open(P("o.fits"), "w").write("mine")
        elif bad == "xflip":
            bads = good[:2] + [nx, x0 - (x0 == nx), y0, ny]
        elif bad == "yflip":
            bads = good[:2] + [x0, nx, ny, y0 - (y0 == ny)]
        elif bad == "outside":
            k = r.randint(1, 30)
            bads = good[:2] + [[nx + k, nx + k + 3, y0, ny], [-k - 3, -k, y0, ny], [x0, nx, ny + k, ny + k + 2], [x0, nx, -k - 2, -k]][r.randint(4)]
        elif bad == "z":
            good += ["-z", 1, n - 1]
            bads = good[:6] + ["-z", n - 1, 1]
        else:
            good += ["-z", 1, n - 1]
            k = r.randint(1, 9)
            bads = good[:6] + ["-z", n + k, n + k + 1]
    elif fn in ("chunk", "assemble"):
        cube(fits)
        k = r.randint(2, nx * ny)
        good = [P(fits), k]
        mod = create_chunks
        if fn == "chunk":
            bads = [P("x" + fits), k]
        else:
            check(call(create_chunks, good), "cutting into chunks fails")
            os.unlink(P(fits))
            mod = assemble_chunks
            ch = sorted(x for x in os.listdir(t) if ".C" in x)
            good = [P(ch[r.randint(len(ch))])]
            bads = list(good)
            if bad == "gone":
                spoil = lambda: [os.unlink(P(x)) for x in r.choice([x for x in ch if P(x) != good[0]], 1 if len(ch) == 2 else r.randint(1, len(ch) - 1), replace=False)]
            elif bad == "extra":
                nxt = stem + ".C%d.fits" % len(ch) if len(ch[0]) == len(stem) + 8 else stem + ".C%0*d.fits" % (len(ch[0]) - len(stem) - 7, len(ch))
                spoil = lambda: pf.writeto(P(nxt), pf.getdata(P(ch[0])), pf.getheader(P(ch[0])))
            else:
                spoil = lambda: open(P(fits), "w").write("mine")
    elif fn == "synth3":
        mod = do_RMsynth_3D
        cube("Q.fits"), cube("U.fits"), cube("I.fits", pos=True)
        good = [P("Q.fits"), P("U.fits"), P("f.dat"), "-l", 100, "-d", 20] + (["-i", P("I.fits")] if bad == "i" or r.rand() < 0.3 else []) + (["-R"] if r.rand() < 0.4 else [])
        bads = list(good)
        sh = [[n, ny, nx + 1], [n + 1, ny, nx], [n, ny + 2, nx], [n, nx, ny + (nx == ny)]][r.randint(4)]
        if bad == "missing":
            bads[r.randint(2)] = P("none.fits")
        elif bad == "nofreq":
            bads[2] = P("none.dat")
        elif bad == "u":
            spoil = lambda: cube("U.fits", sh)
        elif bad == "i":
            spoil = lambda: cube("I.fits", sh, True)
        else:
            spoil = lambda: np.savetxt(P("f.dat"), np.r_[f, f[-1] + 2e7] if r.rand() < 0.5 else f[:-1])
    elif fn in ("clean3", "peak3"):
        cube("Q.fits"), cube("U.fits"), cube("I.fits", pos=True)
        check(call(do_RMsynth_3D, [P("Q.fits"), P("U.fits"), P("f.dat"), "-l", 100, "-d", 20, "-o", "in_"]), "synthesis fails")
        if fn == "clean3":
            mod = do_RMclean_3D
            good = [P("in_FDF_tot_dirty.fits"), P("in_RMSF_tot.fits"), "-c", 0.5, "-n", 5]
            bads = list(good)
            if bad == "missing":
                bads[r.randint(2)] = P("in_FDF_none_dirty.fits")
            elif bad == "name":  # not one of the components of a Faraday spectrum
                os.rename(P("in_FDF_maxPI.fits"), P("map.fits"))
                bads[0] = P("map.fits")
            else:
                arg = [P("Q.fits"), P("U.fits"), P("f.dat"), "-l", 100, "-d", 20 if bad == "sky" else 7, "-o", "other_"]

                def spoil():
                    if bad == "sky":
                        sh = [[n, ny, nx + 1], [n, ny + 1, nx]][r.randint(2)]
                        cube("Q.fits", sh), cube("U.fits", sh)
                    check(call(do_RMsynth_3D, arg), "synthesis fails")

                k = r.randint(2) if bad == "sky" else 0
                bads[k] = bads[k].replace("in_", "other_")
        else:
            mod = RMpeakfit_3D
            good = [P("in_FDF_real_dirty.fits"), P("f.dat"), P("pk_"), "-i", P("I.fits")] + [[], ["-a"], ["-p"]][r.randint(3)]
            bads = list(good)
            if bad == "both":
                bads = good[:5] + ["-a", "-p"]
            elif bad == "fdf":
                bads[0] = P("none_FDF_real_dirty.fits")
            elif bad == "freq":
                bads[1] = P("none.dat")
            else:
                sh = [[n, ny, nx + 1], [n + 1, ny, nx], [n, ny + 2, nx], [n, nx + (nx == ny), ny]][r.randint(4)]
                spoil = lambda: cube("I.fits", sh, True)
    elif fn == "rescale":
        mod = type("cli", (), {"main": staticmethod(rescale_I_model_3D.command_line)})
        g = h.copy()
        for k in ("CTYPE3", "CRVAL3", "CRPIX3", "CDELT3"):
            del g[k]
        g["HISTORY"] = "Fit model is dynamic order log-polynomial"
        for i in range(6):
            pf.writeto(P("m_coeff%d.fits" % i), r.randn(ny, nx).astype("f4"), g)
            pf.writeto(P("m_coeff%derr.fits" % i), r.rand(ny, nx).astype("f4"), g)
        pf.writeto(P("m_covariance.fits"), np.moveaxis(np.eye(6)[None, None] * np.ones((ny, nx, 1, 1)), (0, 1), (2, 3)).astype("f4"), g)
        pf.writeto(P("m_reffreq.fits"), np.full((ny, nx), 1.1e9, "f4"), g)
        fd = g.copy()
        fd["LAMSQ0"] = 0.07
        pf.writeto(P("fdf.fits"), np.zeros((3, ny, nx), "f4"), fd)
        good = [P("m_covariance.fits"), "-o", P("new_")] + (["-f", 1.2e9] if r.rand() < 0.5 else ["-l", P("fdf.fits")])
        bads = list(good)
        if bad == "both":
            bads = good[:3] + ["-f", 1.2e9, "-l", P("fdf.fits")]
        elif bad == "missing":
            bads[0] = P("x_covariance.fits")
        elif bad == "name":
            bads[0] = P("m_reffreq.fits")
        elif bad == "coeff0":
            spoil = lambda: os.unlink(P(["m_coeff0.fits", "m_coeff0err.fits"][r.randint(2)]))
        else:
            spoil = lambda: open(P("new_newcoeff0.fits"), "w").write("mine")
    elif fn == "fits1":
        mod = do_RMsynth_1D_fromFITS
        px, py = r.randint(nx) + 1, r.randint(ny) + 1
        q, u = cube("Q.fits"), cube("U.fits")
        good = [P("Q.fits"), P("U.fits"), px, py, "-l", 100, "-d", 20, "-S"]
        bads = list(good)
        if bad == "missing":
            bads[r.randint(2)] = P("none.fits")
        elif bad == "outside":
            bads[2:4] = [[-r.randint(5), py], [nx + 1 + r.randint(5), py], [px, -r.randint(5)], [px, ny + 1 + r.randint(5)]][r.randint(4)]
        elif bad == "size":
            sh = (n, ny + 1, nx) if r.rand() < 0.5 else (n, ny, nx + 1)
            if r.rand() < 0.5:
                cube("I.fits", pos=True)
                good += ["-I", P("I.fits"), "-o", 1]
                bads = list(good)
                spoil = lambda: cube("I.fits", sh, True)
            else:
                spoil = lambda: cube("U.fits", sh)
        else:

            def spoil():
                for name, a in (("Q.fits", q), ("U.fits", u)):
                    a[:, py - 1, px - 1] = 0
                    pf.writeto(P(name), a, h, overwrite=True)

    else:
        dat = P(stem + ".dat")
        good = [dat, "-l", 100, "-d", 20]
        cols = [f, r.randn(n), r.randn(n), 0.1 + r.rand(n), 0.1 + r.rand(n)]
        if fn == "synth1" and r.rand() < 0.5:
            cols[1:1], cols[4:4] = [5 + r.rand(n)], [0.1 + r.rand(n)]
            good += ["-o", 1]
        np.savetxt(dat, np.array(cols).T)
        bads = list(good)
        if fn in ("synth1", "bw1"):
            mod = do_RMsynth_1D if fn == "synth1" else rmtools_bwdepol
            good += ["-S"]
            bads += ["-S"]
            if bad == "missing":
                bads[0] = P("none.dat")
            else:
                spoil = lambda: np.savetxt(dat, np.array((cols + cols)[: [3, 4, 6, 8][r.randint(4 if fn == "synth1" else 2)]]).T)
        elif fn == "clean1":
            check(call(do_RMsynth_1D, good + ["-S"]), "synthesis fails")
            mod = do_RMclean_1D
            good, bads = [dat, "-c", 0.5, "-n", 5, "-S"], [dat, "-c", 0.5, "-n", 5, "-S"]
            spoil = lambda: os.unlink(P(stem + {"fdf": "_FDFdirty.dat", "rmsf": "_RMSF.dat", "weight": "_weight.dat", "json": "_RMsynth.json"}[bad]))
        elif fn == "rmsfc":
            mod = calculate_RMSF
            np.savetxt(P("w.dat"), 0.5 + r.rand(n))
            good = [P("f.dat"), P("w.dat"), "-m", 100, "-d", 20, "-s", P("out.png")]
            bads = list(good)
            if bad == "nofreq":
                bads = good[2:]
            else:
                spoil = lambda: np.savetxt(P("w.dat"), 0.5 + r.rand(n + 1 + r.randint(3)) if r.rand() < 0.5 else 0.5 + r.rand(n - 1))
        elif fn == "quf":
            mod, good, bads = do_QUfit_1D_mnest, None, [P("none.dat"), "-m", 1]
        else:
            mod, good, bads = mk_test_ascii_data, None, [P("none.dat"), P("out")]
    keep = {x: open(x, "rb").read() for x in state(t)}
    if good is not None:
        check(call(mod, good), lambda: "%s: the command line with valid inputs fails" % fn)
        now = state(t)
        check(set(now) - set(keep), lambda: "%s: no product with valid inputs" % fn)
        for x in now:
            if x not in keep:
                os.unlink(x)
        for x, v in keep.items():
            if not os.path.exists(x) or open(x, "rb").read() != v:
                open(x, "wb").write(v)
    if spoil:
        spoil()
    before = state(t)
    call(mod, bads)
    after = state(t)
    new = sorted(os.path.basename(x) for x in after if after[x] != before.get(x))
    lost = sorted(os.path.basename(x) for x in before if x not in after)
    check(not new and not lost, lambda: "%s with unsuitable input (%s): files %s written or changed, %s removed" % (fn, bad, new, lost))
    return True
