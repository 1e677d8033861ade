"""C06: cube tools treat every pixel independently and agree with the 1D tools.

Technique: property-based differential testing (3D tool vs 1D tool on every pixel) and metamorphic testing (permute, crop, tile, transpose and perturb the sky) over generated cubes
Assurance: exploration of generated inputs; no proof
"""
import os

import numpy as np
from astropy.io import fits
from hypothesis import strategies as st

from vlib import ref
from vlib.gen import freq_cases, freqs, l2_of, seeds, thin, wider
from vlib.harness import check, skip, sub

from RMtools_1D.do_RMsynth_1D import run_rmsynth as synth1
from RMtools_3D.do_RMsynth_3D import run_rmsynth as synth3

ASSUMPTIONS = ["at least two channels with distinct frequencies", "supplied Stokes I cubes vary linearly with frequency, for which interpolation to the reference frequency is exact"]

cube = {
    "freq": freq_cases(4, 30, kinds=("lin", "gap", "jit", "rand", "desc")),
    "ny": st.integers(1, 4), "nx": st.integers(1, 4),
    "dt": st.sampled_from(["f4", "f8"]),
    "flag": st.sampled_from(["none", "vox", "vox", "chan", "pix", "all"]),
    "wt": st.sampled_from(["uniform", "variance"]),
    "half": st.integers(3, 25), "os": st.sampled_from([3.0, 6.0]),
    "scale": st.sampled_from([1.0, 1e-5, 1e3]), "super": st.booleans(), "seed": seeds,
}


def build(c):
    r = np.random.RandomState(c["seed"])
    f = freqs(c["freq"])
    l2 = l2_of(f)
    nf, ny, nx = len(f), c["ny"], c["nx"]
    fw = 3.8 / np.ptp(l2)
    P = np.zeros((nf, ny, nx), complex)
    for y in range(ny):
        for x in range(nx):
            P[:, y, x] = thin(l2, r.uniform(0.2, 2), 180 * r.rand(), r.uniform(-2, 2) * fw)
    P += 0.1 * (r.randn(*P.shape) + 1j * r.randn(*P.shape))
    P *= c["scale"]
    Q, U = P.real.astype(c["dt"]), P.imag.astype(c["dt"])
    rms = (0.05 + 0.1 * r.rand(nf)) * c["scale"]
    k = c["flag"]
    if k in ("vox", "all"):
        Q[r.rand(*Q.shape) < 0.15] = np.nan
        U[r.rand(*Q.shape) < 0.15] = np.nan
    if k in ("chan", "all"):
        # flags on interior channels keep the frequency extent, so that widths stay comparable
        i = r.randint(1, nf - 1)
        Q[i] = np.nan
    if k in ("pix", "all"):
        Q[:, r.randint(ny), r.randint(nx)] = np.nan
    dphi = fw / c["os"]
    if c["super"]:
        if np.ptp(l2) < 0.1 * l2.max():
            skip()
        dphi = min(dphi, 2.0 / (l2.max() + l2.min()) / 5)
    phimax = c["half"] * dphi
    if 2 * phimax * np.ptp(l2) > 500 or 2 * phimax * l2.max() > 3000:
        skip()
    return r, f, l2, Q, U, rms, dphi, phimax


def sky(a, c):
    """Output cubes lose length-1 axes: put the sky axes back."""
    a = np.asarray(a)
    return a.reshape((a.shape[0] if a.size > c["ny"] * c["nx"] else 1, c["ny"], c["nx"]))


def turn(F, phi, dl):
    """Refer an FDF to a reference lambda^2 larger by dl."""
    return F * np.exp(2j * np.asarray(phi, float) * dl)


def close(a, b, tol, what):
    a, b = np.asarray(a), np.asarray(b)
    na, nb = np.isnan(a), np.isnan(b)
    check(np.array_equal(na, nb), lambda: "%s: NaN in one and not in the other" % what)
    if na.all():
        return
    d = np.abs(a - b)[~na].max()
    check(d <= tol, lambda: "%s differ by %.3g (allowed %.3g)" % (what, d, tol))


@sub("pixel1d", st.fixed_dictionaries(dict(cube, fit=st.booleans())), quick=240, thorough=8000,
     rule="cubes of 1-16 pixels, flagged voxels/channels/pixels, both weightings, both precisions; every pixel is also run through the 1D tool; non-trivial when at least one pixel was compared")
def pixel1d(c):
    r, f, l2, Q, U, rms, dphi, phimax = build(c)
    F, phi, R, phi2, fw, stat, l20, l2out = synth3(Q.copy(), U.copy(), f.copy(), rmsArr=rms.copy(), weightType=c["wt"], phiMax_radm2=phimax, dPhi_radm2=dphi, fitRMSF=c["fit"],
                                                   nBits=64, super_resolution=c["super"])
    check(len(phi) == 2 * c["half"] + 1 and abs(phi[-1] - phimax) < 1e-5 * phimax, "depth grid is not the requested one")
    check(np.allclose(l2out, l2, rtol=1e-12), "returned lambda^2 values are wrong")
    F = np.asarray(F).reshape(len(phi), c["ny"], c["nx"])
    R = np.asarray(R)
    R = R.reshape(len(phi2), *((c["ny"], c["nx"]) if R.size > len(phi2) else (1, 1)))
    fw = np.asarray(fw)
    sc = np.nanmax(np.abs(Q)) + np.nanmax(np.abs(U))
    n = 0
    for y in range(c["ny"]):
        for x in range(c["nx"]):
            q, u = Q[:, y, x], U[:, y, x]
            good = np.isfinite(q) & np.isfinite(u)
            what = "pixel (%d,%d)" % (y, x)
            if not good.any():
                check(np.isnan(F[:, y, x]).all(), "a fully flagged pixel is not NaN in the FDF cube")
                continue
            if good.sum() < 3:
                continue
            d = [f, q.astype(float), u.astype(float), rms, rms]
            m, a = synth1([v.copy() for v in d], phiMax_radm2=phimax, dPhi_radm2=dphi, weightType=c["wt"], nBits=64, fitRMSF=c["fit"], super_resolution=c["super"])
            close(a["phiArr_radm2"], phi, 1e-6 * phimax, "1D and 3D depth grids")
            close(a["phi2Arr_radm2"], phi2, 1e-6 * phimax, "1D and 3D RMSF depth grids")
            l1 = m["lam0Sq_m2"]
            close(turn(F[:, y, x], phi, l1 - l20), a["dirtyFDF"], 2e-4 * sc, what + ": 1D and 3D FDF")
            Rp = R[:, y, x] if R.shape[1:] == (c["ny"], c["nx"]) else R[:, 0, 0]
            close(turn(Rp, phi2, l1 - l20), a["RMSFArr"], 2e-4, what + ": 1D and 3D RMSF")
            fwp = fw.reshape(c["ny"], c["nx"])[y, x] if fw.size == c["ny"] * c["nx"] else float(fw.flat[0])
            if not c["fit"] and not c["super"] and good[[np.argmin(f), np.argmax(f)]].all():
                check(abs(fwp - m["fwhmRMSF"]) <= 1e-4 * m["fwhmRMSF"], lambda: "%s: width %g in the cube, %g in 1D" % (what, fwp, m["fwhmRMSF"]))
            # and against the definition
            w = 1 / rms**2 if c["wt"] == "variance" else np.ones(len(f))
            close(F[:, y, x], ref.fdf(q + 1j * u, w, l2, phi, l20), 2e-4 * sc, what + ": FDF and its definition")
            n += 1
    w = (1 / rms**2 if c["wt"] == "variance" else np.ones(len(f))) * np.isfinite(Q + U).any(axis=(1, 2))
    if w.any():
        e = 0.0 if c["super"] else ref.lam0(w, l2)
        check(abs(l20 - e) <= 1e-6 * l2.max(), lambda: "reference lambda^2 %g, expected %g" % (l20, e))
    return n > 0


def run(Q, U, f, rms, c, phimax, dphi, I=None):
    out = synth3(Q.copy(), U.copy(), f.copy(), dataI=None if I is None else I.copy(), rmsArr=rms.copy(), weightType=c["wt"], phiMax_radm2=phimax, dPhi_radm2=dphi, nBits=32, super_resolution=c["super"])
    F, phi, R, phi2, fw, stat, l20, _ = out
    ny, nx = Q.shape[1:]
    F = np.asarray(F).reshape(len(phi), ny, nx)
    R = np.asarray(R)
    R = R.reshape(len(phi2), ny, nx) if R.size == len(phi2) * ny * nx else np.broadcast_to(R.reshape(len(phi2), 1, 1), (len(phi2), ny, nx))
    return F, phi, R, phi2, l20


@sub("sky", st.fixed_dictionaries(dict(cube, op=st.sampled_from(["perm", "crop", "tile", "swap", "poke", "nanpix", "scale1"]), si=st.booleans())), quick=500, thorough=15000,
     rule="the cube is run twice, the second time with its sky permuted, cropped, tiled or transposed, or with one pixel changed, blanked or rescaled, with or without a Stokes I cube; non-trivial when the cube has more than one pixel")
def skyops(c):
    r, f, l2, Q, U, rms, dphi, phimax = build(c)
    nf, ny, nx = Q.shape
    I = None
    if c["si"]:
        slope = r.uniform(-0.5, 0.5, (ny, nx))
        I = ((1 + slope * ((f - f.mean()) / f.mean())[:, None, None]) * r.uniform(0.5, 3, (ny, nx))).astype(c["dt"])
    op = c["op"]
    F, phi, R, phi2, l20 = run(Q, U, f, rms, c, phimax, dphi, I)
    yy, xx = np.mgrid[:ny, :nx]
    keep = np.ones((ny, nx), bool)
    Q2, U2 = Q.copy(), U.copy()
    I2 = None if I is None else I.copy()
    if op == "perm":
        p = r.permutation(ny * nx)
        yy, xx = yy.ravel()[p].reshape(ny, nx), xx.ravel()[p].reshape(ny, nx)
    elif op == "crop":
        y0, x0 = r.randint(ny), r.randint(nx)
        yy, xx = yy[y0:r.randint(y0, ny) + 1, x0:r.randint(x0, nx) + 1], xx[y0:r.randint(y0, ny) + 1, x0:r.randint(x0, nx) + 1]
        if yy.shape != xx.shape:
            h, v = min(yy.shape[0], xx.shape[0]), min(yy.shape[1], xx.shape[1])
            yy, xx = yy[:h, :v], xx[:h, :v]
    elif op == "tile":
        yy, xx = np.tile(yy, (2, 3)), np.tile(xx, (2, 3))
    elif op == "swap":
        yy, xx = yy.T, xx.T
    else:
        y0, x0 = r.randint(ny), r.randint(nx)
        keep[y0, x0] = False
        if op == "poke":
            Q2[:, y0, x0] = r.randn(nf) * 1e3 * c["scale"]
        elif op == "nanpix":
            U2[:, y0, x0] = np.nan
            if I2 is not None:
                I2[:, y0, x0] = np.nan
        else:
            Q2[:, y0, x0] *= 1e6
            U2[:, y0, x0] *= 1e6
    Q2, U2 = Q2[:, yy, xx], U2[:, yy, xx]
    if I2 is not None:
        I2 = I2[:, yy, xx]
    gone = np.isnan(Q + U).all(axis=(1, 2)) != np.isnan(Q2 + U2).all(axis=(1, 2))
    if gone.any() and (c["si"] or np.isnan(Q2 + U2).all()):
        skip("a whole plane became flagged: the reference frequency changes")
    F2, phiB, R2, phi2B, l20b = run(Q2, U2, f, rms, c, phimax, dphi, I2)
    check(np.array_equal(phi, phiB) and np.array_equal(phi2, phi2B), "the depth grid depends on the sky")
    if not gone.any():
        check(abs(l20 - l20b) <= 1e-9 * l2.max(), lambda: "op %s: the reference wavelength changed from %r to %r" % (op, l20, l20b))
    dead = ~(np.isfinite(Q) & np.isfinite(U)).any(axis=0)
    for j in range(yy.shape[0]):
        for i in range(yy.shape[1]):
            y, x = yy[j, i], xx[j, i]
            if not keep[y, x]:
                continue
            a, b = F[:, y, x], turn(F2[:, j, i], phi, l20 - l20b)
            tol = 3e-5 * np.nanmax(np.abs(Q[:, y, x]) + np.abs(U[:, y, x])) * (6 if c["si"] else 1) if not dead[y, x] else 1
            close(a, b, max(tol, 1e-30), "op %s: the FDF of an unchanged pixel" % op)
            if not dead[y, x]:
                close(R[:, y, x], turn(R2[:, j, i], phi2, l20 - l20b), 1e-4, "op %s: the RMSF of an unchanged pixel" % op)
    return ny * nx > 1


@sub("stokesI", st.fixed_dictionaries(dict(cube, inan=st.booleans(), steep=st.sampled_from([0.0, 0.5, 1.5]))), quick=400, thorough=10000,
     rule="Q and U are divided by a Stokes I model cube (per-pixel slope in frequency, optionally with blank pixels) and rescaled at the reference frequency; compared per pixel with the definition; non-trivial when a pixel was compared")
def stokesI(c):
    r, f, l2, Q, U, rms, dphi, phimax = build(c)
    nf, ny, nx = Q.shape
    s = c["steep"] * r.uniform(-0.5, 0.5, (ny, nx))
    a = r.uniform(0.5, 3, (ny, nx))
    x = (f - f.mean()) / np.ptp(f)
    I = ((1 + s * x[:, None, None]) * a).astype(c["dt"])
    if c["inan"]:
        I[:, r.randint(ny), r.randint(nx)] = np.nan
    F, phi, R, phi2, l20 = run(Q, U, f, rms, c, phimax, dphi, I)
    f0 = ref.C / np.sqrt(l20) if l20 > 0 else np.nanmean(f)
    w = 1 / rms**2 if c["wt"] == "variance" else np.ones(nf)
    n = 0
    for y in range(ny):
        for x_ in range(nx):
            p = (Q[:, y, x_] + 1j * U[:, y, x_].astype(float)) / I[:, y, x_]
            if not np.isfinite(p).any():
                check(np.isnan(F[:, y, x_]).all(), "a pixel without data (or without Stokes I) is not NaN")
                continue
            I0 = a[y, x_] * (1 + s[y, x_] * (f0 - f.mean()) / np.ptp(f))
            e = ref.fdf(p, w, l2, phi, l20) * I0
            close(F[:, y, x_], e, 2e-4 * np.nanmax(np.abs(p)) * abs(I0) + 1e-30, "pixel (%d,%d) of a cube run with Stokes I: FDF and its definition" % (y, x_))
            n += 1
    return n > 0


clean = st.fixed_dictionaries(dict(cube, cut=st.sampled_from([0.05, 0.2, 0.6]), gain=st.sampled_from([0.1, 0.5]), maxit=st.sampled_from([5, 200]),
                                   win=st.sampled_from([None, 0.05]), fit=st.booleans(), pool=st.sampled_from([None, None, 1, 2]), os=st.sampled_from([3.3, 6.7])))


@sub("clean1d", clean, quick=160, thorough=4000,
     rule="cube RM-synthesis written to FITS, cube RM-CLEAN run on the files, and 1D RM-CLEAN run on every pixel with the same grid, RMSF and width; non-trivial when a pixel had components")
def clean1d(c):
    from RMtools_1D.do_RMclean_1D import run_rmclean as clean1
    from RMtools_3D.do_RMclean_3D import run_rmclean as clean3
    from RMtools_3D.do_RMsynth_3D import writefits
    from schwimmbad import SerialPool

    r, f, l2, Q, U, rms, dphi, phimax = build(dict(c, super=False))
    nf, ny, nx = Q.shape
    out = synth3(Q.copy(), U.copy(), f.copy(), rmsArr=rms, weightType=c["wt"], phiMax_radm2=phimax, dPhi_radm2=dphi, nBits=32, fitRMSF=c["fit"])
    F, phi, R, phi2, fw, stat, l20, _ = out
    h = fits.Header()
    h["NAXIS"] = 3
    for k, v in enumerate([("RA---TAN", 10.0, 1e-3, nx), ("DEC--TAN", -30.0, 1e-3, ny), ("FREQ", f[0], 1e6, nf)]):
        h["NAXIS%d" % (k + 1)] = v[3]
        h["CTYPE%d" % (k + 1)], h["CRVAL%d" % (k + 1)], h["CDELT%d" % (k + 1)], h["CRPIX%d" % (k + 1)] = v[0], v[1], v[2], 1.0
    h["BUNIT"] = "Jy/beam"
    d = os.environ["VERIF_SCRATCH"]
    writefits(out, h, prefixOut="c6_", outDir=d, write_seperate_FDF=True)
    cut = c["cut"] * c["scale"]
    win = np.nan if c["win"] is None else c["win"] * c["scale"]
    cl, cc, it, res, head = clean3(d + "/c6_FDF_real_dirty.fits", d + "/c6_RMSF_real.fits", cut, maxIter=c["maxit"], gain=c["gain"], verbose=False, window=win, pool=SerialPool() if c["pool"] else None, chunksize=c["pool"])
    for nm, a in (("clean", cl), ("component", cc), ("residual", res)):
        check(a.size == len(phi) * ny * nx, lambda: "the %s cube has shape %s for %d depths and %dx%d pixels" % (nm, a.shape, len(phi), ny, nx))
    cl, cc, res = [np.asarray(a).reshape(len(phi), ny, nx) for a in (cl, cc, res)]
    it = np.asarray(it).reshape(ny, nx)
    # the numbers in the files are 32-bit: give the 1D tool exactly these, so that ties fall the same way
    F = np.asarray(F).astype("c8").reshape(len(phi), ny, nx)
    R = np.asarray(R).astype("c8")
    R = R.reshape(len(phi2), ny, nx) if R.size == len(phi2) * ny * nx else np.broadcast_to(R.reshape(-1, 1, 1), (len(phi2), ny, nx))
    fw = np.broadcast_to(np.asarray(fw).reshape((ny, nx) if np.size(fw) == ny * nx else (1, 1)), (ny, nx))
    n = 0
    for y in range(ny):
        for x in range(nx):
            if np.isnan(F[:, y, x]).any():
                check(not cc[:, y, x].any() and it[y, x] == 0, "a blank pixel got clean components")
                continue
            pk = np.abs(F[:, y, x]).max()
            if abs(pk - cut) < 1e-4 * cut:
                continue
            m = {"dFDFth": 0.1 * c["scale"], "fwhmRMSF": float(fw[y, x]), "lam0Sq_m2": l20, "Ifreq0": 1.0, "units": "", "freq0_Hz": 1e9, "dFDFcorMAD": 0.1}
            a = {"phiArr_radm2": phi.copy(), "phi2Arr_radm2": phi2.copy(), "dirtyFDF": F[:, y, x].copy(), "RMSFArr": R[:, y, x].copy(), "freqArr_Hz": f.copy(), "weightArr": np.ones(nf)}
            m1, a1 = clean1(m, a, cut, maxIter=c["maxit"], gain=c["gain"], window=None if c["win"] is None else win)
            t = 2e-3 * pk
            if int(a1["iterCountArr"]) != it[y, x] and abs(int(a1["iterCountArr"]) - it[y, x]) <= 2:
                t = 3 * c["gain"] * cut + t  # the last step sits on the cutoff to rounding
            else:
                check(int(a1["iterCountArr"]) == it[y, x], lambda: "pixel (%d,%d): %d iterations in the cube and %d in 1D" % (y, x, it[y, x], a1["iterCountArr"]))
            close(res[:, y, x], a1["residFDF"], t, "residuals from cube and 1D clean")
            close(cl[:, y, x], a1["cleanFDF"], t + 0.02 * pk, "restored spectra from cube and 1D clean")
            s3, s1 = cc[:, y, x].sum(), a1["ccArr"].sum()
            check(abs(s3 - s1) <= t + 0.05 * abs(s1), lambda: "pixel (%d,%d): summed components %s and %s" % (y, x, s3, s1))
            n += int(cc[:, y, x].any())
    return n > 0


# the same at the size of survey data
big = dict(freq=freq_cases(40, 300, kinds=("lin", "gap", "jit", "rand", "desc")), ny=st.integers(6, 14), nx=st.integers(6, 14), half=st.integers(30, 200))
sub("pixel1d_large", wider(st.fixed_dictionaries(dict(cube, fit=st.booleans())), **big), quick=10, thorough=200, min_shard=1,
    rule="as pixel1d, with 36 to 196 pixels and hundreds of channels and depths; non-trivial as there")(pixel1d)
sub("sky_large", wider(st.fixed_dictionaries(dict(cube, op=st.sampled_from(["perm", "crop", "tile", "swap", "poke", "nanpix", "scale1"]), si=st.booleans())), **big), quick=48, thorough=300, min_shard=2,
    rule="as sky, with 36 to 196 pixels and hundreds of channels and depths; non-trivial as there")(skyops)
sub("stokesI_large", wider(st.fixed_dictionaries(dict(cube, inan=st.booleans(), steep=st.sampled_from([0.0, 0.5, 1.5]))), **big), quick=48, thorough=300, min_shard=2,
    rule="as stokesI, with 36 to 196 pixels and hundreds of channels and depths; non-trivial as there")(stokesI)
