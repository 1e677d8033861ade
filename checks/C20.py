"""C20: synthetic data generators produce the catalogue sources they describe.

Technique: property-based testing of the simulated spectra and cubes against the published analytic models evaluated independently, on generated catalogues (text files with comments and odd spacing), channelisations, flags and image geometries
Assurance: exploration of generated inputs; no proof. astropy's WCS is trusted to convert the written header.
"""
import io
import os
import sys
import tempfile

import astropy.io.fits as pf
import numpy as np
from astropy.wcs import WCS
from hypothesis import strategies as st

from vlib.gen import freq_cases, freqs, l2_of, seeds, wider
from vlib.harness import check, skip, sub

from RMtools_1D import mk_test_ascii_data as A
from RMtools_3D import mk_test_cube_data as K
from RMutils import util_misc as M

ASSUMPTIONS = ["the component columns are fraction, angle, depth(, dispersion), as in the shipped catalogues and the code; the help texts list angle before fraction"]


def burn(l2, comps):
    return sum(f * np.exp(2j * (np.radians(psi) + rm * l2)) * np.exp(-2 * (s * l2) ** 2) for f, psi, rm, s in comps)


def layers(l2, comps):
    """Sokoloff et al. 1998 eqn 9: first layer is the furthest, rotated by all nearer ones and half of itself."""
    tot = 0
    for i, (f, psi, rm) in enumerate(comps):
        x = rm * l2
        s = np.where(np.abs(x) < 1e-6, 1.0, np.sin(x) / np.where(x == 0, 1, x))
        near = sum(c[2] for c in comps[i + 1 :])
        tot = tot + f * s * np.exp(2j * (np.radians(psi) + x / 2 + near * l2))
    return tot


def component(r, l2, kind):
    rng = 3.8 / max(np.ptp(l2), 1e-9)
    f, psi, rm = r.uniform(0, 0.7), r.uniform(-180, 360), r.uniform(-8, 8) * rng
    if r.rand() < 0.15:
        rm = 0.0
    return (f, psi, rm, float(r.choice([0, 1, 1])) * r.uniform(0, 1) / l2.max()) if kind == 1 else (f, psi, rm)


@sub("spectra", st.fixed_dictionaries({"freq": freq_cases(1, 40), "nc": st.integers(1, 5), "kind": st.sampled_from([1, 2, 3]), "SI": st.floats(-3, 3), "flux": st.floats(-50, 50), "f0": st.sampled_from(["none", "first", "other"]),
                                       "lists": st.booleans(), "nan": st.booleans(), "seed": seeds}), quick=5000, thorough=200000,
     rule="1-5 component Burn, layered and thin sources on generated channels with flags, list or array arguments; non-trivial when a component is depolarised or rotates")
def spectra(c):
    r = np.random.RandomState(c["seed"])
    f = freqs(c["freq"])
    l2 = l2_of(f)
    comps = [component(r, l2, c["kind"]) for _ in range(c["nc"])]
    if c["kind"] == 3:
        comps = comps[:1]
    cols = [list(x) for x in zip(*comps)]
    if not c["lists"]:
        cols = [np.array(x) for x in cols]
    f0 = None if c["f0"] == "none" else f[0] if c["f0"] == "first" else 1.3e9
    if c["nan"] and len(f) > 1:
        f = f.copy()
        f[1:][r.rand(len(f) - 1) < 0.3] = np.nan
        l2 = l2_of(f)
    I = c["flux"] * (f / (f[0] if f0 is None else f0)) ** c["SI"]
    tol = 1e-9 * (1 + np.abs(np.nan_to_num(l2)).max() * max(abs(x[2]) for x in comps) * 1e-3)
    keep = [np.array(x) for x in cols]
    if c["kind"] == 1:
        p = burn(l2, comps)
        P, q, u = M.create_pqu_spectra_burn(f, *cols)
        IQU = M.create_IQU_spectra_burn(f, c["flux"], c["SI"], *cols, freq0_Hz=f0)
        P0, q0, u0 = M.create_pqu_spectra_burn(f, *cols[:3])
        check(np.allclose(q0 + 1j * u0, burn(l2, [x[:3] + (0,) for x in comps]), rtol=0, atol=tol, equal_nan=True), "sources without dispersion are depolarised")
        a = [M.create_pqu_spectra_burn(f, *[[y] for y in x]) for x in comps]
        check(np.allclose(sum(x[1] + 1j * x[2] for x in a), q + 1j * u, rtol=0, atol=tol, equal_nan=True), "spectra of the components do not add")
    elif c["kind"] == 2:
        p = layers(l2, comps)
        P, q, u = M.create_pqu_spectra_diff(f, *cols)
        IQU = M.create_IQU_spectra_diff(f, c["flux"], c["SI"], *cols, freq0_Hz=f0)
    else:
        p = burn(l2, [comps[0] + (0,)])
        P, q, u = M.create_pqu_spectra_RMthin(f, *comps[0])
        IQU = M.create_IQU_spectra_RMthin(f, c["flux"], c["SI"], *comps[0], freq0_Hz=f0)
        n = r.randn(2, len(f))
        pr, qr, ur = M.create_pqu_resid_RMthin(n[0], n[1], f, *comps[0])
        check(np.allclose(qr, n[0] - p.real, atol=tol, equal_nan=True) and np.allclose(ur, n[1] - p.imag, atol=tol, equal_nan=True) and np.allclose(pr, np.hypot(n[0] - p.real, n[1] - p.imag), atol=tol, equal_nan=True), "residual of the thin model")
    check(np.allclose(q + 1j * u, p, rtol=0, atol=tol, equal_nan=True), lambda: "fractional polarisation off by %g" % np.nanmax(np.abs(q + 1j * u - p)))
    g = np.isfinite(f)
    check(np.allclose(P[g], np.abs(p)[g], rtol=0, atol=tol), "polarised fraction is not |q+iu|")
    s = max(1e-30, np.nanmax(np.abs(I)))
    check(np.allclose(IQU[0], I, rtol=1e-10, equal_nan=True), "Stokes I is not the power law about the reference frequency")
    check(np.allclose(IQU[1] + 1j * IQU[2], I * p, rtol=0, atol=tol * s, equal_nan=True), "Stokes Q and U are not I times the fractional spectra")
    for x, y in zip(keep, cols):
        check(np.array_equal(x, np.array(y)), "arguments modified")
    return any(abs(x[2]) > 0 for x in comps)


def catalogue(r, nsrc, l2, place):
    """Text of a catalogue and its entries [type, x, y, flux, SI, comps]; unknown types stay in the numbering."""
    ents, out = [], io.StringIO()
    out.write("# comment, with, commas\n\n")
    for k in range(nsrc):
        t = int(r.choice([1, 1, 2, 2, 3])) if nsrc > 1 else int(r.choice([1, 2]))
        comps = [component(r, l2, min(t, 2)) for _ in range(r.randint(1, 4))]
        x, y = place(k)
        e = [t, x, y, r.uniform(0, 9), r.uniform(0, 9), r.uniform(0, 180), r.uniform(0.1, 30), r.uniform(-1.5, 1)]
        ents.append((t, x, y, e[6], e[7], comps))
        words = [repr(int(v) if i == 0 else float(v)) for i, v in enumerate(e)] + [repr(float(v)) for q in comps for v in q]
        sep = [", ", ",", " , ", ",\t  "][r.randint(4)]
        out.write(" " * r.randint(3) + sep.join(words) + ["", "  ", " # last, remark", "\r"][r.randint(4)] + "\n")
        if r.rand() < 0.3:
            out.write(["\n", "# 1, 2, 3\n", "   \n"][r.randint(3)])
    return out.getvalue(), ents


def model(e, f, f0):
    l2 = l2_of(f)
    I = e[3] * (f / f0) ** e[4]
    return I, I * (burn(l2, e[5]) if e[0] == 1 else layers(l2, e[5]))


asc = {"n": st.integers(2, 60), "f0": st.sampled_from([0.2, 0.7, 1.1]), "bw": st.sampled_from([0.05, 0.5, 1.5]), "ref": st.sampled_from([None, 1.4e9, 0.9e9]), "nsrc": st.integers(1, 4), "flags": st.sampled_from([0, 0, 1, 2]),
       "noise": st.sampled_from([0.0, 0.0, 0.3]), "tmp": st.booleans(), "cli": st.booleans(), "slash": st.booleans(), "seed": seeds}


@sub("ascii", st.fixed_dictionaries(asc), quick=600, thorough=12000,
     rule="ASCII data sets from generated catalogue files, flags, noise templates, directly and by the command line; non-trivial with flags, several sources or noise")
def ascii_data(c):
    zs = []
    r = np.random.RandomState(c["seed"])
    lo, hi = c["f0"] * 1e9, (c["f0"] + c["bw"]) * 1e9
    f = np.linspace(lo, hi, c["n"])
    text, ents = catalogue(r, c["nsrc"], l2_of(f), lambda k: (r.uniform(0, 360), r.uniform(-90, 90)))
    flags = [tuple(sorted(r.uniform(lo - 0.1e9, hi + 0.1e9, 2))) for _ in range(c["flags"])]
    if c["flags"] and r.rand() < 0.5:
        flags[0] = (f[0], f[0])  # the limits themselves are flagged
    if c["flags"] > 1:
        flags[1] = (f[-1], hi + 1)
    tmp = None
    if c["tmp"]:
        tmp = np.array([np.linspace(lo, hi, 7), r.uniform(0.5, 2, 7)])
    with tempfile.TemporaryDirectory() as t:
        cat, out = os.path.join(t, "cat.csv"), os.path.join(t, "a", "b.c") + "/" * c["slash"]
        with open(cat, "w", newline="") as h:
            h.write(text)
        np.random.seed(c["seed"] % 2**31)
        if c["cli"]:
            old = sys.argv
            sys.argv = ["mk", cat, out, "-f", repr(lo / 1e6), repr(hi / 1e6), "-c", str(c["n"]), "-n", repr(c["noise"])]
            if c["ref"]:
                sys.argv += ["-f0", repr(c["ref"] / 1e6)]
            if flags:
                sys.argv += ["-l", ",".join(repr(float(x)) for y in flags for x in y)]
            if c["tmp"]:
                np.savetxt(os.path.join(t, "tmp.txt"), tmp.T)
                sys.argv += ["-t", os.path.join(t, "tmp.txt")]
            try:
                A.main()
            finally:
                sys.argv = old
        else:
            arg = None if tmp is None else tmp.copy()
            n = A.create_IQU_ascii_data(out, cat, lo, hi, c["n"], c["noise"], arg, flags, c["ref"])
            check(tmp is None or np.array_equal(tmp, arg), "the noise template given was modified")
            check(n == sum(e[0] < 3 for e in ents), "count of sources written")
        check(sorted(os.listdir(out)) == ["Source%d.dat" % (k + 1) for k, e in enumerate(ents) if e[0] < 3], "files are not those of the catalogue entries")
        bad = np.array([any(a <= x <= b for a, b in flags) for x in f])
        for k, e in enumerate(ents):
            if e[0] == 3:
                continue
            d = np.loadtxt(os.path.join(out, "Source%d.dat" % (k + 1)), ndmin=2)
            check(d.shape == (c["n"], 7), "columns")
            check(np.isnan(d[bad][:, :4]).all() and not np.isnan(d[~bad][:, :4]).any(), "flagged ranges are not exactly the NaN channels")
            g = ~bad
            check(np.allclose(d[g, 0], f[g], rtol=1e-12), "frequencies")
            I, p = model(e, f[g], c["ref"] or lo)
            ns = np.full(c["n"], c["noise"])
            if c["tmp"]:
                ns = ns * np.interp(f, tmp[0], tmp[1] / np.median(tmp[1]))
            for x, y, what in ((d[g, 1], I, "I"), (d[g, 2], p.real, "Q"), (d[g, 3], p.imag, "U")):
                check((np.abs(x - y) <= 1e-8 * np.abs(I).max(initial=0) + 7 * ns[g]).all(), lambda: "Stokes %s of source %d off by %g" % (what, k + 1, np.abs(x - y).max()))
                if c["noise"] and g.sum() > 20:
                    z = (x - y) / ns[g]
                    check(0.4 < z.std() < 1.8, lambda: "noise of Stokes %s is %g of that requested" % (what, z.std()))
                    zs.append(z)
            for j in (4, 5, 6):
                check((np.abs(d[g, j] - ns[g]) <= 0.35 * ns[g]).all(), "stated errors are not the noise")
    if len(zs) > 1:
        k = np.abs(np.corrcoef(zs) - np.eye(len(zs))).max()
        check(k < 0.97, lambda: "the noise of two spectra (Stokes or sources) is the same, correlation %.3f" % k)
    return bool(c["flags"] or c["nsrc"] > 1 or c["noise"])


cub = {"n": st.integers(2, 5), "nx": st.integers(4, 26), "ny": st.integers(4, 26), "sys": st.sampled_from(["EQU", "GAL"]), "xc": st.floats(5, 355), "yc": st.sampled_from([0.0, -30.0, 62.0]), "pix": st.sampled_from([0.3 / 3600, 0.01]),
       "bmin": st.floats(2, 5), "ratio": st.floats(1, 3), "pa": st.floats(-90, 180), "nsrc": st.integers(1, 3), "flags": st.sampled_from([0, 0, 1, 2]), "noise": st.sampled_from([0.0, 0.0, 0.0, 0.2]), "tmp": st.booleans(), "cli": st.booleans(), "seed": seeds}


@sub("cube", st.fixed_dictionaries(cub), quick=400, thorough=12000,
     rule="cubes with 1-3 generated sources, elliptical beams, equatorial and Galactic frames, flags, noise templates, directly and by the command line; every pixel against beam-shaped sources at the world coordinates of the written header; non-trivial when the beam is elongated and a source is in the image")
def cube(c):
    r = np.random.RandomState(c["seed"])
    lo, hi = 0.8e9, 1.3e9
    f = np.linspace(lo, hi, c["n"])
    px = c["pix"]
    cosd = np.cos(np.radians(c["yc"]))
    pos = [(c["xc"] + r.uniform(-0.5, 0.5) * c["nx"] * px / cosd, c["yc"] + r.uniform(-0.5, 0.5) * c["ny"] * px) for _ in range(c["nsrc"])]
    text, ents = catalogue(r, c["nsrc"], l2_of(f), lambda k: pos[k])
    cut = list(r.permutation(c["n"])[:c["flags"]])
    flags = [(f[k] - 1, f[k] + 1) for k in cut]
    bmin, bmaj = c["bmin"] * px, c["bmin"] * c["ratio"] * px
    tmp = np.array([np.linspace(lo - 1e7, hi - 3e7, 6), r.uniform(0.5, 2, 6)]) if c["tmp"] else None
    rel = np.ones(c["n"])
    if c["tmp"]:  # interpolated, and extrapolated along its last segment
        y = tmp[1] / np.median(tmp[1])
        rel = np.where(f > tmp[0, -1], y[-1] + (f - tmp[0, -1]) * (y[-1] - y[-2]) / (tmp[0, -1] - tmp[0, -2]), np.interp(f, tmp[0], y))
        if (rel <= 0).any():
            skip("the template extrapolates to negative noise")
    settings = dict(freq0_Hz=0.8e9, startFreq_Hz=lo, endFreq_Hz=hi, nChans=c["n"], rmsNoise=c["noise"], beamMinFWHM_deg=bmin, beamMajFWHM_deg=bmaj, beamPA_deg=c["pa"], pixScale_deg=px, xCent_deg=c["xc"], yCent_deg=c["yc"], nPixX=c["nx"], nPixY=c["ny"], coordSys=c["sys"])
    old = {k: getattr(K, k) for k in settings}
    argv = sys.argv
    with tempfile.TemporaryDirectory() as t:
        cat, out = os.path.join(t, "cat.csv"), os.path.join(t, "d", "e")
        with open(cat, "w", newline="") as h:
            h.write(text)
        for k in settings:  # the settings at the top of the script
            setattr(K, k, settings[k])
        try:
            if c["cli"]:
                sys.argv = ["mk", cat, out]
                if flags:
                    sys.argv += ["-f", ",".join(repr(float(x)) for y in flags for x in y)]
                if c["tmp"]:
                    np.savetxt(os.path.join(t, "tmp.txt"), tmp.T)
                    sys.argv += ["-n", os.path.join(t, "tmp.txt")]
                K.main()
            else:
                K.freq0_Hz = 0.8e9
                arg = None if tmp is None else tmp.copy()
                n = K.create_IQU_cube_data(out, cat, lo, hi, c["n"], c["noise"], bmin, bmaj, c["pa"], px, c["xc"], c["yc"], c["nx"], c["ny"], c["sys"], arg, flags)
                check(n == sum(e[0] < 3 for e in ents), "count of sources")
                check(tmp is None or np.array_equal(tmp, arg), "the noise template given was modified")
        finally:
            sys.argv = argv
            for k in old:
                setattr(K, k, old[k])
        check(np.allclose(np.loadtxt(os.path.join(out, "freqs_Hz.dat")), f, rtol=1e-12), "frequency file is not that of all channels")
        D, H = {}, {}
        for s in "IQU":
            with pf.open(os.path.join(out, "Stokes%s.fits" % s)) as h:
                D[s], H[s] = h[0].data.astype(float), h[0].header.copy()
    for k, s in enumerate("IQU"):
        h = H[s]
        check(D[s].shape == (1, c["n"], c["ny"], c["nx"]), "shape")
        check(h["CTYPE4"].strip() == "STOKES" and h["CRVAL4"] == k + 1, lambda: "Stokes %s cube is labelled %r" % (s, h["CRVAL4"]))
        ff = h["CRVAL3"] + (np.arange(c["n"]) + 1 - h["CRPIX3"]) * h["CDELT3"]
        check(h["CTYPE3"].strip() == "FREQ" and np.allclose(ff, f, rtol=1e-9), "frequency axis of the header")
        check(np.allclose([h["BMIN"], h["BMAJ"]], [bmin, bmaj], rtol=1e-6) and abs(h["BPA"] - c["pa"]) < 1e-6, "beam of the header")
    w = WCS(H["I"]).celestial
    check(w.naxis == 2, "the header has no celestial axes")
    mid = w.wcs_pix2world([[(c["nx"] - 1) / 2, (c["ny"] - 1) / 2]], 0)[0]
    check(abs((mid[0] - c["xc"] + 180) % 360 - 180) * cosd < 1e-6 * px * 100 and abs(mid[1] - c["yc"]) < 1e-4 * px, lambda: "image centre is at %s" % mid)
    Y, X = np.indices((c["ny"], c["nx"]))
    # east and north of every pixel as declared by the header (small field: local linear frame)
    east = np.sign(H["I"]["CDELT1"])
    exp = {s: np.zeros((c["n"], c["ny"], c["nx"])) for s in "IQU"}
    amp = 0
    for e in ents:
        if e[0] == 3:
            continue
        x0, y0 = w.wcs_world2pix([[e[1], e[2]]], 0)[0]
        dx, dy = (X - x0) * px * east, (Y - y0) * px
        pa = np.radians(c["pa"])
        along, across = dx * np.sin(pa) + dy * np.cos(pa), dx * np.cos(pa) - dy * np.sin(pa)
        g = np.exp(-4 * np.log(2) * ((along / bmaj) ** 2 + (across / bmin) ** 2))
        I, p = model(e, f, 0.8e9)
        amp += np.abs(I).max()
        for s, v in zip("IQU", (I, p.real, p.imag)):
            exp[s] += v[:, None, None] * g
    zs = []
    for s in "IQU":
        d = D[s][0]
        if flags and not amp and not c["tmp"]:
            break  # noise only
        ns = c["noise"] * rel[:, None, None]
        if flags:
            check(np.isnan(d[cut]).all(), "flagged channel is not blank")
            d, x, ns = np.delete(d, cut, 0), np.delete(exp[s], cut, 0), np.delete(ns, cut, 0)
        else:
            x = exp[s]
        check(not np.isnan(d).any(), "blank pixels outside of the flagged channels")
        if c["noise"] and len(d):
            z = (d - x) / ns
            check(np.abs(z).max() < 7 and (z.size < 200 or 0.7 < z.std() < 1.4), lambda: "noise is %g of that requested" % z.std())
            if z[0].size > 40:
                zs += list(z.reshape(len(z), -1))
        else:
            check(np.abs(d - x).max(initial=0) <= 2e-6 * max(amp, 1e-30), lambda: "Stokes %s off by %g of the flux" % (s, np.abs(d - x).max() / amp))
    if len(zs) > 1:
        k = np.abs(np.corrcoef(zs) - np.eye(len(zs))).max()
        check(k < 0.9, lambda: "the noise of two images (Stokes or channels) is the same, correlation %.3f" % k)
    return c["ratio"] > 1.2 and amp > 0


# the same at the size of survey data
sub("spectra_large", wider(st.fixed_dictionaries({"nc": st.integers(5, 20), "kind": st.sampled_from([1, 2, 3]), "SI": st.floats(-3, 3), "flux": st.floats(-50, 50), "f0": st.sampled_from(["none", "first", "other"]),
    "lists": st.booleans(), "nan": st.booleans(), "seed": seeds}), freq=freq_cases(100, 1000)), quick=120, thorough=1000, min_shard=8,
    rule="as spectra, with hundreds of channels and many components; non-trivial as there")(spectra)
sub("cube_large", wider(st.fixed_dictionaries(cub), n=st.integers(20, 60), nx=st.integers(26, 60), ny=st.integers(26, 60), nsrc=st.integers(3, 8)), quick=24, thorough=200, min_shard=1,
    rule="as cube, with larger cubes with more sources; non-trivial as there")(cube)
