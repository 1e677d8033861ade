"""C28: robust statistics, interpolation and text helpers follow their definitions.

Technique: property-based testing against textbook definitions written out on the finite entries, metamorphic relations (order, scale, shift) and write-then-parse round trips for the text helpers
Assurance: exploration of generated inputs; no proof
"""
import contextlib
import io
import math
import os
import re
import tempfile
import warnings

import numpy as np
from hypothesis import strategies as st

from vlib.gen import seeds, wider
from vlib.harness import check, skip, sub

from RMutils import util_misc as M
from RMutils import util_RM as R

ASSUMPTIONS = ["parabola vertices around a non-zero middle value", "percentiles below 100 of non-decreasing cumulative distributions that reach them", "a tab is not used as the delimiter of text tables (white space is folded before splitting)"]


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


def arr(c, r):
    shape = tuple(c["shape"])
    a = {"norm": r.randn(*shape), "int": r.randint(-5, 6, shape), "big": 1e8 + r.randn(*shape), "tiny": 1e-9 * r.randn(*shape), "heavy": r.standard_cauchy(shape), "ties": np.round(r.randn(*shape))}[c["kind"]]
    if c["dt"] == "f4" and c["kind"] not in ("int", "big"):
        a = a.astype("f4")
    a = np.array(a)
    if c["nan"] and a.dtype.kind == "f":
        a[r.rand(*shape) < c["nan"]] = np.nan
    return a


arrs = {"shape": st.lists(st.integers(1, 7), min_size=1, max_size=3), "kind": st.sampled_from(["norm", "int", "big", "tiny", "heavy", "ties"]), "dt": st.sampled_from(["f4", "f8"]), "nan": st.sampled_from([0.0, 0.0, 0.2, 0.7]), "axis": st.sampled_from(["none", 0, 1, 2, -1]), "seed": seeds}


def close(x, y, scale, t=1e-5):
    x, y = np.ma.filled(np.ma.masked_array(x, dtype=float), np.nan), np.asarray(y, float)
    if np.shape(x) != np.shape(y):
        return False
    return bool(np.all((np.isnan(x) & np.isnan(y)) | (np.abs(x - y) <= t * scale)))


def lanes(a, axis):
    """Apply a function of a 1D list of finite values along an axis; NaN where nothing is left."""
    def f(fn):
        if axis is None or a.ndim == 1:
            v = a[~np.isnan(a.astype(float))].astype(float).ravel()
            return fn(v) if v.size else np.nan
        b = np.moveaxis(a.astype(float), axis, -1)
        out = np.full(b.shape[:-1], np.nan)
        for i in np.ndindex(out.shape):
            v = b[i][~np.isnan(b[i])]
            if v.size:
                out[i] = fn(v)
        return out
    return f


def median(v):
    v = sorted(v)
    n = len(v)
    return v[n // 2] if n % 2 else 0.5 * (v[n // 2 - 1] + v[n // 2])


def mad(v):
    m = median(v)
    return median([abs(x - m) for x in v])


@sub("nanstats", st.fixed_dictionaries(arrs), quick=6000, thorough=60000,
     rule="1-3D arrays of several kinds and precisions with blanks, along each axis or over everything: median, mean, standard deviation and MAD of the entries that are not blank; non-trivial with blanks or more than one dimension")
def nanstats(c):
    r = np.random.RandomState(c["seed"])
    a = arr(c, r)
    ax = None if c["axis"] == "none" else c["axis"]
    if ax is not None and ax >= a.ndim:
        skip()
    kw = {} if ax is None else {"axis": ax}
    keep = a.copy()
    L = lanes(a, ax)
    fin = a[~np.isnan(a.astype(float))].astype(float)
    s = (np.abs(fin).max() if fin.size else 0) + 1e-30
    t = 1e-5 if a.dtype == np.float32 else 1e-12
    with quiet():
        check(close(M.nanmedian(a, **kw), L(median), s, t), "median")
        check(close(M.nanmean(a, **kw), L(lambda v: sum(v) / len(v)), s, t), "mean")
        ts = max(t, 1e-5) if c["kind"] == "big" else t
        check(close(M.nanstd(a, **kw), L(lambda v: math.sqrt(sum((x - sum(v) / len(v)) ** 2 for x in v) / len(v))), s, ts), "standard deviation")
        check(close(M.MAD(a, **kw), L(lambda v: mad(v) / 0.6745), s, t), "median absolute deviation over 0.6745")
        check(close(M.MAD(a, c=1.0, **kw), L(mad), s, t), "median absolute deviation with c = 1")
        if ax is None and fin.size:
            k = 2.5
            p = a.ravel()[r.permutation(a.size)]
            check(close(M.MAD(p * -k + 3 * s), k * mad(list(fin)) / 0.6745, s, 10 * t), "MAD does not scale and shift with the data, or depends on their order")
    check(np.array_equal(keep, a, equal_nan=a.dtype.kind == "f"), "the input array was changed")
    return bool(np.isnan(keep.astype(float)).any()) or a.ndim > 1


@sub("calcstats", st.fixed_dictionaries(dict(arrs, inf=st.booleans(), zeros=st.booleans(), mz=st.booleans(), aslist=st.booleans())), quick=3000, thorough=30000,
     rule="arrays and nested lists with NaN, infinite and zero entries, zeros kept or masked: number of valid entries, moments, extremes, position of the maximum and robust scatter; non-trivial with at least two valid entries")
def calcstats(c):
    r = np.random.RandomState(c["seed"])
    a = arr(c, r)
    if c["inf"] and a.dtype.kind == "f":
        a[r.rand(*a.shape) < 0.1] = np.inf
        a[r.rand(*a.shape) < 0.1] = -np.inf
    if c["zeros"]:
        a[r.rand(*a.shape) < 0.2] = 0
    keep = a.copy()
    with quiet():
        d = M.calc_stats(a.tolist() if c["aslist"] else a, maskzero=c["mz"])
    check(np.array_equal(keep, a, equal_nan=a.dtype.kind == "f"), "the input array was changed")
    b = a.astype(float)
    ok = np.isfinite(b)
    if c["mz"]:
        ok &= b != 0
    v = b[ok]
    check(int(d["npix"]) == v.size, lambda: "npix %s, %d valid entries" % (d["npix"], v.size))
    if v.size < 2:
        check(not d["success"] and all(float(d[k]) == 0 for k in ("stdev", "mean", "median", "max", "min", "madfm")), "fewer than two valid entries must give no statistics")
        return False
    s = np.abs(v).max() + 1e-30
    t = 1e-5 if a.dtype == np.float32 and not c["aslist"] else 1e-12
    check(d["success"] is True or bool(d["success"]), "success not set")
    e = {"mean": v.mean(), "median": median(list(v)), "max": v.max(), "min": v.min(), "madfm": mad(list(v)) / 0.6745}
    for k, x in e.items():
        check(abs(d[k] - x) <= t * s, lambda: "%s %r, expected %r" % (k, d[k], x))
    check(abs(d["stdev"] - v.std()) <= max(t, 1e-7) * s, lambda: "stdev %r, expected %r" % (d["stdev"], v.std()))
    p = tuple(int(i) for i in d["centmax"])
    check(len(p) == a.ndim and ok[p] and b[p] == v.max(), lambda: "position of the maximum %s" % (p,))
    return True


@sub("parabola", st.fixed_dictionaries({"x": st.floats(-1e4, 1e4), "d": st.sampled_from([1e-3, 0.1, 1.0, 37.0, 1e4]), "u": st.floats(0.3, 3), "v": st.floats(-0.9, 0.9), "a": st.floats(0.05, 5), "y": st.sampled_from([1e-9, 1e-3, 1.0, 1e6]), "neg": st.booleans(), "rev": st.booleans()}), quick=6000, thorough=60000,
     rule="three points of a known parabola, unevenly spaced, ascending or descending, over many scales; non-trivial always")
def parabola(c):
    x = np.array([-c["d"], 0, c["u"] * c["d"]]) + c["x"]
    xv = c["x"] + c["v"] * c["d"]
    yv = c["y"] * (-1 if c["neg"] else 1)
    f = lambda q: yv * (1 - c["a"] * ((q - xv) / c["d"]) ** 2)
    p = list(zip(x, f(x)))
    if c["rev"]:
        p = p[::-1]
    if abs(p[1][1]) < 1e-3 * c["y"]:
        skip()
    gx, gy = M.calc_parabola_vertex(*[q for pt in p for q in pt])
    t = 1e-9 * (1 + abs(c["x"]) / c["d"]) / c["a"] * (1 + c["a"])
    check(abs(gx - xv) <= t * 10 * c["d"] + 1e-12 * abs(xv), lambda: "vertex at %r, expected %r" % (gx, xv))
    check(abs(gy - yv) <= 10 * t * abs(yv) * (1 + c["a"]) ** 2 + 1e-12, lambda: "vertex value %r, expected %r" % (gy, yv)) if abs(yv) > 1e-6 else None
    return True


@sub("extrap", st.fixed_dictionaries({"n": st.integers(2, 30), "m": st.integers(1, 40), "lib": st.sampled_from(["misc", "rm"]), "seed": seeds, "knots": st.booleans(), "ints": st.booleans()}), quick=3000, thorough=30000,
     rule="piecewise linear functions at, between and beyond their knots; non-trivial with points outside")
def extrap(c):
    r = np.random.RandomState(c["seed"])
    xp = np.cumsum(0.05 + r.rand(c["n"])) * 10 ** r.uniform(-3, 6) + r.randn()
    if c["ints"]:
        xp = np.arange(c["n"])
    yp = r.randn(c["n"]) * 10 ** r.uniform(-4, 4)
    L = xp[-1] - xp[0]
    x = r.uniform(xp[0] - 1.5 * L, xp[-1] + 1.5 * L, c["m"])
    if c["knots"]:
        x = np.concatenate([x, xp])
    g = (M if c["lib"] == "misc" else R).extrap(x, xp, yp)
    k = np.clip(np.searchsorted(xp, x) - 1, 0, c["n"] - 2)
    e = yp[k] + (x - xp[k]) * (yp[k + 1] - yp[k]) / (xp[k + 1] - xp[k])
    check(np.shape(g) == x.shape and np.abs(g - e).max() <= 1e-9 * np.abs(e).max() + 1e-9 * np.abs(yp).max(), "not the linear continuation of the end segments")
    return bool(((x < xp[0]) | (x > xp[-1])).any())


@sub("images", st.fixed_dictionaries({"shape": st.lists(st.integers(1, 6), min_size=1, max_size=3), "f": st.sampled_from([0.0, 1.0, 0.5, 0.25, 0.9, -0.2, 1.3, None]), "nan": st.booleans(), "seed": seeds}), quick=1500, thorough=10000,
     rule="pairs of images with blanks and fractions inside and outside 0..1; non-trivial always")
def images(c):
    r = np.random.RandomState(c["seed"])
    a, b = r.randn(*c["shape"]), r.randn(*c["shape"])
    if c["nan"]:
        a[r.rand(*c["shape"]) < 0.2] = np.nan
        b[r.rand(*c["shape"]) < 0.2] = np.nan
    ka, kb = a.copy(), b.copy()
    with quiet():
        g = np.asarray(M.interp_images(a, b) if c["f"] is None else M.interp_images(a, b, f=c["f"]))
    check(g.shape == a.shape, "shape")
    f = 0.5 if c["f"] is None else c["f"]
    for i in np.ndindex(a.shape):
        if np.isfinite(a[i]) and np.isfinite(b[i]):
            e = (1 - f) * a[i] + f * b[i]
            check(abs(g[i] - e) <= 1e-6 * (abs(a[i]) + abs(b[i])), lambda: "pixel %s is %r, expected %r" % (i, g[i], e))
        elif not np.isfinite(a[i]) and not np.isfinite(b[i]):
            check(np.isnan(g[i]), "a pixel blank in both images is not blank")
    check(np.array_equal(ka, a, equal_nan=True) and np.array_equal(kb, b, equal_nan=True), "an input image was changed")
    return True


@sub("cdf", st.fixed_dictionaries({"n": st.integers(3, 60), "q": st.floats(0.5, 99.5), "flat": st.booleans(), "nan": st.booleans(), "lib": st.sampled_from(["arr", "norm"]), "seed": seeds}), quick=3000, thorough=30000,
     rule="cumulative distributions with steep and flat stretches, and percentiles in and out of their range: the distribution at the returned value is the percentile; non-trivial inside the range")
def cdf(c):
    r = np.random.RandomState(c["seed"])
    if c["lib"] == "norm":
        mu, sd = r.randn(), 10 ** r.uniform(-3, 3)
        with quiet():
            x, p = M.norm_cdf(mean=mu, std=sd, N=c["n"], xArr=mu + sd * np.linspace(-6, 6, 2001) if c["flat"] else None)
            x2, p2 = R.norm_cdf(mean=mu, std=sd, N=c["n"], xArr=x)
        e = np.array([0.5 * math.erfc(-(v - mu) / sd / math.sqrt(2)) for v in x])
        check(np.abs(p - e).max() < 1e-9 and np.abs(p2 - e).max() < 1e-9, "not the normal cumulative distribution")
        if not c["flat"]:
            check(len(x) == c["n"] and np.allclose(x, np.linspace(-6 * sd, 6 * sd, c["n"])), "sampled range")
            return True
        g = R.cdf_percentile(x, p, c["q"])
        v = 0.5 * math.erfc(-(g - mu) / sd / math.sqrt(2))
        check(abs(v - c["q"] / 100) < 1e-4, lambda: "percentile %g of a normal distribution at %g sigma" % (c["q"], (g - mu) / sd))
        return True
    x = np.cumsum(0.01 + r.rand(c["n"])) * 10 ** r.uniform(-3, 3)
    w = r.rand(c["n"])
    if c["flat"]:
        w[r.rand(c["n"]) < 0.5] = 0
        w[-1] += 0.1
    p = np.cumsum(w)
    p = p / p[-1]
    if c["nan"]:
        p[:] = np.nan
        check(np.isnan(R.cdf_percentile(x, p, c["q"])), "a percentile of a blank distribution")
        return False
    q = c["q"] / 100
    if np.abs(p - q).min() < 1e-9:
        skip()
    g = R.cdf_percentile(x, p, c["q"])
    if p[0] > q:
        check(g == x[0], "a percentile below the first sample must give the first sample")
        return False
    e = np.interp(g, x, p)
    check(x[0] <= g <= x[-1] and abs(e - q) <= 1e-6, lambda: "the distribution is %r at the returned value, expected %r" % (e, q))
    return True


@sub("polynomials", st.fixed_dictionaries({"n": st.integers(1, 6), "m": st.integers(1, 20), "seed": seeds, "scalar": st.booleans()}), quick=1500, thorough=10000,
     rule="coefficient lists of 1 to 6 values, arrays and scalars; non-trivial above order zero")
def polynomials(c):
    r = np.random.RandomState(c["seed"])
    p = r.randn(c["n"])
    x = r.uniform(0.2, 3, c["m"])
    if c["scalar"]:
        x = float(x[0])
    g = M.poly5(list(p))(x)
    e = 0.0
    for v in p:
        e = e * x + v
    check(np.allclose(g, e, rtol=1e-9, atol=1e-9), "polynomial value")
    g = M.powerlaw_poly5(list(p))(x)
    h = 0.0
    for v in p[:-1]:
        h = h * np.log10(x) + v
    e = p[-1] * 10 ** (np.log10(x) * h)
    check(np.allclose(g, e, rtol=1e-9), "power-law polynomial value")
    q = r.randn(3)
    a = 10 ** r.uniform(-2, 2)
    gg = R.gauss1D(amp=q[0], mean=q[1], fwhm=a)(x)
    check(np.allclose(gg, q[0] * 2.0 ** (-4 * ((x - q[1]) / a) ** 2), rtol=1e-9, atol=1e-300), "Gaussian of given full width at half maximum")
    return c["n"] > 1


@sub("mom2", st.fixed_dictionaries({"n": st.integers(1, 40), "zeros": st.booleans(), "cplx": st.booleans(), "seed": seeds}), quick=1500, thorough=10000,
     rule="real and complex spectra, many channels zero: amplitude-weighted standard deviation of Faraday depth, unchanged by rotation of the angle, scale and shift; non-trivial with two non-zero channels")
def mom2(c):
    r = np.random.RandomState(c["seed"])
    F = r.randn(c["n"]) + (1j * r.randn(c["n"]) if c["cplx"] else 0)
    if c["zeros"]:
        F[r.rand(c["n"]) < 0.7] = 0
        if not F.any():
            F[0] = 1
    phi = np.sort(r.randn(c["n"])) * 10 ** r.uniform(-2, 4)
    A = [abs(v) for v in F]
    K = sum(A)
    mu = sum(a * p for a, p in zip(A, phi)) / K
    e = math.sqrt(sum(a * (p - mu) ** 2 for a, p in zip(A, phi)) / K)
    s = np.abs(phi).max() + 1e-30
    for f, g, k in ((F, phi, 1), (F * (3 * np.exp(1j)), phi, 1), (F[::-1], phi[::-1], 1), (F, 2 * phi + s, 2)):
        for got in (M.calc_mom2_FDF(f, g), R.measure_fdf_complexity(g, f)):
            check(abs(got - k * e) <= 2e-7 * s * k, lambda: "second moment %r, expected %r" % (got, k * e))
    return np.count_nonzero(F) > 1


@sub("gaussian2d", st.fixed_dictionaries({"ny": st.integers(1, 25), "nx": st.integers(1, 25), "seed": seeds}), quick=900, thorough=6000,
     rule="elliptical Gaussians of any width, position and angle; non-trivial always")
def gaussian2d(c):
    r = np.random.RandomState(c["seed"])
    amp, x0, y0, cx, cy, pa = r.randn(), r.uniform(-3, 28), r.uniform(-3, 28), r.uniform(0.5, 9), r.uniform(0.5, 9), r.uniform(-4, 4)
    g = M.twodgaussian([amp, x0, y0, cx, cy, pa], (c["ny"], c["nx"]))
    check(np.shape(g) == (c["ny"], c["nx"]), "shape")
    y, x = np.mgrid[: c["ny"], : c["nx"]]
    u = (x - x0) * np.cos(pa) - (y - y0) * np.sin(pa)
    v = (x - x0) * np.sin(pa) + (y - y0) * np.cos(pa)
    e = amp * np.exp(-0.5 * ((u / cx) ** 2 + (v / cy) ** 2))
    check(np.abs(g - e).max() <= 1e-9 * abs(amp), "not a Gaussian of the given widths at that angle")
    return True


word = st.text(alphabet="abcdefXYZ0123456789._-+", min_size=1, max_size=8)


@sub("tables", st.fixed_dictionaries({"rows": st.lists(st.lists(st.floats(-1e6, 1e6), min_size=1, max_size=12), max_size=6), "delim": st.sampled_from([",", " ", ";"]), "com": st.booleans(), "blank": st.booleans(), "tail": st.booleans(), "crlf": st.booleans(), "lead": st.booleans(), "pad": st.booleans()}), quick=1500, thorough=10000,
     rule="text tables with comment lines, trailing comments, blank lines and extra white space, and repeated blocks of their rows; non-trivial with two rows")
def tables(c):
    with tempfile.TemporaryDirectory() as t:
        p = os.path.join(t, "t.dat")
        nl = "\r\n" if c["crlf"] else "\n"
        with open(p, "w", newline="") as fh:
            if c["com"]:
                fh.write("# a %s comment = 1" % c["delim"] + nl)
            for i, row in enumerate(c["rows"]):
                d = c["delim"]
                sep = (d + "  ") if (c["pad"] and d != " ") else ("   " if c["pad"] else d)
                fh.write(("   " if c["lead"] else "") + sep.join(repr(float(v)) for v in row) + ("  # note, 3 4" if c["tail"] else "") + nl)
                if c["blank"]:
                    fh.write("  " * (i % 2) + nl)
        kw = {} if c["delim"] == "," else {"delim": c["delim"]}
        with quiet():
            got = M.csv_read_to_list(p, doFloat=True, **kw)
            txt = M.csv_read_to_list(p, **kw)
    check(got == [[float(v) for v in row] for row in c["rows"]], lambda: "rows read back: %r" % (got,))
    check([[float(v) for v in row] for row in txt] == got, "rows read as text differ from rows read as numbers")
    for row in got:
        for pre in range(0, len(row) + 1):
            for k in (1, 2, 3):
                if (len(row) - pre) % k == 0:
                    a, b = M.split_repeat_lst(row, pre, k)
                    check(list(a) == row[:pre], "leading entries")
                    n = (len(row) - pre) // k
                    b = np.asarray(b)
                    if n:
                        check(b.shape == (k, n) and all(b[i, j] == row[pre + j * k + i] for i in range(k) for j in range(n)), "repeated columns")
    return len(c["rows"]) > 1


@sub("config", st.fixed_dictionaries({"items": st.dictionaries(st.text(alphabet="abcdefXYZ_", min_size=1, max_size=8), st.lists(word, min_size=1, max_size=4), max_size=6), "delim": st.sampled_from(["=", ":"]), "sep": st.sampled_from([",", ", ", " ", "  "]), "com": st.sampled_from(["none", "line", "tail", "hidden"]), "q": st.booleans(), "split": st.booleans(), "sp": st.booleans()}), quick=1500, thorough=10000,
     rule="configuration files with comments (also ones holding the delimiter), quotes and several separators; non-trivial with two keys")
def config(c):
    d = c["delim"]
    with tempfile.TemporaryDirectory() as t:
        p = os.path.join(t, "c.cfg")
        with open(p, "w") as fh:
            for k, v in c["items"].items():
                if c["com"] == "line":
                    fh.write("# x %s y\n\n" % d)
                if c["com"] == "hidden":
                    fh.write("word # x %s y\n" % d)
                fh.write(("  " + k + " " + d + "  " if c["sp"] else k + d) + c["sep"].join("'%s'" % w if c["q"] else w for w in v) + ("  # note %s 3" % d if c["com"] == "tail" else "") + "\n")
        with quiet():
            g = M.config_read(p, **dict({} if d == "=" else {"delim": d}, **({} if c["split"] else {"doValueSplit": False})))
    check(set(g) == set(c["items"]), lambda: "keys %s" % sorted(g))
    for k, v in c["items"].items():
        if c["split"]:
            check(g[k] == (v if len(v) > 1 else v[0]), lambda: "%s read as %r, written %r" % (k, g[k], v))
        else:
            check(isinstance(g[k], str) and re.split(r"[,\s]+", g[k].strip()) == v, lambda: "%s read as %r, written %r" % (k, g[k], v))
    return len(c["items"]) > 1


@sub("angles", st.fixed_dictionaries({"d": st.integers(0, 359), "m": st.integers(0, 59), "s": st.one_of(st.floats(0, 59.9999), st.sampled_from([59.5, 59.95, 59.96, 59.996, 59.9951, 59.99951, 0.0])), "neg": st.booleans(), "n": st.sampled_from([None, 0, 1, 2, 3, 5]), "delim": st.sampled_from([":", " "]), "sign": st.booleans()}), quick=4500, thorough=40000,
     rule="angles of both signs, many within rounding of a whole minute or degree, written with 0 to 5 decimals: the text parses back to the angle within half a unit of the last place, with minutes and seconds below 60; non-trivial always")
def angles(c):
    x = (c["d"] + c["m"] / 60 + c["s"] / 3600) * (-1 if c["neg"] else 1)
    n = 2 if c["n"] is None else c["n"]
    with quiet():
        t = M.deg2dms(x, delim=c["delim"], doSign=c["sign"], **({} if c["n"] is None else {"nPlaces": n}))
    mm = re.fullmatch(r"([-+]?)(\d{2,3})%s(\d\d)%s(\d\d(?:\.(\d+))?)" % (c["delim"], c["delim"]), t or "")
    check(mm is not None, lambda: "%r written as %r" % (x, t))
    check((mm.group(1) == "-") == (x < 0) and (mm.group(1) == "+") == (x >= 0 and c["sign"]), lambda: "sign of %r written as %r" % (x, t))
    check(len(mm.group(5) or "") == n, lambda: "%r has not %d decimals" % (t, n))
    d, m_, s = int(mm.group(2)), int(mm.group(3)), float(mm.group(4))
    check(m_ < 60 and s < 60, lambda: "%r written as %r" % (x, t))
    v = 3600 * d + 60 * m_ + s
    check(abs(v - 3600 * abs(x)) <= 0.5 * 10.0 ** -n + 1e-6, lambda: "%r written as %r" % (x, t))
    return True


@sub("text", st.fixed_dictionaries({"words": st.lists(st.tuples(st.text(alphabet="abcXY_.", max_size=3), st.integers(0, 10**9), st.text(alphabet="abc", max_size=2)), max_size=12), "blk": st.text(alphabet="ab \t\n\r,", max_size=40), "num": st.one_of(st.floats(allow_nan=False), st.integers(), st.none(), st.sampled_from(["", "abc", "1.5e3", " 7 ", "nan?"]))}), quick=1500, thorough=10000,
     rule="names with numbers sorted naturally, blocks of text cleaned, numbers or words converted with a default; non-trivial with two names")
def text(c):
    names = [a + (str(n) if n else "") + b for a, n, b in c["words"]]
    got = list(names)
    with quiet():
        M.sort_nicely(got)
        blk = M.cleanup_str_input(c["blk"])
        again = M.cleanup_str_input(blk)
    key = lambda s: [(1, int(p), "") if p.isdigit() else (0, 0, p) for p in re.split(r"(\d+)", s)]
    check(got == sorted(names, key=key), lambda: "sorted as %r" % (got,))
    check(blk == again and "\n\n" not in blk and "\r" not in blk and "  " not in blk and "\t" not in blk and blk == blk.strip(), lambda: "cleaned block %r" % blk)
    check(blk.split() == c["blk"].split(), "words of a block changed")
    check([ln.split() for ln in blk.split("\n") if ln.strip()] == [ln.split() for ln in re.split(r"[\r\n]+", c["blk"]) if ln.strip()], "lines of a block changed")
    x = c["num"]
    v = M.xfloat(x, default=-9)
    if x is None or x == "" or (isinstance(x, str) and x in ("abc", "nan?")):
        check(v == -9, lambda: "%r converted to %r" % (x, v))
    else:
        check(v == float(x) if abs(float(x)) < 1e308 else True, lambda: "%r converted to %r" % (x, v))
    for z in (3, 2.5, "s", None, np.float32(1.5), np.array(4.0), np.array([2])):
        w = M.toscalar(z)
        check(not isinstance(w, (np.ndarray, np.generic)) and w == (z if not isinstance(z, np.ndarray) else z.ravel()[0]), lambda: "%r made scalar as %r" % (z, w))
    return len(names) > 1


@sub("linaxis", st.fixed_dictionaries({"n": st.lists(st.integers(1, 30), min_size=1, max_size=4), "ax": st.integers(0, 5), "dt": st.sampled_from([None, "f8"]), "seed": seeds}), quick=900, thorough=6000,
     rule="linear FITS axes of any length, reference and step, and axes that do not exist; non-trivial for axes that exist")
def linaxis(c):
    r = np.random.RandomState(c["seed"])
    h = {"NAXIS": len(c["n"])}
    w = []
    for i, n in enumerate(c["n"]):
        q = (n, r.uniform(-3, n + 3), r.randn() * 10 ** r.uniform(-2, 9), r.randn() * 10 ** r.uniform(-3, 6))
        w.append(q)
        for k, v in zip(("NAXIS", "CRPIX", "CRVAL", "CDELT"), q):
            h["%s%d" % (k, i + 1)] = v
    g = R.fits_make_lin_axis(h, axis=c["ax"], **({"dtype": "f8"} if c["dt"] else {}))
    if c["ax"] >= len(w):
        check(len(g) == 0, "an axis the data do not have")
        return False
    n, p, v, d = w[c["ax"]]
    e = v + (np.arange(n) + 1 - p) * d
    check(len(g) == n and g.dtype == (np.float64 if c["dt"] else np.float32), "length or type of the axis")
    check(np.abs(g - e).max() <= (1e-12 if c["dt"] else 1.3e-7) * max(np.abs(e).max(), abs(v), abs(d)), "values of the axis")
    return True


@sub("peakmask", st.fixed_dictionaries({"w": st.lists(st.one_of(st.floats(0.0, 0.999), st.sampled_from([0.25, 0.5, 0.3, 0.75])), min_size=1, max_size=25), "t": st.sampled_from([0.25, 0.5, 0.75, None]), "k": st.integers(0, 4), "f4": st.booleans()}), quick=3000, thorough=20000,
     rule="more than one channel of the peak is above the threshold")
def peakmask(c):
    """On arrays symmetric about their peak, the peak mask covers exactly the channels next to the peak that do not fall below the threshold."""
    t = c["t"]
    w = np.array(c["w"] + [0.0] * (c["k"] + 1))
    a = np.concatenate([w[::-1], [1.0], w])
    if c["f4"]:
        a = a.astype("f4")
    thr = 0.4 if t is None else t
    p = len(w)
    want = np.zeros(len(a))
    want[p] = 1
    for s in (1, -1):
        i = p + s
        while 0 <= i < len(a) and a[i] >= thr:
            want[i] = 1
            i += s
    b = a.copy()
    got = R.detect_peak(b) if t is None else R.detect_peak(b, thresh=t)
    check(np.array_equal(a, b), "detect_peak changed its input")
    check(np.shape(got) == np.shape(a) and np.array_equal(np.asarray(got, float), want), f"peak mask of {a.tolist()} at {thr}: {np.asarray(got).tolist()}, expected {want.tolist()}")
    return want.sum() > 1


# the same at the size of survey data
sub("nanstats_large", wider(st.fixed_dictionaries(arrs), shape=st.sampled_from([[5000], [300, 40], [64, 30, 20]])), quick=18, thorough=400, min_shard=2,
    rule="as nanstats, with thousands of entries; non-trivial as there")(nanstats)
sub("calcstats_large", wider(st.fixed_dictionaries(dict(arrs, inf=st.booleans(), zeros=st.booleans(), mz=st.booleans(), aslist=st.booleans())), shape=st.sampled_from([[5000], [300, 40], [64, 30, 20]])), quick=72, thorough=400, min_shard=2,
    rule="as calcstats, with thousands of entries; non-trivial as there")(calcstats)
sub("cdf_large", wider(st.fixed_dictionaries({"q": st.floats(0.5, 99.5), "flat": st.booleans(), "nan": st.booleans(), "lib": st.sampled_from(["arr", "norm"]), "seed": seeds}), n=st.integers(60, 5000)), quick=120, thorough=600, min_shard=2,
    rule="as cdf, with thousands of entries; non-trivial as there")(cdf)
sub("mom2_large", wider(st.fixed_dictionaries({"zeros": st.booleans(), "cplx": st.booleans(), "seed": seeds}), n=st.integers(40, 3000)), quick=120, thorough=600, min_shard=2,
    rule="as mom2, with thousands of depths; non-trivial as there")(mom2)
