"""C27: the RMSF report prints the true properties of the RMSF.

Technique: property-based testing of the command line over generated channel lists, weights, files and options; the printed numbers are parsed and compared with direct Fourier sums and textbook formulas for exactly those channels and weights
Assurance: exploration of generated inputs; no proof
"""
import contextlib
import io
import os
import re
import sys
import tempfile
import warnings

import matplotlib

matplotlib.use("Agg")
import numpy as np
from hypothesis import strategies as st
from matplotlib import pyplot as plt

from vlib import ref
from vlib.gen import freq_cases, freqs, l2_of, seeds, wider
from vlib.harness import check, fail, skip, sub

from RMtools_1D import calculate_RMSF as K
from RMutils.util_RM import get_rmsf_planes

ASSUMPTIONS = ["channels in ascending or descending order", "the fitted width is compared with the half-power width of the true RMSF only when the fit succeeds and there are no strong sidelobes within it"]


@contextlib.contextmanager
def quiet(out):
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


def run(argv):
    out = io.StringIO()
    keep = sys.argv
    plt.close("all")
    try:
        with quiet(out):
            sys.argv = ["rmtools_calcRMSF"] + argv
            K.main()
        lines = {}
        for a in (plt.gcf().axes[:1] if plt.get_fignums() else []):
            for ln in a.lines:
                lines[ln.get_label()] = (np.array(ln.get_xdata(), float), np.array(ln.get_ydata(), float))
            title = a.get_title()
        texts = " ".join(t.get_text() for a in plt.gcf().axes for t in a.texts)
    finally:
        sys.argv = keep
        plt.close("all")
    return out.getvalue(), lines, title if lines else None, texts


NUM = r"([-+.\deE]+|nan|inf|-inf)"


def value(txt, label):
    m = re.search(re.escape(label) + r"[^\n]*?:\s+" + NUM, txt)
    if not m:
        fail("no line %r in the report" % label)
    return float(m.group(1))


def near(a, b, t=6e-4):
    return abs(a - b) <= t * abs(b) + 1e-12


def frequencies(c):
    """Frequencies as a text column would hold them, Hz."""
    f = np.sort(freqs(c["freq"]))
    if c["ghz"]:
        f = f * 5.0
    if c["fmt"] == "int":
        f = np.round(f)
        if np.any(np.diff(f) == 0):
            skip()
    if c["desc"]:
        f = f[::-1]
    return f


def wts(kind, n, r):
    w = {"rand": r.rand(n) + 0.05, "int": r.randint(1, 9, n).astype(float), "zeros": (r.rand(n) > 0.4) * 1.0, "dyn": 10.0 ** r.uniform(-3, 3, n), "one": np.ones(n)}[kind]
    if (w > 0).sum() < 3:
        w[:3] = 1
    return w


cases = {"freq": freq_cases(4, 60, kinds=("lin", "gap", "jit", "rand")), "ghz": st.booleans(), "fmt": st.sampled_from(["int", "g", "e"]), "desc": st.booleans(), "src": st.sampled_from(["file", "cols", "wfile", "both", "step"]),
         "wk": st.sampled_from(["rand", "int", "zeros", "dyn", "one"]), "m": st.sampled_from([None, None, 12, 40]), "d": st.sampled_from([None, None, 7.0, 15.0]), "sr": st.booleans(), "save": st.booleans(), "seed": seeds}


def col(v, fmt):
    return "%d" % v if fmt == "int" else ("%.15g" % v if fmt == "g" else "%.14e" % v)


@sub("report", st.fixed_dictionaries(cases), quick=500, thorough=16000,
     rule="command line on frequency files, two-column files, weight files and start/stop/step, with integer or floating text, both orders, weights of several kinds, depth options, super-resolution; every printed number and the plotted curves against the true RMSF; non-trivial with unequal weights or irregular channels")
def report(c):
    r = np.random.RandomState(c["seed"])
    src = c["src"]
    step = None
    if src == "step":
        n = c["freq"]["n"]
        a = float(np.round(c["freq"]["f0"] * 1e6 * (5 if c["ghz"] else 1)))
        w_ = float(np.round(a * c["freq"]["frac"] / n))
        b = a + (n - 0.4) * w_  # not a whole number of channels: the stop itself is never ambiguous
        step = [col(a, c["fmt"]), "%.15g" % b, col(w_, c["fmt"])]
        f = a + w_ * np.arange(n)
    else:
        f = frequencies(c)
    n = len(f)
    l2 = l2_of(f)
    w = np.ones(n)
    wcol = wts(c["wk"], n, r)
    wf = wts({"rand": "int", "int": "rand"}.get(c["wk"], c["wk"]), n, r)
    fi = "int" if c["wk"] in ("int", "zeros", "one") else "g"
    if src in ("cols", "both"):
        w = wcol
    if src in ("wfile", "both"):
        w = wf
        fw_ = "int" if np.all(wf == np.round(wf)) else "g"
    th = 3.8 / np.ptp(l2)
    argv = []
    d = 0.2 * np.sqrt(3) / np.ptp(l2)
    if c["d"]:
        d = th / c["d"]
        argv += ["-d", repr(d)]
    m = 20 * np.sqrt(3) / np.ptp(l2)
    if c["m"] is not None or c["d"]:
        m = 2 * (c["m"] or 30) * d
        argv += ["-m", repr(m * (1 + 1e-12))]
    if c["sr"]:
        argv += ["-r"]
    with tempfile.TemporaryDirectory() as t:
        png = os.path.join(t, "plot.png")
        if c["save"]:
            argv += ["-s", png, "-n", "name of plot"]
        p, q = os.path.join(t, "f.dat"), os.path.join(t, "w.dat")
        with open(p, "w") as fh:
            if c["seed"] % 3 == 0:
                fh.write("# frequencies\n")
            for i in range(n):
                fh.write(col(f[i], c["fmt"]) + ((" " + col(wcol[i], fi)) if src in ("cols", "both") else "") + "\n")
        if src in ("wfile", "both"):
            with open(q, "w") as fh:
                fh.writelines(col(v, fw_) + "\n" for v in w)
        if step:
            argv = argv + ["-f"] + step
        else:
            argv = [p] + ([q] if src in ("wfile", "both") else []) + argv
        txt, lines, title, texts = run(argv)
        if c["save"]:
            check(os.path.exists(png) and os.path.getsize(png) > 1000, "the plot was not saved")
            check(title == "name of plot", lambda: "plot title %r" % title)
    v = value(txt, "Theoretical (unweighted) FWHM")
    check(c["sr"] or near(v, th), lambda: "theoretical FWHM %r, expected %.6g" % (v, th))
    v = value(txt, "Theoretical largest FD scale")
    check(near(v, np.pi / l2.min()), lambda: "largest scale %r, expected %.6g" % (v, np.pi / l2.min()))
    v = value(txt, "Theoretical maximum FD")
    e = np.sqrt(3) / np.median(np.diff(np.sort(l2)))
    check(near(v, e), lambda: "maximum depth %r, expected %.6g" % (v, e))
    # the true RMSF on multiples of the step
    k = int(round(m / d))
    x = d * np.arange(0, k + 4)  # the sampled range may extend a little beyond the maximum
    l20 = 0.0 if c["sr"] else ref.lam0(w, l2)
    R = ref.rmsf(w, l2, x, l20)
    A = np.abs(R)
    fine = np.linspace(0, 3 * th, 3001)
    Rf = ref.rmsf(w, l2, fine, l20)
    Y = Rf.real if c["sr"] else np.abs(Rf)
    got = value(txt, "Measured FWHM")
    # width the library gives for exactly these channels and weights
    h = int(round(m / d / 2))
    with quiet(io.StringIO()):
        o = get_rmsf_planes(l2, (np.arange(2 * h + 1) - h) * d, weightArr=w.copy(), fitRMSF=True, fitRMSFreal=c["sr"], lam0Sq_m2=0 if c["sr"] else None)
    lw = float(np.ravel(o[2])[0])
    # (a response that hardly falls within the range does not constrain its width)
    check(lw > 2 * m or near(got, lw, 2e-3), lambda: "measured FWHM %r, for these channels and weights the library fits %.6g" % (got, lw))
    hp = np.where(Y < 0.5)[0]
    lo = np.where(Y < 0.3)[0]
    if len(lo) and int(np.ravel(o[3])[0]) > 0 and np.all(np.diff(Y[: lo[0] + 1]) <= 1e-12) and 1.1 < fine[lo[0]] / fine[hp[0]] < 1.5:
        tw = 2 * fine[hp[0]]
        side = np.abs(Y[lo[0]:]).max()
        if tw > 5 * d and side < 0.39 and not (c["sr"] and np.ptp(l2) < 0.2 * l2.max()):
            check(0.7 * tw < got < 1.4 * tw, lambda: "measured FWHM %r, half-power width of the RMSF %.6g" % (got, tw))
    # highest local maximum beyond the main lobe
    pk = 1 + np.where((A[1:-1] > A[:-2] * (1 + 1e-9)) & (A[1:-1] > A[2:] * (1 + 1e-9)))[0]
    if len(pk) and A[pk].max() > 1e-6 and pk[np.argmax(A[pk])] <= k - 3 and A[k - 3 :].max() < 0.99 * A[pk].max():
        best = A[pk].max()
        v = value(txt, "First sidelobe FD and amplitude")
        mm = re.search(r"First sidelobe[^\n]*\n\s+" + NUM + r" % of peak", txt)
        check(mm is not None, "no sidelobe level in the report")
        lev = float(mm.group(1)) / 100
        check(near(lev, best, 2e-3), lambda: "sidelobe level %r, the highest on the positive side is %.6g" % (lev, best))
        i = pk[np.argmin(np.abs(x[pk] - v))]
        check(abs(x[i] - v) <= 6e-4 * abs(v) + 0.01 * d and A[i] >= best * (1 - 2e-3), lambda: "sidelobe position %r, the highest is at %.6g" % (v, x[pk][np.argmax(A[pk])]))
    # plotted curves and text
    check(len(lines) >= 3, "curves missing from the plot")
    for nm, fn in (("Stokes Q", np.real), ("Stokes U", np.imag), ("Amplitude", np.abs)):
        if nm in lines:
            px, py = lines[nm]
            E = fn(ref.rmsf(w, l2, px, l20))
            tol = 2e-5 + 6e-7 * np.abs(px).max() * np.abs(l2 - l20).max()
            check(np.abs(py - E).max() <= tol, lambda: "plotted %s is not that of the RMSF (off by %.3g)" % (nm, np.abs(py - E).max()))
            check(abs(px.max() - m) <= 2.01 * d and abs(px.min() + m) <= 2.01 * d, lambda: "plotted depths %g to %g, expected +-%g" % (px.min(), px.max(), m))
    mm = re.search(r"Lowest frequency/wavelength \[GHz/cm\]:\s*" + NUM + "/" + NUM, texts)
    if mm:
        check(near(float(mm.group(1)), f.min() / 1e9) and near(float(mm.group(2)), 100 * ref.C / f.min()), lambda: "lowest frequency and its wavelength: %s" % (mm.groups(),))
    mm = re.search(r"Highest frequency/wavelength \[GHz/cm\]:\s*" + NUM + "/" + NUM, texts)
    if mm:
        check(near(float(mm.group(1)), f.max() / 1e9) and near(float(mm.group(2)), 100 * ref.C / f.max()), lambda: "highest frequency and its wavelength: %s" % (mm.groups(),))
    mm = re.search(r"# of channels:\s*" + NUM, texts)
    if mm:
        check(float(mm.group(1)) == n, lambda: "%s channels, given %d" % (mm.group(1), n))
    return src in ("cols", "both", "wfile") or c["freq"]["kind"] != "lin"


@sub("refusals", st.fixed_dictionaries({"freq": freq_cases(4, 30, kinds=("lin", "gap")), "off": st.sampled_from([-3, -1, 1, 2, 20]), "two": st.booleans(), "none": st.booleans(), "seed": seeds}), quick=60, thorough=1500,
     rule="weight files of a different length than the channel list, and no channel source at all: must be refused without a report; non-trivial always")
def refusals(c):
    r = np.random.RandomState(c["seed"])
    f = freqs(c["freq"])
    n = len(f)
    k = n + c["off"]
    if k < 2:
        skip()
    with tempfile.TemporaryDirectory() as t:
        p, q = os.path.join(t, "f.dat"), os.path.join(t, "w.dat")
        np.savetxt(p, np.array([f, r.rand(n)]).T if c["two"] else f)
        np.savetxt(q, r.rand(k))
        out = io.StringIO()
        keep = sys.argv
        ok = False
        try:
            with quiet(out):
                sys.argv = ["rmtools_calcRMSF"] + ([] if c["none"] else [p, q])
                try:
                    K.main()
                    ok = True
                except (Exception, SystemExit):
                    pass
        finally:
            sys.argv = keep
            plt.close("all")
    check(not ok and "RMSF PROPERTIES" not in out.getvalue(), "a report for %s" % ("no channels" if c["none"] else "%d channels with %d weights" % (n, k)))
    return True


# the same at the size of survey data
sub("report_large", wider(st.fixed_dictionaries(cases), freq=freq_cases(100, 600, kinds=("lin", "gap", "jit", "rand"))), quick=48, thorough=400, min_shard=2,
    rule="as report, with hundreds of channels; non-trivial as there")(report)
