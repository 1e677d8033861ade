"""C16: 1D products saved to disk read back as the same data.

Technique: property-based round-trip testing of the 1D result files, differential testing of RM-CLEAN from files against RM-CLEAN in memory, and of the command-line tools against the library calls, on generated spectra, options and file names
Assurance: exploration of generated inputs; no proof
"""
import json
import os
import sys
import tempfile

import numpy as np
from hypothesis import strategies as st

from vlib.gen import freq_cases, freqs, l2_of, seeds, thin, wider
from vlib.harness import check, skip, sub

from RMtools_1D import do_RMclean_1D as C1
from RMtools_1D import do_RMsynth_1D as S1

ASSUMPTIONS = ["prefixes name existing directories"]

gen = {
    "freq": freq_cases(6, 40, kinds=("lin", "gap", "jit", "desc")), "cols": st.sampled_from([5, 7, 7]), "bits": st.sampled_from([32, 64]), "noI": st.booleans(), "model": st.booleans(),
    "ff": st.sampled_from(["log", "linear"]), "ord": st.sampled_from([0, 1, 2, -2]), "w": st.sampled_from(["variance", "uniform"]), "fit": st.booleans(), "nan": st.sampled_from([0, 0, 1, 3]),
    "pre": st.sampled_from(["x", "src_FDFdirty", "a.b.dat", "out.dir/s=1", "_RMSF", "name with blank"]), "amp": st.sampled_from([1e-6, 1e-3, 1.0, 3e4]), "half": st.integers(8, 40),
    "cut": st.sampled_from([-3.0, -8.0, 0.05]), "win": st.sampled_from([None, None, -1.5, 0.02]), "seed": seeds,
}


def source(c):
    r = np.random.RandomState(c["seed"])
    f = freqs(c["freq"])
    l2 = l2_of(f)
    n = len(f)
    fw = 3.8 / np.ptp(l2)
    p = thin(l2, r.uniform(0.1, 0.7), 180 * r.rand(), r.uniform(-1, 1) * c["half"] / 4 * fw)
    # different sizes of all three errors, so that a swapped column is visible
    dI, dQ, dU = (s * (0.7 + 0.6 * r.rand(n)) for s in (0.004, 0.02, 0.05))
    I = (f / f.mean()) ** -0.7
    if c["cols"] == 5:
        I = np.ones(n)
    amp = c["amp"] if c["cols"] == 7 else 1.0
    Q, U = I * p.real + dQ * r.randn(n), I * p.imag + dU * r.randn(n)
    I = I + dI * r.randn(n) if c["cols"] == 7 else I
    for k in range(min(c["nan"], n - 4)):
        (Q, U)[k % 2][r.randint(n)] = np.nan
    cols = [f, I * amp, Q * amp, U * amp, dI * amp, dQ * amp, dU * amp] if c["cols"] == 7 else [f, Q, U, dQ, dU]
    return r, f, n, fw, cols


def options(c, fw, f, amp):
    kw = dict(polyOrd=c["ord"], phiMax_radm2=c["half"] * fw / 4, dPhi_radm2=fw / 4, weightType=c["w"], fitRMSF=c["fit"], noStokesI=c["noI"] or c["cols"] == 5, nBits=c["bits"], fit_function=c["ff"])
    return kw


def number(x):
    try:
        return float(x)
    except ValueError:
        return x


def equal(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return str(a) == str(b)
    return (a != a and b != b) or a == b


def table(fn, cols, what, exact=True):
    t = np.loadtxt(fn, ndmin=2)
    check(t.shape == (len(cols[0]), len(cols)), lambda: "%s: %s values in the file, %s in memory" % (what, t.shape, (len(cols[0]), len(cols))))
    for k, x in enumerate(cols):
        x = np.asarray(x, float)
        bad = ~((t[:, k] == x) | (np.isnan(x) & np.isnan(t[:, k])) | (np.abs(t[:, k] - x) <= (0 if exact else 1e-6) * np.abs(x)))
        check(not bad.any(), lambda: "%s: column %d differs from memory" % (what, k + 1))


def keyvals(pre, suf, m, what):
    d = {}
    for line in open(pre + suf + ".dat"):
        k, v = line.rstrip("\n").split("=", 1)
        check(k not in d, "%s.dat: key %s twice" % (what, k))
        d[k] = v
    j = json.load(open(pre + suf + ".json"))
    for name, x in ((".dat", {k: number(v) for k, v in d.items()}), (".json", j)):
        check(set(x) == set(m), lambda: "%s%s: keys %s" % (what, name, sorted(set(x) ^ set(m))))
        for k in m:
            v = m[k].item() if isinstance(m[k], (np.generic, np.ndarray)) else m[k]
            if v is None or isinstance(v, bool):
                v = str(v) if name == ".dat" else v
            w = x[k]
            ok = equal(w, v) or (isinstance(m[k], np.float32) and equal(np.float32(w), m[k]))
            if not ok and isinstance(v, str):
                ok = number(v) == w
            check(ok, lambda: "%s%s: %s is %r, in memory %r" % (what, name, k, w, v))


def close(a, b, what, tol=1e-6, skipkeys=()):
    check(set(a) == set(b), lambda: "%s: keys %s" % (what, sorted(set(a) ^ set(b))))
    for k in a:
        if k in skipkeys:
            continue
        x, y = a[k], b[k]
        if isinstance(x, str) or x is None:
            check(x == y, lambda: "%s: %s is %r and %r" % (what, k, x, y))
        else:
            x, y = np.asarray(x), np.asarray(y)
            check(x.shape == y.shape, "%s: shape of %s" % (what, k))
            ok = (x == y) | ((x != x) & (y != y)) | (np.abs(x - y) <= tol * np.nanmax(np.abs(np.r_[y.ravel(), 1e-300])))
            check(ok.all(), lambda: "%s: %s is %r and %r" % (what, k, x, y))


@sub("library", st.fixed_dictionaries(gen), quick=250, thorough=6000,
     rule="RM synthesis and RM-CLEAN results saved and read back for 5/7-column spectra, precisions, NaNs, scales and odd prefixes, RM-CLEAN from the files against RM-CLEAN in memory; non-trivial when something was cleaned")
def library(c):
    r, f, n, fw, cols = source(c)
    kw = options(c, fw, f, c["amp"])
    mod = None
    if c["model"] and c["cols"] == 7 and not kw["noStokesI"]:
        mod = c["amp"] * (f / f.mean()) ** -0.65
    with tempfile.TemporaryDirectory() as t:
        os.mkdir(os.path.join(t, "out.dir"))
        pre = os.path.join(t, c["pre"])
        np.savetxt(os.path.join(t, "in.dat"), np.array(cols).T)
        back = S1.readFile(os.path.join(t, "in.dat"), 64, verbose=False)
        check(len(back) == c["cols"] and all(np.array_equal(x, y, equal_nan=True) for x, y in zip(back, cols)), "the input columns read back differently")
        b32 = S1.readFile(os.path.join(t, "in.dat"), 32, verbose=False)
        check(all(x.dtype == np.float32 and np.allclose(x, y, rtol=2e-7, equal_nan=True) for x, y in zip(b32, cols)), "the input columns read back differently in single precision")
        m, a = S1.run_rmsynth([x.copy() for x in cols], modStokesI=mod, **kw)
        m0, a0 = dict(m), {k: v.copy() for k, v in a.items()}
        S1.saveOutput(m, a, pre, False)
        for k in a0:
            check(np.array_equal(a0[k], a[k], equal_nan=True), "saving changed %s in memory" % k)
        table(pre + "_FDFdirty.dat", [a0["phiArr_radm2"], a0["dirtyFDF"].real, a0["dirtyFDF"].imag], "_FDFdirty.dat")
        table(pre + "_RMSF.dat", [a0["phi2Arr_radm2"], a0["RMSFArr"].real, a0["RMSFArr"].imag], "_RMSF.dat")
        table(pre + "_weight.dat", [a0["freqArr_Hz"], a0["weightArr"]], "_weight.dat")
        keyvals(pre, "_RMsynth", m0, "_RMsynth")
        m1, a1 = C1.readFiles(pre + "_FDFdirty.dat", pre + "_RMSF.dat", pre + "_weight.dat", pre + "_RMsynth.json", c["bits"])
        check(set(a1) == set(a0), "arrays read back: %s" % sorted(a1))
        for k in a0:
            check(a1[k].dtype == a0[k].dtype and np.array_equal(a1[k], a0[k], equal_nan=True), "RM-CLEAN reads another %s than RM synthesis wrote" % k)
        ck = dict(cutoff=c["cut"] if c["cut"] < 0 else c["cut"] * c["amp"], maxIter=200, gain=0.1, nBits=c["bits"], window=c["win"] if c["win"] is None or c["win"] < 0 else c["win"] * c["amp"])
        mc, ac = C1.run_rmclean(dict(m0), {k: v.copy() for k, v in a0.items()}, **ck)
        md, ad = C1.run_rmclean(m1, a1, **ck)
        close(md, mc, "RM-CLEAN results from files and from memory")
        close(ad, ac, "RM-CLEAN arrays from files and from memory")
        k0, mc0 = {k: np.array(v) for k, v in ac.items()}, dict(mc)
        C1.saveOutput(mc, ac, pre, False)
        table(pre + "_FDFclean.dat", [k0["phiArr_radm2"], k0["cleanFDF"].real, k0["cleanFDF"].imag], "_FDFclean.dat")
        table(pre + "_FDFmodel.dat", [k0["phiArr_radm2"], k0["ccArr"].real, k0["ccArr"].imag], "_FDFmodel.dat")
        keyvals(pre, "_RMclean", mc0, "_RMclean")
    return mc0["nIter"] > 0


def call(mod, args):
    old = sys.argv
    sys.argv = ["tool"] + [str(x) for x in args]
    try:
        mod.main()
    finally:
        sys.argv = old


@sub("cli", st.fixed_dictionaries(dict(gen, model=st.just(False), super=st.booleans(), ns=st.sampled_from([None, None, 3, 7.5]), pre=st.sampled_from(["x", "my.src", "s_1"]))), quick=40, thorough=1500,
     rule="the command-line tools run on an ASCII file with generated options against the library calls with the same options; the noise and polarised fraction identify each column; non-trivial always")
def cli(c):
    r, f, n, fw, cols = source(c)
    kw = options(c, fw, f, c["amp"])
    if c["ns"] is not None:
        kw.update(dPhi_radm2=None, nSamples=c["ns"])
    with tempfile.TemporaryDirectory() as t:
        d = os.path.join(t, c["pre"] + ".dat")
        np.savetxt(d, np.array(cols).T, header="freq ...")
        args = [d, "-S", "-o", c["ord"], "-l", repr(kw["phiMax_radm2"]), *(["-d", repr(kw["dPhi_radm2"])] if c["ns"] is None else ["-s", c["ns"]]), "-w", c["w"], "-f", c["ff"], "-U", "mJy"]
        args += ["-t"] * c["fit"] + ["-i"] * c["noI"] + ["-b"] * (c["bits"] == 64) + ["-r"] * c["super"]
        import matplotlib.pyplot as plt

        plt.Figure.savefig = lambda *a, **k: None  # figures are not judged
        call(S1, args)
        pre = os.path.join(t, c["pre"])
        m, a = S1.run_rmsynth(S1.readFile(d, c["bits"], verbose=False), units="mJy", super_resolution=c["super"], **dict(kw, noStokesI=c["noI"]))
        j = json.load(open(pre + "_RMsynth.json"))
        close(j, m, "command-line and library RM synthesis")
        table(pre + "_FDFdirty.dat", [a["phiArr_radm2"], a["dirtyFDF"].real, a["dirtyFDF"].imag], "_FDFdirty.dat", False)
        # which column is which: theoretical noise and median noise use Q and U errors only
        dq, du = cols[-2], cols[-1]
        check(abs(j["dQU"] - np.median((dq + du) / 2)) <= 1e-6 * j["dQU"], "dQU is not the median of the mean Q and U errors")
        call(C1, [d, "-S", "-c", c["cut"] if c["cut"] < 0 else c["cut"] * c["amp"], "-n", 150, "-g", 0.15] + ([] if c["win"] is None else ["-w", c["win"] if c["win"] < 0 else c["win"] * c["amp"]]))
        m1, a1 = C1.readFiles(*[pre + x for x in ("_FDFdirty.dat", "_RMSF.dat", "_weight.dat", "_RMsynth.json")], 32)
        m2, a2 = C1.run_rmclean(m1, a1, c["cut"] if c["cut"] < 0 else c["cut"] * c["amp"], 150, 0.15, 32, window=c["win"] if c["win"] is None or c["win"] < 0 else c["win"] * c["amp"])
        close(json.load(open(pre + "_RMclean.json")), m2, "command-line and library RM-CLEAN")
        table(pre + "_FDFclean.dat", [a2["phiArr_radm2"], a2["cleanFDF"].real, a2["cleanFDF"].imag], "_FDFclean.dat", False)
        table(pre + "_FDFmodel.dat", [a2["phiArr_radm2"], a2["ccArr"].real, a2["ccArr"].imag], "_FDFmodel.dat", False)
    return True


# the same at the size of survey data
sub("library_large", wider(st.fixed_dictionaries(gen), freq=freq_cases(100, 400, kinds=("lin", "gap", "jit", "desc")), half=st.integers(100, 600)), quick=30, thorough=200, min_shard=1,
    rule="as library, with hundreds of channels and depths; non-trivial as there")(library)
