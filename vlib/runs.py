"""Generated command lines of the tools, run in a folder, and the comparison of their products."""
import contextlib
import json
import os
import re

import numpy as np
from astropy.io import fits as pf
from matplotlib.figure import Figure

from vlib.clilib import call, serial_pools, state

from RMtools_1D import calculate_RMSF, clean_model, do_RMclean_1D, do_RMsynth_1D, do_RMsynth_1D_fromFITS, mk_test_ascii_data, rmtools_bwdepol, rmtools_bwpredict
from RMtools_3D import RMpeakfit_3D, assemble_chunks, create_chunks, do_fitIcube, do_RMclean_3D, do_RMsynth_3D, extract_region, make_freq_file, mk_test_cube_data, rescale_I_model_3D



def image(r, n, ny, nx, f, pos=False, four=False, unit=None):
    h = pf.Header()
    ax = [("RA---TAN", 30.0, -0.01), ("DEC--TAN", -20.0, 0.01), ("FREQ", f[0], f[1] - f[0])] + ([("STOKES", 1.0, 1.0)] if four else [])
    for i, (k, v, d) in enumerate(ax, 1):
        h["CTYPE%d" % i], h["CRVAL%d" % i], h["CRPIX%d" % i], h["CDELT%d" % i] = k, v, 1.0, d
    if unit:
        h["BUNIT"] = unit
    a = (r.randn(n, ny, nx) + (20 * (f / f[0])[:, None, None] ** -0.7 if pos else 0)).astype("f4")
    return pf.PrimaryHDU(a[None] if four else a, h)


class Run:
    """A set of command lines: inputs(folder, seed) writes the data, steps is a list of (tool, arguments as a function of the path writer)."""

    def __init__(self, c):
        self.c, self.r = c, np.random.RandomState(c["seed"])
        getattr(self, c["what"])()

    def opt(self, *opts):
        """Some of the options."""
        out = []
        for o in opts:
            if self.r.rand() < 0.4:
                out += o if isinstance(o, list) else [o]
        return out

    def freqs(self):
        c = self.c
        return 1e9 + 3e7 * np.arange(c["n"])

    def oned(self):
        c, stem = self.c, self.c["stem"]
        I = self.r.rand() < 0.5
        bw = c["what"] == "bwdepol"

        def inputs(d, seed):
            r = np.random.RandomState(seed)
            f = self.freqs() + 4e6 * r.rand(c["n"])
            p = 6 * np.exp(2j * (r.rand() * 3 + r.uniform(-100, 100) * (3e8 / f) ** 2))
            cols = [f, p.real + r.randn(c["n"]), p.imag + r.randn(c["n"]), 0.1 + r.rand(c["n"]), 0.1 + r.rand(c["n"])]
            if I:
                cols[1:1], cols[4:4] = [20 * (f / f[0]) ** -0.8 + r.rand(c["n"])], [0.5 + r.rand(c["n"])]
            np.savetxt(os.path.join(d, stem + ".dat"), np.array(cols).T)

        self.inputs = inputs
        dat = stem + ".dat"
        o = ["-l", 600, "-d", 30, "-S", "-o", 1] + self.opt("-t", "-i", ["-w", "uniform"], ["-U", "mJy"], "-D") + ([] if bw else self.opt("-b"))
        if bw:
            self.steps = [(rmtools_bwdepol, lambda P: [P(dat)] + o)]
        else:
            k = self.opt("-r", ["-f", "linear"])
            cl = ["-c", 0.7, "-n", 8, "-S"] + self.opt(["-g", 0.2], ["-w", 1.0])
            self.steps = [(do_RMsynth_1D, lambda P: [P(dat)] + o + k), (do_RMclean_1D, lambda P: [P(dat)] + cl), (clean_model, lambda P: [P(dat), P(stem + "_RMsynth.json"), P(stem + "_FDFmodel.dat"), P("QUmodel.dat")])]

    bwdepol = oned

    def bwpredict(self):
        c = self.c

        def inputs(d, seed):
            r = np.random.RandomState(seed)
            np.savetxt(os.path.join(d, "f.dat"), self.freqs() + 4e6 * r.rand(c["n"]))

        self.inputs = inputs
        self.steps = [(rmtools_bwpredict, lambda P: [P("f.dat"), "-l", 200, "-d", 20, "-f", P("plot.png")])]

    def calc(self):
        c = self.c
        w = self.r.rand() < 0.5

        def inputs(d, seed):
            r = np.random.RandomState(seed)
            np.savetxt(os.path.join(d, "f.dat"), self.freqs() + 4e6 * r.rand(c["n"]))
            np.savetxt(os.path.join(d, "w.dat"), 0.5 + r.rand(c["n"]))

        self.inputs = inputs
        self.steps = [(calculate_RMSF, lambda P: [P("f.dat")] + ([P("w.dat")] if w else []) + ["-m", 100, "-d", 20, "-s", P("out.png")])]

    def cubes(self):
        c = self.c
        four, unit, I = self.r.rand() < 0.3, [None, "Jy/beam"][self.r.randint(2)], self.r.rand() < 0.5

        def inputs(d, seed):
            r = np.random.RandomState(seed)
            f = self.freqs()
            for k in "QUI":
                image(r, c["n"], c["ny"], c["nx"], f, k == "I", four, unit).writeto(os.path.join(d, k + c["stem"] + ".fits"), overwrite=True)
            np.savetxt(os.path.join(d, "f.dat"), f + 1e6 * r.rand(c["n"]))
            np.savetxt(os.path.join(d, "n.dat"), 0.5 + r.rand(c["n"]))

        self.inputs = inputs
        return ["%s%s.fits" % (k, c["stem"]) for k in "QUI"], I

    def three(self):
        (q, u, i), I = self.cubes()
        pre = ["", "run_", "a.1_", "my_FDF_"][self.r.randint(4)]
        o = ["-l", 100, "-d", 15] + (["-o", pre] if pre else []) + self.opt("-t") + (["-f"] if self.r.rand() < 0.4 else [])
        k = ["-c", 0.7, "-n", 5] + self.opt(["-g", 0.3], "-f")
        out = [pre, "cl_"][self.r.randint(2)]
        pk = ["pk_", "", "maps/p_", "p"][self.r.randint(4)]
        po = [[], ["-a"], ["-p"]][self.r.randint(3)]
        nz = ["-n", "n.dat"] if self.c["wt"] else []
        wt = self.opt(["-w", "variance"]) if nz else []
        src = pre + ["FDF_real_dirty.fits", "FDF_tot_dirty.fits"][self.r.randint(2)] if out != pre or "-f" in k else pre + "FDF_clean_tot.fits"
        name = lambda P, o: [P(x) if x == "n.dat" else x for x in o]
        self.steps = [(do_RMsynth_3D, lambda P: [P(q), P(u), P("f.dat")] + o + (["-i", P(i)] if I else []) + name(P, nz) + wt)]
        if "-f" not in o:
            self.steps += [(do_RMclean_3D, lambda P: [P(pre + "FDF_tot_dirty.fits"), P(pre + "RMSF_tot.fits"), "-o", out] + k),
                           (RMpeakfit_3D, lambda P: [P(src), P("f.dat"), P(pk) or "./"] + po + ["-i", P(i)] + name(P, nz) + wt)]

    def icube(self):
        (q, u, i), I = self.cubes()
        o = ["-p", [2, 1, -2][self.r.randint(3)], "-f", ["log", "linear"][self.r.randint(2)]] + self.opt("-m", ["-t", -3], ["-t", 5]) + self.opt(["-o", "my_"])
        pre = "my_" if "my_" in o else ""
        ff = self.r.rand() < 0.5
        od = self.r.rand() < 0.3
        out = "sub" if od else ""
        self.folders = ["sub"] if od else []
        self.steps = [(do_fitIcube, lambda P: [P(i)] + (["-freqFile", P("f.dat")] if ff else []) + o + (["-odir", P("sub")] if od else [])),
                      (rescale_I_model_3D.command_line, lambda P: [P(os.path.join(out, pre + "covariance.fits")), "-f", 1.2e9, "-w"] + (["-o", P("new_")] if self.c["wt"] else []))]

    def fits1(self):
        (q, u, i), I = self.cubes()
        c = self.c
        x, y = self.r.randint(c["nx"]) + 1, self.r.randint(c["ny"]) + 1
        o = ["-l", 100, "-d", 20, "-S"] + self.opt("-t", "-b", ["-U", "mJy"], ["-w", "uniform"], "-r")
        self.steps = [(do_RMsynth_1D_fromFITS, lambda P: [P(q), P(u), x, y] + o + (["-I", P(i), "-o", 1] if I else []))]

    def boxes(self):
        (q, u, i), I = self.cubes()
        c = self.c
        x, y = self.r.randint(c["nx"]) + 1, self.r.randint(c["ny"]) + 1
        z = ["-z", 1, c["n"] - 1] if self.r.rand() < 0.5 else []
        self.steps = [(extract_region, lambda P: [P(q), P("cut.fits"), x, c["nx"], y, c["ny"], "-o"] + z), (make_freq_file.save_freq_file, lambda P: [P("cut.fits"), P("cut_f.dat")])]

    def chunks(self):
        (q, u, i), I = self.cubes()
        c = self.c
        k = self.r.randint(1, c["nx"] * c["ny"] + 1)
        m = self.opt("-m")
        pre = ["", "ch", "c.1", "b_"][self.r.randint(4)]
        nch = -(-c["nx"] * c["ny"] // k)
        one = "%s.C%0*d.fits" % (pre or q[:-5], max(len(str(nch)) - (str(nch) == "1" + "0" * (len(str(nch)) - 1) and nch > 1), 1), self.r.randint(nch))
        self.steps = [(create_chunks, lambda P: [P(q), k] + (["-p", P(pre)] if pre else []) + m), (assemble_chunks, lambda P: [P(one), "-o", "-f", P("whole.fits")] + m)]
        self.digits = one

    def made1(self):
        c = self.c
        nz = self.r.rand() < 0.5
        fl = self.opt(["-l", "1.1e9,1.2e9"])

        def inputs(d, seed):
            catalogue(d, seed)

        self.inputs = inputs
        out = ["made", "made/two", "m.1"][self.r.randint(3)]
        self.steps = [(mk_test_ascii_data, lambda P: [P("cat.csv"), P(out), "-f", 1000, 1500, "-c", c["n"] + 4, "-n", 0.1] + (["-t", P("noise.txt")] if nz else []) + fl)]

    def made3(self):
        nz = self.r.rand() < 0.5
        fl = self.opt(["-f", "1.1e9,1.2e9"])

        def inputs(d, seed):
            catalogue(d, seed)

        self.inputs = inputs
        out = ["made", "made/two", "m.1"][self.r.randint(3)]
        self.steps = [(mk_test_cube_data, lambda P: [P("cat.csv"), P(out)] + (["-n", P("noise.txt")] if nz else []) + fl)]


def catalogue(d, seed):
    r = np.random.RandomState(seed)
    with open(os.path.join(d, "cat.csv"), "w") as g:
        g.write("# sources\n")
        for i in range(r.randint(1, 4)):
            pre = [1] + [90.0 + 0.01 * r.randn(), 0.01 * r.randn(), 3, 2, 20] + [5 + r.rand(), -0.7]
            comp = [180 * r.rand(), 0.5 * r.rand(), 50 * r.randn(), r.rand()]
            g.write(", ".join("%.5f" % x if j else "%d" % x for j, x in enumerate(pre + comp)) + "\n")
    np.savetxt(os.path.join(d, "noise.txt"), np.array([np.linspace(0.5e9, 3e9, 9), 0.5 + r.rand(9)]).T)


def lines(fig, name, *a, **k):
    """Stand-in for saving a figure (most of the cost otherwise): the curves it shows, as text."""
    with open(name, "w") as g:
        g.write("figure\n")
        for i, ax in enumerate(fig.axes):
            for l in ax.lines:
                x, y = (np.ma.filled(np.ma.asarray(v, float), np.nan).ravel() for v in l.get_data(orig=True))
                for v in (x, y):
                    v = v[np.isfinite(v)]
                    g.write("%d %d %.8g %.8g\n" % ((i, len(v), v.min(), v.max()) if len(v) else (i, 0, 0, 0)))


@contextlib.contextmanager
def small(fig):
    """Serial workers, small test cubes and, if wanted, no real figures."""
    keep = [(Figure, "savefig", Figure.savefig)]
    for k, v in (("nChans", 6), ("nPixX", 7), ("nPixY", 5)):
        if hasattr(mk_test_cube_data, k):
            keep.append((mk_test_cube_data, k, getattr(mk_test_cube_data, k)))
            setattr(mk_test_cube_data, k, v)
    if not fig:
        Figure.savefig = lines
    try:
        with serial_pools(do_fitIcube, rescale_I_model_3D):
            yield
    finally:
        for m, k, v in keep:
            setattr(m, k, v)


def writer(style, root, d):
    """Working folder and path writer of a style, for the data folder d below root."""
    name = os.path.basename(d)
    if style == "abs":
        w = os.path.join(root, "elsewhere")
        return w, lambda x: os.path.join(d, x)
    if style == "name":
        return d, lambda x: x
    if style == "dot":
        return d, lambda x: "./" + x
    if style == "sub":
        return root, lambda x: os.path.join(name, x)
    return os.path.join(root, "elsewhere"), lambda x: os.path.join("..", name, x)


def execute(run, style, root, d, seed=5):
    """Run the steps; the reason of the first refusal, or None."""
    cwd, P = writer(style, root, d)
    old = os.getcwd()
    os.chdir(cwd)
    try:
        for mod, args in run.steps:
            why = []
            np.random.seed(seed)
            if not call(mod, args(P), why):
                return "%s: %s" % (getattr(mod, "__name__", mod), why[0])
    finally:
        os.chdir(old)


def numbers(s):
    out = []
    for x in re.split(r"[\s,=]+", s.strip()):
        try:
            out.append(float(x))
        except ValueError:
            out.append(x)
    return out


def near(a, b, tol=2e-4):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype.kind != b.dtype.kind:
        return False
    if a.dtype.kind not in "fciub":
        return bool(np.all(a == b))
    if not a.size:
        return True
    with np.errstate(all="ignore"):
        m = np.nanmax(np.abs(np.where(np.isfinite(a), a, 0)))
        return bool(np.all(np.isclose(a, b, rtol=tol, atol=tol * m, equal_nan=True)))


def jnear(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(jnear(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(jnear(x, y) for x, y in zip(a, b))
    if isinstance(a, str) or a is None or isinstance(a, bool):
        return a == b
    return not isinstance(b, (str, dict, list)) and b is not None and (a == b or (a != a and b != b) or abs(a - b) <= 2e-4 * abs(a) + 1e-9)


def differ(x, y):
    """What is different between two products, or None."""
    if x.endswith((".pdf", ".png")):
        if open(x, "rb").read(6) == b"figure":
            return None if near(*(np.loadtxt(k, skiprows=1, ndmin=2) for k in (x, y)), 1e-3) else "curves"
        return None if open(y, "rb").read(2) in (b"%P", b"\x89P") else "no figure"
    if x.endswith(".fits"):
        with pf.open(x) as a, pf.open(y) as b:
            if len(a) != len(b):
                return "extensions"
            for p, q in zip(a, b):
                if p.data is not None:
                    for k in p.columns.names if p.data.dtype.names else [None]:
                        if not near(p.data[k] if k else p.data, q.data[k] if k else q.data):
                            return "data"
                for k in set(p.header) | set(q.header):
                    if k not in ("DATE", "HISTORY", "COMMENT", "CHECKSUM", "DATASUM", ""):
                        u, v = p.header.get(k), q.header.get(k)
                        if u != v and not (isinstance(u, float) and isinstance(v, float) and near([u], [v])):
                            return "%s = %s, %s" % (k, u, v)
        return None
    s, t = open(x, errors="replace").read(), open(y, errors="replace").read()
    if s == t:
        return None
    if x.endswith(".json"):
        return None if jnear(json.loads(s), json.loads(t)) else "values"
    a, b = [numbers(l) for l in s.splitlines()], [numbers(l) for l in t.splitlines()]
    if [[isinstance(v, str) and v for v in l] for l in a] != [[isinstance(v, str) and v for v in l] for l in b]:
        return "text"
    cols = {}
    for l, m in zip(a, b):
        for j, (v, w) in enumerate(zip(l, m)):
            if not isinstance(v, str):
                cols.setdefault((len(l), j), ([], []))[0].append(v)
                cols[len(l), j][1].append(w)
    return next(("column %d" % k[1] for k, (v, w) in cols.items() if not near(v, w)), None)


def below(d):
    return {os.path.relpath(k, d): v for k, v in state(d).items()}
