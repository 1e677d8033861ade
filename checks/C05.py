"""C05: RM-CLEAN stopping rule, step rule and independence of how work is split.

Technique: property-based testing over histories: each run is compared with the run allowed one more iteration (step rule), stopping invariants, closed-form decay of an isolated source, and differential runs over pools, chunk sizes, pixel orders and neighbours
Assurance: exploration of generated inputs, iteration limits and work splits; no proof
"""
import numpy as np
from hypothesis import strategies as st

from vlib import ref
from vlib.cleanlib import build, clean_cases, flat
from vlib.gen import freq_cases, freqs, l2_of, seeds, wider
from vlib.harness import check, skip, sub

from RMutils.util_RM import do_rmclean_hogbom

ASSUMPTIONS = ["cutoff > 0", "single-precision FDFs may stop within 1e-5 of the cutoff", "multiprocessing pools are those of schwimmbad (the one the tool uses) on this machine; MPI is not available"]


def run(F, b, R, fw, c, maxit, win, **kw):
    return [np.asarray(x) for x in do_rmclean_hogbom(F.copy(), b["phi"], R.copy(), b["phi2"], fw, b["cutoff"], maxIter=maxit, gain=c["gain"], window=win, **kw)]


@sub("step", clean_cases([[]], upto=st.integers(1, 12)), quick=1800, thorough=20000,
     rule="a spectrum cleaned with iteration limits 0..N: each extra iteration must add exactly gain*(current strongest sample) there, until nothing exceeds the cutoff; non-trivial when >=2 iterations happened")
def step(c):
    b = build(c)
    F, R = b["F"], b["R"]
    n = len(b["phi"])
    prev_cc, prev_res = np.zeros(n, complex), F.copy()
    done = 0
    for k in range(1, c["upto"] + 1):
        clean, cc, it, res = run(F, b, R, b["fw"], c, k, np.nan)
        a = np.abs(prev_res)
        top = a.max()
        if top < b["cutoff"] * (1 - 1e-5):
            check(int(it) == done and np.array_equal(cc, prev_cc), lambda: "iteration %d took place although nothing exceeds the cutoff (%.6g < %.6g)" % (k, top, b["cutoff"]))
            check(np.array_equal(res, prev_res), "residual changes after the stop")
            break
        if top < b["cutoff"] * (1 + 1e-5):
            break
        check(int(it) == k, lambda: "limit %d: %d iterations although the residual peak %.4g exceeds the cutoff %.4g" % (k, it, top, b["cutoff"]))
        # the step is read off the residual change (components that cancel cannot hide in it)
        d = np.asarray(cc, complex) - prev_cc
        tol = 1e-6 * (np.abs(cc).max() + top)
        i = int(np.abs(d).argmax())
        check(np.all(np.abs(np.delete(d, i)) <= tol), "one iteration changed more than one component")
        check(a[i] >= top * (1 - 1e-4), lambda: "iteration %d put a component at sample %d (|residual| %.5g) but the strongest sample is %.5g" % (k, i, a[i], top))
        check(abs(d[i] - c["gain"] * prev_res[i]) <= 1e-4 * c["gain"] * top + tol, lambda: "component %s is not gain*residual %s" % (d[i], c["gain"] * prev_res[i]))
        prev_cc, prev_res, done = cc, res, k
    return done >= 2


@sub("stop", clean_cases([[], [3], [2, 2]], window=st.sampled_from([None, None, 0.02, 0.1, 0.3])), quick=6000, thorough=20000,
     rule="stopping condition per pixel with and without a deeper window; non-trivial when some pixel was cleaned and (without window) stopped by the cutoff, or (with window) was cleaned in the window")
def stop(c):
    b = build(c)
    n = len(b["phi"])
    win = np.nan if c["window"] is None else c["window"] * c["scale"]
    clean, cc, it, res = run(b["F"], b, b["R"], b["fw"], c, c["maxit"], win)
    F, cc, res, it = flat(b["F"], n), flat(cc, n), flat(res, n), it.reshape(-1)
    fws = b["fw"].reshape(-1)
    if c["window"] is None:
        d = do_rmclean_hogbom(b["F"].copy(), b["phi"], b["R"].copy(), b["phi2"], b["fw"], b["cutoff"], maxIter=c["maxit"], gain=c["gain"])
        check(np.array_equal(np.asarray(d.iterCountArr).reshape(-1), it), "without a window threshold the clean goes on below the cutoff")
    else:
        _, c1, i1, r1 = run(b["F"], b, b["R"], b["fw"], c, c["maxit"], np.nan)
        c1, i1 = flat(c1, n), i1.reshape(-1)
    nt = False
    for k in range(b["npix"]):
        if not it[k]:
            continue
        check(it[k] <= c["maxit"], "more iterations than allowed")
        a = np.abs(res[:, k])
        if c["window"] is None:
            check(it[k] == c["maxit"] or a.max() < b["cutoff"] * (1 + 1e-5), lambda: "stopped after %d of %d iterations with residual %.5g above the cutoff %.5g" % (it[k], c["maxit"], a.max(), b["cutoff"]))
            nt |= it[k] < c["maxit"]
            continue
        first = np.nonzero(c1[:, k])[0]
        half = fws[k] / b["dphi"] / 2
        dist = np.abs(np.arange(n)[:, None] - first[None, :]).min(1)
        check(it[k] >= i1[k], "the windowed clean made fewer iterations than the first stage")
        extra = np.nonzero((np.abs(cc[:, k] - c1[:, k]) > 0) & (dist > half + 1))[0]
        check(len(extra) == 0, lambda: "windowed clean put components at samples %s, farther than half a width (%.1f) from the first-stage components %s" % (extra, half, first))
        if it[k] < c["maxit"]:
            inside = dist <= max(0, half - 1.001)
            check(a[inside].max() < win * (1 + 1e-5), lambda: "windowed clean stopped after %d of %d iterations with residual %.5g inside the window above its threshold %.5g" % (it[k], c["maxit"], a[inside].max(), win))
        nt |= it[k] > i1[k]
    return nt


decay_case = st.fixed_dictionaries({"freq": freq_cases(8, 40, kinds=("lin", "gap", "jit")), "half": st.integers(5, 40), "os": st.sampled_from([3.0, 6.0]), "pos": st.integers(-1000, 1000),
                                    "gain": st.floats(0.02, 1.0), "k": st.integers(1, 25), "seed": seeds})


@sub("decay", decay_case, quick=500, thorough=8000,
     rule="noise-free on-grid source: after k iterations the residual is (1-gain)^k times the dirty spectrum; non-trivial when k>=2 and gain<1")
def decay(c):
    r = np.random.RandomState(c["seed"])
    l2 = l2_of(freqs(c["freq"]))
    d = 3.8 / np.ptp(l2) / c["os"]
    nphi = 2 * c["half"] + 1
    phi = (np.arange(nphi) - c["half"]) * d
    phi2 = (np.arange(2 * nphi + 1) - nphi) * d
    w = r.rand(len(l2)) + 0.3
    l20 = ref.lam0(w, l2)
    i = c["pos"] % nphi
    amp = r.uniform(0.5, 2) * np.exp(2j * np.pi * r.rand())
    R = ref.rmsf(w, l2, phi2, l20)
    if np.sort(np.abs(R))[-2] > 0.999:
        skip()
    F = amp * ref.rmsf(w, l2, phi - phi[i], l20)
    clean, cc, it, res = [np.asarray(x) for x in do_rmclean_hogbom(F, phi, R, phi2, np.array(3.8 / np.ptp(l2)), 1e-9, maxIter=c["k"], gain=c["gain"], window=np.nan)]
    fall = (1 - c["gain"]) ** int(it)
    check(int(it) == c["k"] or abs(amp) * fall < 2e-9, lambda: "%d iterations of %d" % (it, c["k"]))
    if fall < 1e-7:
        return False
    check(np.abs(res - fall * F).max() <= 1e-6 * abs(amp), lambda: "after %d iterations at gain %g the residual is not (1-gain)^k of the dirty spectrum (peak %.6g, expected %.6g)" % (it, c["gain"], np.abs(res).max(), fall * abs(amp)))
    check(abs(cc.sum() - amp * (1 - fall)) <= 1e-5 * abs(amp), "component sum is not amp*(1-(1-gain)^k)")
    return c["k"] >= 2 and c["gain"] < 0.999


split_case = clean_cases([[2], [5], [2, 3], [3, 1], [1, 4], [3, 3]], window=st.sampled_from([None, 0.05]), nan=st.booleans(), how=st.sampled_from(["alone", "perm", "neigh", "serialpool", "map"]))


@sub("split", split_case, quick=1000, thorough=12000,
     rule="each pixel cleaned alone, in permuted order, with changed/NaN neighbours, and through a serial pool, against the plain cube run (spectra, components and iteration counts equal); non-trivial when some pixel was cleaned")
def split(c):
    b = build(c)
    n, m = len(b["phi"]), len(b["phi2"])
    shape = tuple(c["shape"])
    F = b["F"].copy()
    fF = F.reshape(n, -1)
    if c["nan"]:
        fF[:, -1] = np.nan
    win = np.nan if c["window"] is None else c["window"] * c["scale"]
    base = run(F, b, b["R"], b["fw"], c, c["maxit"], win)
    cl, cc, it, rs = flat(base[0], n), flat(base[1], n), base[2].reshape(-1), flat(base[3], n)
    fR, fw = flat(b["R"], m), b["fw"].reshape(-1)

    def same(o, idx, what):
        o = [np.asarray(x) for x in o]
        x = [flat(o[0], n), flat(o[1], n), flat(o[3], n)]
        for nm, p, q in (("restored spectrum", x[0], cl[:, idx]), ("components", x[1], cc[:, idx]), ("residual", x[2], rs[:, idx])):
            check(p.shape == q.shape and np.allclose(p, q, rtol=0, atol=1e-5 * b["cutoff"], equal_nan=True), lambda: "%s differs when %s" % (nm, what))
        check(np.array_equal(o[2].reshape(-1), it[idx]), lambda: "iteration counts %s when %s, %s in the plain run" % (o[2].reshape(-1), what, it[idx]))

    idx = np.arange(b["npix"])
    how = c["how"]
    if how == "alone":
        for k in idx:
            same(run(fF[:, k], b, fR[:, k], np.array(fw[k]), c, c["maxit"], win), [k], "cleaned alone")
    elif how == "perm":
        p = b["r"].permutation(b["npix"])
        same(run(fF[:, p].reshape((n,) + shape), b, fR[:, p].reshape((m,) + shape), fw[p].reshape(shape), c, c["maxit"], win), p, "pixels are permuted")
    elif how == "neigh":
        k = b["r"].randint(b["npix"])
        G = b["r"].randn(*fF.shape) * b["cutoff"] * 3 + 1j * b["r"].randn(*fF.shape)
        G = G.astype(fF.dtype)
        G[:, 0] = np.nan
        G[:, k] = fF[:, k]
        o = run(G.reshape((n,) + shape), b, b["R"], b["fw"], c, c["maxit"], win)
        o = [flat(o[0], n)[:, [k]], flat(o[1], n)[:, [k]], o[2].reshape(-1)[[k]], flat(o[3], n)[:, [k]]]
        same(o, [k], "its neighbours change")
    else:
        from schwimmbad import SerialPool

        same(run(F, b, b["R"], b["fw"], c, c["maxit"], win, pool=SerialPool(), chunksize=None if how == "map" else 2), idx, "run through a serial pool")
    return bool(it.any())


pool_case = clean_cases([[5], [2, 3], [4, 4]], window=st.sampled_from([None, 0.05]), nproc=st.sampled_from([2, 3]), chunk=st.sampled_from([None, 1, 2, 3, 100]))


@sub("pool", pool_case, quick=60, thorough=400, min_shard=4,
     rule="the same cube cleaned serially and with a multiprocessing pool of 2-3 processes and various chunk sizes; non-trivial when some pixel was cleaned")
def pool(c):
    import schwimmbad

    b = build(c)
    win = np.nan if c["window"] is None else c["window"] * c["scale"]
    base = run(b["F"], b, b["R"], b["fw"], c, c["maxit"], win)
    p = schwimmbad.MultiPool(processes=c["nproc"])
    try:
        o = run(b["F"], b, b["R"], b["fw"], c, c["maxit"], win, pool=p, chunksize=c["chunk"])
    finally:
        p.terminate()
        p.join()
    for nm, x, y in zip(("restored spectrum", "components", "iteration counts", "residual"), o, base):
        check(x.shape == y.shape and np.allclose(x, y, rtol=0, atol=1e-5 * b["cutoff"], equal_nan=True), lambda: "%s differ between the serial run and %d processes with chunk size %s" % (nm, c["nproc"], c["chunk"]))
    return bool(base[2].any())


# the same at the size of survey data
big = dict(freq=freq_cases(100, 300, kinds=("lin", "gap", "jit", "rand")), half=st.integers(100, 500), maxit=st.sampled_from([300, 1200, 3000]), cut=st.sampled_from([0.02, 0.1]), gain=st.sampled_from([0.02, 0.1]))
sub("stop_large", wider(clean_cases([[]], window=st.sampled_from([None, None, 0.02, 0.1])), shape=st.sampled_from([[], [12], [9, 12]]), **big), quick=48, thorough=300, min_shard=2,
    rule="as stop, with hundreds of channels, depths, pixels and iterations; non-trivial as there")(stop)
sub("split_large", wider(split_case, shape=st.sampled_from([[40], [9, 12]]), **dict(big, maxit=st.sampled_from([5, 60]))), quick=48, thorough=300, min_shard=2,
    rule="as split, with hundreds of channels, depths and pixels; non-trivial as there")(split)
sub("decay_large", wider(decay_case, half=st.integers(100, 1000), k=st.integers(25, 2500), gain=st.floats(0.001, 0.1)), quick=72, thorough=400, min_shard=2,
    rule="as decay, with many depths and up to 2500 iterations; non-trivial as there")(decay)
