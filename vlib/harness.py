"""Harness shared by all checks: generation (hypothesis), shrinking, replay, evidence.

A check module (checks/Cnn.py) registers *subs*: a strategy producing a
JSON-serialisable case and a function that builds the real input from the case,
runs the code under test and compares with its oracle.  A sub returns True when
the case was non-trivial by the rule written next to it, False otherwise, and
raises Violation when the property does not hold.
"""
import argparse
import contextlib
import hashlib
import importlib
import io
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    pass


class SkipCase(Exception):
    """The generated case is outside the stated domain of the property."""


class HarnessError(Exception):
    pass


class CaseTimeout(Exception):
    pass


class Sub:
    def __init__(self, name, strategy, fn, quick, thorough, rule, timeout, min_shard):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough, self.rule = quick, thorough, rule
        self.timeout, self.min_shard = timeout, min_shard


_SUBS = []
_PROBES = []


def sub(name, strategy, quick, thorough=None, rule="", timeout=150, min_shard=8):
    def deco(fn):
        _SUBS.append(
            Sub(name, strategy, fn, quick, thorough or quick * 20, rule, timeout, min_shard)
        )
        return fn

    return deco


def probe(fid):
    """A fixed input that reproduces a finding listed (open) in known_findings.jsonl."""

    def deco(fn):
        _PROBES.append((fid, fn))
        return fn

    return deco


# ------------------------------------------------------------------ assertions
def fail(msg):
    raise Violation(msg)


def check(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def skip(msg="outside the domain"):
    raise SkipCase(msg)


# ------------------------------------------------------------------ execution
def _in_repo(tb):
    hit = False
    while tb is not None:
        fn = os.path.abspath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(REPO + os.sep):
            hit = True
        tb = tb.tb_next
    return hit


def _shapeless(e):
    """True if an oracle failed on a result of another form (None, shape, missing entry or product); an interface that it cannot call, or a failure of the sandbox, is no verdict."""
    m = str(e)
    if isinstance(e, OSError):
        return isinstance(e, FileNotFoundError)
    if isinstance(e, AttributeError) and m.startswith(("module ", "type object ")):
        return False
    if isinstance(e, TypeError) and any(x in m for x in ("keyword argument", "positional argument", "required argument")):
        return False
    return isinstance(e, (TypeError, ValueError, LookupError, AttributeError, FileNotFoundError, ArithmeticError))


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(s, case, timeout=None):
    """Returns ('ok', nontrivial) | ('skip', why) | ('fail', message); raises HarnessError."""
    import numpy as np

    blob = json.dumps(case, sort_keys=True, default=str)
    seed = int(hashlib.sha256(blob.encode()).hexdigest()[:8], 16)
    np.random.seed(seed)
    random.seed(seed)
    out = io.StringIO()
    cwd = os.getcwd()
    argv = list(sys.argv)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(timeout or s.timeout))
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                r = s.fn(case)
        return ("ok", bool(r) if r is not None else True)
    except SkipCase as e:
        return ("skip", str(e))
    except Violation as e:
        return ("fail", str(e))
    except CaseTimeout:
        return ("fail", "TIMEOUT: the code under test did not return within %d s" % (timeout or s.timeout))
    except KeyboardInterrupt:
        raise
    except BaseException as e:  # noqa: BLE001  (SystemExit from the code under test included)
        if isinstance(e, (MemoryError,)) and not ("Unable to allocate" in str(e) and _in_repo(e.__traceback__)):  # (an absurd size asked for by the code is a failure of it)
            raise HarnessError("out of memory")
        if _in_repo(e.__traceback__):
            last = traceback.extract_tb(e.__traceback__)
            where = [f for f in last if os.path.abspath(f.filename).startswith(REPO + os.sep)][-1]
            return (
                "fail",
                "unexpected %s on a valid input: %s (raised from %s:%d)"
                % (type(e).__name__, str(e)[:300], os.path.relpath(where.filename, REPO), where.lineno),
            )
        if _shapeless(e):
            return ("fail", "the result does not have the form that is relied on: %s: %s (%s)" % (type(e).__name__, str(e)[:300], traceback.extract_tb(e.__traceback__)[-1].line))
        raise HarnessError("".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:])
    finally:
        signal.alarm(0)
        os.chdir(cwd)
        sys.argv[:] = argv
        if "matplotlib.pyplot" in sys.modules:
            sys.modules["matplotlib.pyplot"].close("all")


class _Fail(AssertionError):
    pass


def explore(s, n, seed, res, deadline, shrink_budget, first=True):
    """Search; hypothesis begins with the simplest case, which only the first worker judges (the others draw one more)."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, Verbosity, given, settings

    st = {"fails": {}, "t_fail": None, "err": None, "calls": 0}
    rec = res.setdefault(
        s.name,
        {"evaluations": 0, "nontrivial": 0, "trivial": 0, "skipped": 0, "not_run": 0, "hashes": [], "samples": [], "secs": 0.0, "rule": s.rule},
    )
    t0 = time.time()
    rnd = random.Random(seed)

    @hypothesis.seed(seed)
    @settings(
        max_examples=n + (not first),
        database=None,
        deadline=None,
        derandomize=False,
        print_blob=False,
        report_multiple_bugs=False,
        verbosity=Verbosity.quiet,
        suppress_health_check=list(HealthCheck),
        phases=(Phase.generate, Phase.shrink),
    )
    @given(s.strategy)
    def test(case):
        blob = json.dumps(case, sort_keys=True)
        st["calls"] += 1
        if st["calls"] == 1 and not first:
            return
        if st["err"] is not None:
            return
        if blob in st["fails"]:
            raise _Fail(st["fails"][blob])
        now = time.time()
        if st["t_fail"] is not None and now - st["t_fail"] > shrink_budget:
            return
        if st["t_fail"] is None and now > deadline:
            rec["not_run"] += 1
            return
        try:
            kind, info = run_case(s, case)
        except HarnessError as e:
            st["err"] = str(e) + "\ncase: " + blob[:2000]
            return
        if st["t_fail"] is None:
            rec["evaluations"] += 1
            if kind == "skip":
                rec["skipped"] += 1
            elif kind == "ok":
                if info:
                    rec["nontrivial"] += 1
                    rec["hashes"].append(hashlib.sha256((s.name + blob).encode()).hexdigest()[:16])
                    if len(rec["samples"]) < 2:
                        rec["samples"].append(case)
                    elif rnd.random() < 0.02:
                        rec["samples"][rnd.randrange(2)] = case
                else:
                    rec["trivial"] += 1
        if kind == "fail":
            if st["t_fail"] is None:
                st["t_fail"] = time.time()
                if info.startswith("TIMEOUT"):
                    st["t_fail"] -= shrink_budget
            st["fails"][blob] = info
            st["last"] = (case, info)
            raise _Fail(info)

    failure = None
    try:
        test()
    except _Fail:
        failure = st["last"]
    except BaseException as e:  # noqa: BLE001
        if st["fails"]:
            blob = min(st["fails"], key=len)
            failure = (json.loads(blob), st["fails"][blob])
        elif st["err"] is None:
            st["err"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
    rec["secs"] += time.time() - t0
    if st["err"]:
        raise HarnessError("sub %s: %s" % (s.name, st["err"]))
    return failure


def load(prop):
    _SUBS.clear()
    _PROBES.clear()
    mod = importlib.import_module("checks." + prop)
    return mod, list(_SUBS), list(_PROBES)


def known_open(prop):
    out = {}
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#"):
                e = json.loads(line)
                if e["property"] == prop and e["status"] == "open":
                    out[e["id"]] = e
    return out


# ------------------------------------------------------------------ worker / parent
def worker(a):
    mod, subs, probes = load(a.prop)
    sys.path[:0] = []
    tier = a.tier
    res, viol, err = {}, [], None
    t0 = time.time()
    deadline = t0 + a.budget
    only = set(a.sub.split(",")) if a.sub else None
    for k, s in enumerate(subs):
        if only and s.name not in only:
            continue
        n = a.n or (s.quick if tier == "quick" else s.thorough)
        shards = max(1, min(a.nworkers, n // s.min_shard))
        me = (a.worker + k) % a.nworkers
        if me >= shards:
            continue
        mine = n // shards + (1 if me < n % shards else 0)
        if mine <= 0:
            continue
        seed = int(hashlib.sha256(("%d|%s|%s|%d" % (a.seed, a.prop, s.name, me)).encode()).hexdigest()[:12], 16)
        try:
            f = explore(s, mine, seed, res, deadline, a.shrink, me == 0)
        except HarnessError as e:
            err = str(e)
            break
        if f is not None:
            viol.append({"sub": s.name, "case": f[0], "message": f[1]})
            if time.time() - t0 > a.budget / 2:
                break
    with open(a.out, "w") as fh:
        json.dump({"res": res, "viol": viol, "err": err, "secs": time.time() - t0}, fh)
    return 0


def write_replay(prop, v):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    blob = json.dumps({"property": prop, "sub": v["sub"], "case": v["case"], "message": v["message"]}, indent=1)
    p = os.path.join(d, "%s-%s-%s.json" % (prop, v["sub"], hashlib.sha256(blob.encode()).hexdigest()[:10]))
    with open(p, "w") as fh:
        fh.write(blob)
    return p


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--selfcheck", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--sub")
    ap.add_argument("--n", type=int)
    ap.add_argument("--worker", type=int)
    ap.add_argument("--nworkers", type=int)
    ap.add_argument("--out")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--shrink", type=float, default=40)
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    if not os.path.isdir(REPO):
        print("no /repo")
        return 2
    if a.selfcheck:
        import astropy, bilby, finufft, hypothesis, matplotlib, numpy, scipy  # noqa: F401, E401

        print("ok: numpy %s scipy %s hypothesis %s" % (numpy.__version__, scipy.__version__, hypothesis.__version__))
        return 0
    sys.path.insert(0, REPO) if REPO != "/repo" else None
    if a.replay:
        a.replay = os.path.abspath(a.replay)
    if a.budget is None:
        a.budget = 420 if a.tier == "quick" else 3 * 3600
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % a.prop)
    os.environ["VERIF_SCRATCH"] = scratch
    tempfile.tempdir = scratch
    os.chdir(scratch)
    try:
        if a.worker is not None:
            return worker(a)
        if a.replay:
            return replay(a)
        return parent(a, scratch)
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)


def replay(a):
    _, subs, _ = load(a.prop)
    r = json.load(open(a.replay))
    s = [x for x in subs if x.name == r["sub"]]
    if not s:
        print("no such sub", r["sub"])
        return 2
    kind, info = run_case(s[0], r["case"])
    print(kind, info)
    if kind == "fail":
        print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
        return 1
    return 0


def parent(a, scratch):
    t0 = time.time()
    mod, subs, probes = load(a.prop)
    nw = a.nworkers or getattr(mod, "WORKERS", {}).get(a.tier, 8)
    procs = []
    for i in range(nw):
        out = os.path.join(scratch, "w%d.json" % i)
        cmd = [sys.executable, "-W", "ignore", os.path.join(VERIF, "run.py"), a.prop, "--tier", a.tier, "--seed", str(a.seed),
               "--worker", str(i), "--nworkers", str(nw), "--out", out, "--budget", str(a.budget), "--shrink", str(a.shrink)]
        if a.sub:
            cmd += ["--sub", a.sub]
        if a.n:
            cmd += ["--n", str(a.n)]
        log = open(os.path.join(scratch, "w%d.log" % i), "w")
        procs.append((subprocess.Popen(cmd, stdout=log, stderr=log, start_new_session=True), out, log.name))
    # known findings are probed in the parent while the workers run
    lines, viol, err = [], [], None
    opened = known_open(a.prop)
    for fid, fn in probes:
        s = Sub("probe:" + fid, None, lambda c, fn=fn: fn(), 1, 1, "", 150, 1)
        try:
            kind, info = run_case(s, {"probe": fid})
        except HarnessError as e:
            err = str(e)
            continue
        if kind == "fail":
            if fid in opened:
                lines.append("KNOWN-FINDING: property=%s %s: %s" % (a.prop, fid, opened[fid]["what"]))
            else:
                viol.append({"sub": "probe:" + fid, "case": {"probe": fid}, "message": info})
    hard = a.budget + 330
    res = {}
    hashes = set()
    for p, out, log in procs:
        try:
            p.wait(timeout=max(5, hard - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            err = "worker exceeded its hard time limit"
            continue
        if not os.path.exists(out):
            err = "worker died: rc=%s\n%s" % (p.returncode, open(log).read()[-3000:])
            continue
        d = json.load(open(out))
        if d["err"]:
            err = d["err"]
        viol += d["viol"]
        for name, r in d["res"].items():
            t = res.setdefault(name, {"evaluations": 0, "nontrivial": 0, "trivial": 0, "skipped": 0, "not_run": 0, "samples": [], "secs": 0.0, "rule": r["rule"]})
            for k in ("evaluations", "nontrivial", "trivial", "skipped", "not_run", "secs"):
                t[k] += r[k]
            hashes.update(r["hashes"])
            t["samples"] = (t["samples"] + r["samples"])[:2]
    for ln in lines:
        print(ln)
    seen = set()
    for v in viol:
        if v["sub"] in seen:
            continue
        seen.add(v["sub"])
        p = write_replay(a.prop, v)
        print("  %s: %s" % (v["sub"], v["message"][:600]))
        print("VIOLATION property=%s replay=%s" % (a.prop, p))
    total = sum(r["evaluations"] for r in res.values())
    nontriv = len(hashes)
    ev = {
        "property": a.prop,
        "tier": a.tier,
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total,
            "distinct_nontrivial": nontriv,
            "rule": " || ".join("%s: %s" % (n, r["rule"]) for n, r in sorted(res.items())),
            "samples": [{"sub": n, "case": c} for n, r in sorted(res.items()) for c in r["samples"]],
            "per_sub": {n: {k: (round(v, 2) if k == "secs" else v) for k, v in r.items() if k not in ("samples", "rule")} for n, r in sorted(res.items())},
            "workers": nw,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(seen),
    }
    if not a.no_evidence:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
    slow = ", ".join("%s=%d/%.0fs" % (n, r["evaluations"], r["secs"]) for n, r in sorted(res.items()))
    print("%s %s: %d cases, %d distinct non-trivial, %.1f s [%s]" % (a.prop, a.tier, total, nontriv, time.time() - t0, slow))
    if seen:
        return 1
    if err:
        print("CHECK ERROR (not a verdict on the code):\n" + err)
        return 2
    if nontriv == 0 and not a.sub:
        print("CHECK ERROR: nothing non-trivial was explored")
        return 2
    return 0
