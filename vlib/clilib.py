"""Running the command line tools in this process."""
import builtins
import contextlib
import gc
import hashlib
import io
import multiprocessing
import os
import sys
from contextlib import redirect_stderr, redirect_stdout

import numpy as np


def state(d):
    """Checksum of each file below a folder."""
    out = {}
    for p, _, fs in os.walk(d):
        for x in fs:
            x = os.path.join(p, x)
            out[x] = hashlib.md5(open(x, "rb").read()).hexdigest()
    return out


def call(mod, args, why=None):
    """Run the tool; False if it refused (the reason is added to the list why)."""
    if not gc.get_freeze_count():
        gc.freeze()  # (the tools call gc.collect, which takes long with all the modules loaded)
    old, prompt = sys.argv, builtins.input
    sys.argv = ["tool"] + [str(x) for x in args]
    builtins.input = lambda *a: ""
    try:
        with redirect_stdout(io.StringIO()), redirect_stderr(io.StringIO()), np.errstate(all="ignore"):
            getattr(mod, "main", mod)()
        return True
    except (Exception, SystemExit) as e:
        if why is not None:
            why.append("%s: %s" % (type(e).__name__, e))
        return False
    finally:
        sys.argv, builtins.input = old, prompt
        if "matplotlib.pyplot" in sys.modules:
            sys.modules["matplotlib.pyplot"].close("all")


class Serial:
    """Stand-in for multiprocessing.Pool that works in this process."""

    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    join = terminate = close

    def map(self, f, args, chunksize=None):
        return [f(a) for a in args]

    def imap(self, f, args, chunksize=None):
        return iter(self.map(f, args))

    def starmap(self, f, args, chunksize=None):
        return [f(*a) for a in args]


@contextlib.contextmanager
def serial_pools(*modules):
    """Replace the process pools, also where a module has them under their own name."""
    real, meth = multiprocessing.Pool, multiprocessing.get_start_method(allow_none=True)
    keep = [(multiprocessing, "Pool", real)] + [(m, k, v) for m in modules for k, v in list(vars(m).items()) if v is real or v == real]
    for m, k, v in keep:
        setattr(m, k, Serial)
    try:
        yield
    finally:
        for m, k, v in keep:
            setattr(m, k, v)
        multiprocessing.set_start_method(meth, force=True)
