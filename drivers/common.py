"""Helpers shared by the drivers: they call /repo's public API, and record what happened.

Everything recorded is an exact projection to integers; a number that is not on the lattice it
has to be on is recorded as an off-lattice token, which no specification clause accepts.
"""
import io
import json
import os
import random
import resource
import signal
import sys
import traceback
import warnings
from contextlib import redirect_stdout

warnings.filterwarnings("ignore")
import numpy as np  # noqa: E402

OFF = 999983          # off-lattice token


class Timeout(Exception):
    pass


def _alarm(signum, frame):
    raise Timeout()


class Guard:
    """Run one public call: the result, or the name of the exception it raised."""

    def __init__(self, seconds=60):
        self.seconds = seconds

    def __call__(self, f, *a, **k):
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(self.seconds)
        try:
            with redirect_stdout(io.StringIO()):
                return f(*a, **k), ""
        except Timeout:
            return None, "Timeout"
        except Exception as e:  # noqa: BLE001 - the name is what is recorded
            return None, type(e).__name__ or "Exception"
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)


def dense(a):
    """A plain ndarray, whatever array type the API handed out."""
    if hasattr(a, "todense"):
        a = a.todense()
    return np.asarray(a)


def integer(v, tol=1e-6):
    v = complex(v)
    if not np.isfinite(v.real) or not np.isfinite(v.imag):
        return OFF
    r = int(round(v.real))
    if abs(v.imag) > tol or abs(v.real - r) > tol or abs(r) >= OFF:
        return OFF
    return r


def gauss(v, tol=1e-6):
    v = complex(v)
    return [integer(v.real, tol), integer(v.imag, tol)]


def gmat(a, scale=1.0, tol=1e-6):
    """A matrix of Gaussian integers (after scaling), or None if it is not a matrix."""
    a = dense(a)
    if a.ndim != 2:
        return None
    return [[gauss(v * scale, tol) for v in row] for row in a]


def bits2(a):
    """A two-dimensional 0/1 array as lists; anything else as off-lattice rows."""
    a = dense(a)
    if a.ndim != 2:
        return [[OFF]]
    return [[integer(v) for v in row] for row in a]


def bits1(a):
    a = dense(a)
    if a.ndim != 1:
        return [OFF]
    return [integer(v) for v in a]


def main(run_case):
    """Drive run_case(case, emit) over the cases of argv[1], writing ndjson to argv[2]."""
    cases = json.load(open(sys.argv[1]))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    limit = 5 << 30
    if hard == resource.RLIM_INFINITY or hard > limit:
        resource.setrlimit(resource.RLIMIT_AS, (limit, hard))
    with open(sys.argv[2], "a") as out:
        for c in cases:
            with open(sys.argv[2] + ".cur", "w") as cur:
                cur.write(c["case"])
            h = sum(ord(ch) * (i + 1) for i, ch in enumerate(c["case"]))
            random.seed(seed * 1000003 + h)
            np.random.seed((seed * 7919 + h) % (2 ** 31))

            def emit(**rec):
                r = {"case": c["case"]}
                r.update(rec)
                out.write(json.dumps(r) + "\n")
            try:
                run_case(c, emit)
            except Exception as e:  # noqa: BLE001 - something unobservable came back from the API
                tb = traceback.extract_tb(e.__traceback__)
                emit(op="crash", exc=type(e).__name__, what=str(e)[:300],
                     at=["%s:%d" % (os.path.basename(t.filename), t.lineno) for t in tb][-4:])
            out.flush()
    sys.stdout.flush()
    os._exit(0)           # ProjectQ engines complain noisily when collected at exit
