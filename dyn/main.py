"""Driver of the replay harness (runs the real code of /repo under CPython)."""
import argparse
import importlib
import json
import os
import random
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


class Violation(Exception):
    def __init__(self, what, /, **info):
        self.what = what
        self.info = info
        super().__init__(what)


class Harness:
    def __init__(self, seed, tier, scratch):
        self.seed = seed
        self.tier = tier
        self.scratch = scratch
        self.rng = random.Random(seed)
        self.evaluations = 0
        self.distinct_set = set()
        self.samples = []
        self.current = None
        self.known = []
        self.rule = ""
        self.t0 = time.time()
        self.progress = time.time()
        self.budget = 40.0 if tier == "quick" else 400.0

    def time_left(self, frac=1.0):
        return time.time() - self.t0 < self.budget * frac

    def n(self, quick, thorough=None):
        return quick if self.tier == "quick" else (thorough or quick * 8)

    def case(self, desc):
        """start of one concrete case"""
        self.evaluations += 1
        self.progress = time.time()
        self.current = desc
        r = repr(desc)
        if len(self.distinct_set) < 200000:
            self.distinct_set.add(hash(r))
        if len(self.samples) < 3:
            self.samples.append(r[:400])

    def check(self, cond, what, /, **info):
        self.progress = time.time()
        if not cond:
            raise Violation(what, **info)

    def eq(self, got, want, what, /, **info):
        self.progress = time.time()
        if not (got == want):
            raise Violation(what, observed=repr(got)[:500], expected=repr(want)[:500], **info)

    def close(self, got, want, what, tol=1e-4, /, **info):
        import numpy as np

        g = np.asarray(got, dtype=float)
        w = np.asarray(want, dtype=float)
        if g.shape != w.shape or not np.allclose(g, w, rtol=tol, atol=tol):
            raise Violation(what, observed=str(g.tolist())[:600], expected=str(w.tolist())[:600], **info)

    def raises(self, exc, fn, what, /, **info):
        try:
            fn()
        except exc:
            return
        raise Violation(what + ": expected %s" % exc.__name__, **info)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("mod")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--out")
    ap.add_argument("--scratch", default=None)
    a = ap.parse_args()
    if a.scratch is None:
        import tempfile

        a.scratch = tempfile.mkdtemp()
    import logging
    import warnings

    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    sys.modules["dynmain"] = sys.modules["__main__"]
    h = Harness(a.seed, a.tier, a.scratch)
    out = dict(violation=None, error=None)
    repo = os.environ.get("PYTHONPATH", "/repo").split(":")[0].rstrip("/") + "/"
    part = None
    watch(h, repo)
    try:
        m = importlib.import_module(a.mod)
        parts = getattr(m, "PARTS", None) or [m.run]
        errors = []
        for part in parts:
            try:
                part(h)
            except Violation:
                raise
            except AssertionError as e:
                _unexpected(h, e, repo, errors)
            except Exception as e:
                _unexpected(h, e, repo, errors)
        if errors:
            out["error"] = "\n".join(errors)
    except Violation as v:
        out["violation"] = dict(
            what=v.what, part=getattr(part, "__name__", None), case=repr(h.current)[:3000],
            info=v.info, case_number=h.evaluations, seed=a.seed,
        )
    except Exception:
        out["error"] = traceback.format_exc()[-2000:]
    out.update(
        evaluations=h.evaluations,
        distinct=len(h.distinct_set),
        samples=h.samples,
        rule=h.rule,
        known=h.known,
        wall_s=round(time.time() - h.t0, 2),
    )
    s = json.dumps(out, default=str)
    if a.out:
        with open(a.out, "w") as f:
            f.write(s)
    else:
        print(json.dumps(out, indent=1, default=str))
    sys.stdout.flush()
    os._exit(0)


def watch(h, repo, limit=90.0):
    """code of the repository that runs on one case for very long does not terminate"""
    import resource
    import signal

    resource.setrlimit(resource.RLIMIT_AS, (20 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))

    def tick(sig, frame):
        if time.time() - h.progress < limit:
            return
        f = frame
        while f is not None:
            if f.f_code.co_filename.startswith(repo):
                raise Violation("no result after %d s" % limit, where="%s:%d" % (f.f_code.co_filename, f.f_lineno))
            f = f.f_back

    signal.signal(signal.SIGALRM, tick)
    signal.setitimer(signal.ITIMER_REAL, 5, 5)


def _unexpected(h, e, repo, errors):
    """exception on valid input: raised by the repository -> violation"""
    tb = traceback.extract_tb(e.__traceback__)
    own = [f for f in tb if f.filename.startswith(repo) or f.filename.startswith(HERE)]
    last = own[-1] if own else None
    if last is not None and last.filename.startswith(repo):
        raise Violation(
            "unexpected %s: %s" % (type(e).__name__, e),
            where="%s:%d" % (last.filename, last.lineno),
            trace="".join(traceback.format_tb(e.__traceback__))[-1500:],
        )
    errors.append("".join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:])


if __name__ == "__main__":
    main()
