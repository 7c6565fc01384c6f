"""Executable contracts on the real code.  Each harness/Pxx.py defines run(H)."""
import argparse, json, os, sys, time, traceback, warnings, signal, contextlib, io
import numpy as np
warnings.simplefilter("ignore")
np.seterr(all="ignore")

class Hang(Exception): pass
class StopHarness(Exception): pass

class H:
    def __init__(self, a):
        self.seed = a.seed; self.tier = a.tier; self.out = a.out; self.work = a.work; self.limit = a.limit
        self.rng = np.random.RandomState(a.seed); self.t0 = time.time()
        self.viol = []; self.cases = 0; self.evals = 0; self.samples = []; self.notes = []; self.errors = []; self.groups = {}; self.seen = set()
        self.label = None; self.only = a.only
        self.thorough = a.tier == "thorough"
        self.keys = {}
    def left(self): return self.limit - (time.time() - self.t0)
    def n(self, quick, thorough=None): return (thorough if thorough is not None else 5 * quick) if self.thorough else quick
    def bad(self, key, what, inp=None):
        k = self.keys.get(key, 0); self.keys[key] = k + 1
        if k < 3: self.viol.append(dict(key=key, what=str(what)[:2000], input=rep(inp), case=self.label)); self.flush()
    def ok(self, cond, key, what, inp=None):
        self.evals += 1
        if not cond: self.bad(key, what() if callable(what) else what, inp)
        return bool(cond)
    def close(self, a, b, key, what, inp=None, rtol=1e-8, atol=1e-10):
        self.evals += 1
        try:
            a = np.asarray(a, float); b = np.asarray(b, float)
            if a.shape != b.shape: self.bad(key, "%s: shape %s, expected %s" % (what, a.shape, b.shape), inp); return False
            if not np.all(np.isfinite(a) == np.isfinite(b)): self.bad(key, "%s: non-finite values %s" % (what, a.ravel()[:8]), inp); return False
            e = np.abs(a - b) - (atol + rtol * np.abs(b))
            if a.size and np.nanmax(e) > 0:
                k = int(np.nanargmax(e)); self.bad(key, "%s: got %.12g, expected %.12g (flat index %d)" % (what, a.ravel()[k], b.ravel()[k], k), inp); return False
        except (TypeError, ValueError) as e:
            self.bad(key, "%s: %r" % (what, e), inp); return False
        return True
    @contextlib.contextmanager
    def case(self, group, label="", inp=None, timeout=60, key=None, expect=()):
        """one case: an unexpected exception or a hang inside it is a violation"""
        self.label = "%s %s" % (group, label); self.cases += 1; self.groups[group] = self.groups.get(group, 0) + 1
        self.seen.add((group, label, str(rep(inp))[:2000]))
        if len(self.samples) < 6 and self.groups[group] == 1: self.samples.append(dict(case=self.label, input=rep(inp)))
        def onalarm(*a): raise Hang("no result after %ds" % timeout)
        old = signal.signal(signal.SIGALRM, onalarm); signal.alarm(timeout)
        if self.cases % 10 == 0 or self.cases < 5: self.flush()
        try:
            yield self
        except StopHarness: raise
        except Hang as e: self.bad(key or group + ".hang", "call does not return: %s (%s)" % (e, self.label), inp)
        except AssertionError as e:
            self.bad(key or group + ".exception", "unexpected AssertionError %s\n%s" % (e, traceback.format_exc()[-1200:]), inp)
        except Exception as e:
            self.bad(key or group + ".exception", "unexpected %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1200:]), inp)
        finally:
            signal.alarm(0); signal.signal(signal.SIGALRM, old)
    def raises(self, f, key, what, inp=None, types=(Exception,)):
        self.evals += 1
        try: f()
        except Hang: raise
        except types: return True
        except Exception as e:
            self.bad(key, "%s: raised %r" % (what, e), inp); return False
        self.bad(key, "%s: accepted without an error" % what, inp); return False
    def result(self, incomplete=False):
        return dict(cases=self.cases, evaluations=self.evals, distinct=len(self.seen), violations=self.viol, samples=self.samples, notes=self.notes, errors=self.errors,
                    groups=self.groups, incomplete=incomplete, progress=dict(label=self.label))
    def flush(self, incomplete=True):
        if self.out:
            json.dump(self.result(incomplete), open(self.out + ".tmp", "w"), default=str); os.replace(self.out + ".tmp", self.out)

def rep(x):
    if x is None or isinstance(x, (int, float, str, bool)): return x
    if isinstance(x, np.ndarray): return x.tolist() if x.size <= 400 else "array%s %s.." % (x.shape, x.ravel()[:10].tolist())
    if isinstance(x, np.generic): return x.item()
    if isinstance(x, dict): return {str(k): rep(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [rep(v) for v in x]
    return repr(x)[:300]

@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()): yield

def grad_fd(f, x, k, h=1e-6):
    """central difference with Richardson extrapolation of f: (n,nx)->(n,ny) in direction k"""
    def d(h):
        a = x.copy(); b = x.copy(); a[:, k] += h; b[:, k] -= h
        return (f(a) - f(b)) / (2 * h)
    return (4 * d(h / 2) - d(h)) / 3

def main(run):
    ap = argparse.ArgumentParser()
    ap.add_argument("--seed", type=int, default=1); ap.add_argument("--tier", default="quick"); ap.add_argument("--out", default=None)
    ap.add_argument("--work", default="."); ap.add_argument("--limit", type=float, default=240); ap.add_argument("--only", default=None)
    a = ap.parse_args()
    if a.out: a.out = os.path.abspath(a.out)
    h = H(a); inc = False
    try: run(h)
    except StopHarness: pass
    except Exception:
        h.errors.append(traceback.format_exc()[-2000:]); inc = True
    h.flush(inc)
    if not a.out:
        print(json.dumps(dict(cases=h.cases, evals=h.evals, groups=h.groups, time=round(time.time() - h.t0, 1)), default=str))
        for v in h.viol: print("VIOL", v["key"], v["case"], v["what"][:800], str(v["input"])[:300])
        for e in h.errors: print("ERR", e)
        for e in h.notes: print("NOTE", e)
