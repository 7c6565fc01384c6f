"""P10: the optimiser's history against the recorded evaluations of the objective."""
from common import *
import smt.applications.ego as E
from smt.applications.ego import EGO
from smt.applications.mixed_integer import FLOAT, INT, ENUM
from smt.surrogate_models import KRG
class Cheap(KRG):
    """inverse-distance mean and distance variance: the optimiser's own code is what is exercised"""
    def train(s): s._train()
    def _train(s): s.X, s.Y = s.training_points[None][0]
    def predict_values(s, x): x = np.atleast_2d(x); d = ((x[:, None] - s.X[None]) ** 2).sum(2) + 1e-9; w = 1 / d; return w.dot(s.Y) / w.sum(1, keepdims=True)
    def predict_variances(s, x): x = np.atleast_2d(x); return ((x[:, None] - s.X[None]) ** 2).sum(2).min(1)[:, None]
def F(x): return (np.sin(x[:, [0]] * 3) + (x ** 2).sum(1, keepdims=True) * .05 + np.cos(x[:, [-1]]))
class Opt:
    """stand-in for scipy's minimize: random outcome at a random point of the box"""
    def __init__(s, rng, p): s.rng, s.p, s.n, s.log = rng, p, 0, []
    def __call__(s, f, x0, bounds=None, **kw):
        s.n += 1; b = np.array(bounds, dtype=float)
        if s.rng.rand() < s.p / 3: raise ValueError("x0 violates bound constraints")
        x = b[:, 0] + s.rng.rand(len(b)) * (b[:, 1] - b[:, 0])
        if s.rng.rand() < .5: x = b[:, 0] + np.round((x - b[:, 0]) / (b[:, 1] - b[:, 0]) * 4) / 4 * (b[:, 1] - b[:, 0])
        s.log.append(E_OR(success=bool(s.rng.rand() >= s.p), fun=f(x), x=x)); return s.log[-1]
from scipy.optimize import OptimizeResult as E_OR
def run(H):
    rng = H.rng; real = E.minimize
    for r in range(H.n(45, 500)):
        if H.left() < 30: break
        mixed = r % 3 == 2; nx = rng.randint(1, 4); crit = ["EI", "SBO", "UCB"][rng.randint(3)]; q = rng.randint(1, 5); it_ = rng.randint(0, 5); qei = ["KB", "KBLB", "KBUB", "KBRand", "CLmin"][rng.randint(5)]
        types = [[FLOAT, INT, (ENUM, 2), (ENUM, 3)][rng.randint(4)] for _ in range(nx)] if mixed else None
        lim = np.array([[-3, 4] if not mixed or not isinstance(t, tuple) else ["abc"[k] for k in range(t[1])] for t in (types or [FLOAT] * nx)], dtype=object) if mixed else np.array([[-3., 4.]] * nx)
        if mixed: L = [[-3, 4] if not isinstance(t, tuple) else list("abc"[:t[1]]) for t in types]; lim = np.empty(nx, dtype=object); lim[:] = L; lim = np.array(L, dtype=object) if len({len(l) for l in L}) > 1 else np.array(L, dtype=object)
        p = [0., .4, 1.][rng.randint(3)] if r % 4 else 0.; nmax = rng.randint(1, 4); given = rng.rand() < .5; n0 = rng.randint(3, 7)
        seen = []
        def fun(x): assert x.ndim == 2 and x.shape[1] == nx, "objective called with shape %s" % (x.shape,); seen.append(np.array(x, float)); return F(np.array(x, float))
        kw = dict(n_iter=it_, criterion=crit, xlimits=lim, n_parallel=q, qEI=qei, n_start=rng.randint(1, 4), n_max_optim=nmax, surrogate=Cheap(print_global=False), random_state=int(r))
        inp = dict(seed=r, kw={k: v for k, v in kw.items() if k not in ("surrogate",)}, types=types, fail=p, given=given)
        def dom(n): return np.array([[rng.randint(t[1]) if isinstance(t, tuple) else rng.randint(-3, 5) if t is INT or t == INT else rng.uniform(-3, 4) for t in (types or [FLOAT] * nx)] for _ in range(n)], float)
        if given: kw["xdoe"] = dom(n0); n0_ = n0
        else: kw["n_doe"] = n0
        ygiven = given and rng.rand() < .5
        if ygiven: kw["ydoe"] = F(kw["xdoe"])
        if mixed: kw["xtypes"] = types
        opt = Opt(rng, p)
        with H.case("mixed" if mixed else "continuous", str(r), inp), quiet():
            E.minimize = opt
            try:
                e = EGO(**kw); outcome = []
                orig = e._find_best_point
                def find(*a, **k):
                    del opt.log[:]; z = orig(*a, **k); outcome.append(bool(z[1])); good = [l for l in opt.log if l["success"]]
                    H.ok(bool(z[1]) == bool(good), "search", "success reported as %s with %d successful runs" % (z[1], len(good)), inp)
                    if good: b = min(l["fun"] for l in good); H.ok(any(l["fun"] == b and np.array_equal(np.ravel(z[0]), l["x"]) for l in good), "search.best", "the point is not that of the best successful run", inp)
                    for l in opt.log[-2:]:
                        x2 = np.atleast_2d(l["x"]); c = {"EI": lambda: -np.sum(e.EI(x2, a[1])), "SBO": lambda: np.sum(e.gpr.predict_values(x2)), "UCB": lambda: np.sum(e.gpr.predict_values(x2) - 3 * np.sqrt(e.gpr.predict_variances(x2)))}[crit]()
                        H.close(l["fun"], c, "search.criterion", "criterion minimised by the search", inp)
                    return z
                e._find_best_point = find
                xo, yo, ib, x, y = e.optimize(fun)
            finally: E.minimize = real
            fold = (lambda z: e.mixint.fold_with_enum_index(z)) if mixed else (lambda z: z); xf = np.asarray(fold(x), float)
            H.ok(x.shape[0] == y.shape[0] and y.shape[1:] == (1,), "shape", "history of %s points and %s values" % (x.shape, y.shape), inp); H.close(y, F(xf), "history", "values of the history against the objective at its points", inp)
            H.ok(yo == y[ib] and yo == y.min(), "best.value", "reported value %s is not the smallest of the history (%s)" % (yo, y.min()), inp); H.close(np.ravel(xo), xf[ib], "best.point", "reported point", inp); H.close(F(np.atleast_2d(np.asarray(xo, float)))[0], yo, "best.pair", "reported value against the objective at the reported point", inp)
            if given: H.close(xf[:n0], kw["xdoe"], "prefix", "initial design is the prefix", inp)
            if p == 0: H.ok(len(x) == n0 + it_ * q, "count", "%d points after %d iterations of %d from %d" % (len(x), it_, q, n0), inp)
            # each successful search adds one point
            H.ok(len(x) == n0 + sum(outcome), "count.success", "%d points, %d successful searches, %d initial" % (len(x), sum(outcome), n0), inp)
            if not p: H.ok(all(outcome), "search", "a successful search reported as failed", inp)
            lo, hi = (-3, 4)
            for j, t in enumerate(types or [FLOAT] * nx):
                c = xf[:, j]
                if isinstance(t, tuple): H.ok(np.all(np.isin(c, np.arange(t[1]))), "feasible", "levels %s" % c, inp)
                elif mixed and t == INT: H.ok(np.all(c == np.round(c)), "feasible", "integer variable %d takes %s" % (j, c), inp)
                if not isinstance(t, tuple): H.ok(np.all((c >= lo - 1e-9) & (c <= hi + 1e-9)), "limits", "outside the limits", inp)
            ev = np.vstack(seen) if seen else np.zeros((0, nx))
            for j in range(n0 if ygiven else 0, len(xf)): H.ok(any(np.allclose(xf[j], v) for v in ev), "evaluated", "history point %d was never evaluated" % j, inp)
    for r in range(H.n(3, 12)):      # the real internal search and kriging
        if H.left() < 60: break
        nx = rng.randint(1, 3); inp = dict(seed=r, nx=nx)
        with H.case("kriging", str(r), inp, timeout=120), quiet():
            e = EGO(n_iter=2, criterion=["EI", "SBO", "UCB"][r % 3], n_doe=5, xlimits=np.array([[-3., 4.]] * nx), n_parallel=2, n_start=3, random_state=r, surrogate=KRG(print_global=False)); xo, yo, ib, x, y = e.optimize(F)
            H.close(y, F(x), "history", "values of the history", inp); H.ok(yo == y.min() and np.array_equal(xo, x[ib]), "best.value", "reported optimum", inp); H.ok(np.all((x >= -3 - 1e-9) & (x <= 4 + 1e-9)), "limits", "outside the limits", inp)
if __name__ == "__main__": main(run)
