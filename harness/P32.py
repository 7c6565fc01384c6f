"""P32: a model trained again against a fresh model with the same options and data."""
import numpy as np, scipy.optimize
def minimize(fun, x0, args=(), **kw):
    """The search, made deterministic: the better of the start and a neighbour (a real search amplifies rounding)."""
    best = None
    for x in (np.array(x0, float).ravel(), np.array(x0, float).ravel() + .05):
        v = fun(x.copy(), *args); v = float(np.asarray(v[0] if isinstance(v, tuple) else v).ravel()[0])
        if best is None or v < best[0]: best = (v, x)
    return scipy.optimize.OptimizeResult(x=best[1], fun=best[0], success=True, nfev=2)
scipy.optimize.minimize = minimize
from common import *
import smt.surrogate_models as S
from smt.applications import MFK
from smt.applications.mfkpls import MFKPLS
from smt.applications.mfkplsk import MFKPLSK

fn = lambda x: np.sin(3 * x.sum(1, keepdims=True)) + x[:, :1] ** 2
def plain(m, r, nx, n, ny=1):
    x = r.rand(n, nx); m.set_training_values(x, fn(x) * (1 + np.arange(ny)) + .2 * r.rand(n, ny))
def grads(m, r, nx, n, ny=1):
    x = r.rand(n, nx); m.set_training_values(x, fn(x))
    for k in range(nx):
        e = np.zeros(nx); e[k] = 1e-6; m.set_training_derivatives(x, (fn(x + e) - fn(x - e)) / 2e-6, k)
def noisy(m, r, nx, n, ny=1):
    x = r.rand(n, nx); x = np.vstack([x, x[:n // 2]]); m.set_training_values(x, fn(x) + .1 * r.randn(len(x), 1))
def levels(m, r, nx, n, ny=1):
    xe = r.rand(n, nx); xc = np.vstack([xe, r.rand(n, nx)]); m.set_training_values(xc, .5 * fn(xc) + .1 * r.rand(), name=0); m.set_training_values(xe, fn(xe))

def run(H):
    box = lambda nx: np.array([[0., 1.]] * nx)
    K = dict(theta0=[.5], print_global=False)
    M = []
    for c in ("squar_exp", "abs_exp", "matern32"):
        for p in ("constant", "linear", "quadratic") if c == "squar_exp" else ("constant",): M.append(("KRG %s %s" % (c, p), lambda nx, c=c, p=p: S.KRG(corr=c, poly=p, **K), plain, 1))
    M += [("KRG noise", lambda nx: S.KRG(eval_noise=True, **K), plain, 1), ("KRG heteroscedastic", lambda nx: S.KRG(eval_noise=True, use_het_noise=True, **K), noisy, 1),
        ("KRG TNC", lambda nx: S.KRG(hyper_opt="TNC", **K), plain, 1), ("KPLS", lambda nx: S.KPLS(n_comp=1, **K), plain, 1), ("KPLSK", lambda nx: S.KPLSK(n_comp=1, **K), plain, 1),
        ("GEKPLS", lambda nx: S.GEKPLS(n_comp=1, delta_x=.01, extra_points=1, xlimits=box(nx), **K), grads, 1),
        ("LS", lambda nx: S.LS(print_global=False), plain, 3), ("QP", lambda nx: S.QP(print_global=False), plain, 3), ("IDW", lambda nx: S.IDW(print_global=False), plain, 3),
        ("RBF", lambda nx: S.RBF(print_global=False, poly_degree=1), plain, 3), ("RMTB", lambda nx: S.RMTB(xlimits=box(nx), num_ctrl_pts=5, order=3, print_global=False), plain, 2),
        ("RMTC", lambda nx: S.RMTC(xlimits=box(nx), num_elements=3, print_global=False), plain, 2), ("RMTC derivatives", lambda nx: S.RMTC(xlimits=box(nx), num_elements=3, print_global=False), grads, 1),
        ("MFK", lambda nx: MFK(**K), levels, 1), ("MFKPLS", lambda nx: MFKPLS(n_comp=1, **K), levels, 1), ("MFKPLSK", lambda nx: MFKPLSK(n_comp=1, **K), levels, 1)]
    for rep in range(H.n(1, 6)):
        for name, make, data, multi in M:
            if H.left() < 15: return
            seed = int(H.rng.randint(10 ** 6)); nx = 2; q = np.random.RandomState(9).rand(6, nx)
            krig = any(w in name for w in ("K", "MFK"))
            with H.case("train again", name, dict(seed=seed)):
                a = make(nx)
                for s, (n, ny) in enumerate(((12, 1), (12, 1), (15, multi), (11, 1))):
                    inp = dict(model=name, seed=seed, training=s, n=n, ny=ny)
                    data(a, np.random.RandomState(seed + s), nx, n, ny); np.random.seed(seed); a.train()
                    b = make(nx); data(b, np.random.RandomState(seed + s), nx, n, ny); np.random.seed(seed); b.train()
                    for what, g in (("values", lambda m: m.predict_values(q)), ("derivatives", lambda m: m.predict_derivatives(q, 1)), ("variances", lambda m: m.predict_variances(q))):
                        try: want = g(b)
                        except (NotImplementedError, ValueError): continue
                        H.close(g(a), want, "again." + what, "%s of %s after training %d differ from a fresh model's" % (what, name, s + 1), inp, 1e-4 if krig else 1e-7, 1e-5 * (1 + np.abs(want).max()))
                    for k in ("n_comp", "poly", "corr", "nugget", "hyper_opt"):
                        if k in a.options._dict: H.ok(np.all(a.options[k] == make(nx).options[k]), "again.options", "option %s changed by training %s" % (k, name), inp)
main(run)
