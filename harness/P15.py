"""P15: likelihood, gradient and Hessian of the real code against the dense formula and central differences."""
from common import *
from kref import *
from P13 import build, CASES, KRG, KPLS, KPLSK, GEKPLS
from smt.surrogate_models import MGP
def fd(f, th, h):
    out = []
    for i in range(len(th)):
        e = np.zeros(len(th)); e[i] = h * max(1e-3, abs(th[i])); d = e[i]; out.append((8 * (f(th + e) - f(th - e)) - f(th + 2 * e) + f(th - 2 * e)) / (12 * d))
    return np.array(out)

from smt.surrogate_models import krg_based
class Watch:
    """the optimizer as used by the model, with its objective and gradient compared on the way"""
    def __init__(s, H, tag, inp): s.H, s.tag, s.inp, s.orig = H, tag, inp, krg_based.optimize.minimize
    def __enter__(s): krg_based.optimize.minimize = s; return s
    def __exit__(s, *a): krg_based.optimize.minimize = s.orig
    def __call__(s, fun, x0, *a, **kw):
        j = kw.get("jac")
        if callable(j):
            x = np.array(x0, float) + .05; f = lambda z: float(np.ravel(fun(np.array(z)))[0]); d = np.array([(f(x + e) - f(x - e)) / 2e-4 for e in np.eye(len(x)) * 1e-4]); g = np.ravel(j(x.copy()))
            if np.all(np.isfinite(d)): s.H.close(g, d, s.tag + ".objective", "gradient given to the optimizer against its objective", s.inp, rtol=1e-2, atol=1e-2 * (1 + np.abs(d).max()))
        return s.orig(fun, x0, *a, **kw)

def run(H):
    rng = H.rng; todo = [(c, k, p, nx) for p in ("constant", "linear", "quadratic") for nx in (1, 2, 3) for c, k in CASES if c is not GEKPLS or nx > 1] + [(MGP, "act_exp", p, nx) for p in ("constant", "linear") for nx in (2, 3, 4)] * 2
    for r in range(H.n(4, 30)):
        for c, k in enumerate(rng.permutation(len(todo))):
            if H.left() < 40: return
            cls, corr, poly, nx = todo[k]; inp = dict(model=cls.__name__, corr=corr, poly=poly, nx=nx, seed=H.seed, rep=r, number=c); tag = "%s.%s.%s" % (cls.__name__, corr, poly)
            noise = cls not in (GEKPLS, MGP) and c % 3 == 0
            with H.case("likelihood", tag + " nx=%d %d" % (nx, r), inp, timeout=90):
                if cls is MGP:
                    nt = 10 + rng.randint(8); X = rng.rand(nt, nx) * 2; Y = np.sin(X.dot(rng.randn(nx)))[:, None]; nc = rng.randint(1, nx + 1)
                    m = MGP(print_global=False, n_comp=nc, poly=poly, nugget=1e-5, theta0=[rng.randn() * .3], prior={"mean": [rng.uniform(-.5, .5)], "var": rng.uniform(.5, 3)}); m.set_training_values(X, Y)
                    with quiet(): m.train()
                    th = rng.randn(nc * nx) * .5; kw = dict(nugget=1e-5)
                else:
                    with Watch(H, tag, inp): m, X, Y, kw = build(H, cls, corr, poly, nx, rng, nugget=1e-5, **(dict(eval_noise=True, noise0=[1e-3], noise_bounds=[1e-6, 1.]) if noise else {}), hyper_opt="TNC" if c % 2 == 0 else "Cobyla")
                    th = 10 ** rng.uniform(-1, .5, len(m.optimal_theta)); 
                    if noise: th = np.append(th, 10 ** rng.uniform(-3, -1))
                inp = dict(inp, X=X, Y=Y, theta=th, noise=noise); f = lambda t: float(np.ravel(m._reduced_likelihood_function(np.array(t))[0])[0])
                keep = th.copy(); v = f(th)
                if cls not in (MGP, GEKPLS):
                    W = m.coeff_pls[:, :kw["n_comp"]] if cls is KPLS else None
                    R = Ref(corr, poly, th[:-1] if noise else th, X, Y, 1 + (th[-1] if noise else kw["nugget"]), W)
                    if R.cond < 1e8: H.close(v, R.loglik(), tag + ".value", "concentrated log-likelihood", inp, rtol=1e-6, atol=1e-5)
                g, par = m._reduced_likelihood_gradient(th.copy()); D = fd(f, th, 1e-3); D2 = fd(f, th, 5e-4)
                H.ok(np.shape(g) == (len(th), 1), tag + ".shape", "gradient of shape %s" % (np.shape(g),), inp)
                ok = np.abs(D - D2) <= 1e-4 * np.abs(D2) + 1e-6
                if np.shape(g) == (len(th), 1): H.close(g[ok, 0], D2[ok], tag + ".gradient", "gradient against central differences", inp, rtol=1e-3, atol=1e-4 * (1 + np.abs(D2).max()))
                col, _ = m._reduced_likelihood_gradient(th.copy()[:, None]) if cls is not MGP else (g, 0); H.close(col, g, tag + ".column", "parameters given as a column", inp, rtol=1e-6, atol=1e-8)
                if not noise:
                    h, ij, _ = m._reduced_likelihood_hessian(th.copy()); n = len(th); H.ok(ij.tolist() == [[i, j] for i in range(n) for j in range(i, n)] and h.shape == (n * (n + 1) // 2, 1), tag + ".pairs", "index pairs %s" % ij.tolist(), inp)
                    G = lambda t: np.ravel(m._reduced_likelihood_gradient(np.array(t))[0]); D = fd(G, th, 1e-3); D2 = fd(G, th, 5e-4); s = np.abs(D2).max() + 1
                    for (i, j), x in zip(ij, h[:, 0]):
                        if abs(D[j, i] - D2[j, i]) < 1e-4 * s: H.close(x, D2[j, i], tag + ".hessian", "second derivative %d %d" % (i, j), inp, rtol=1e-3, atol=1e-3 * s)
                H.ok(np.array_equal(keep, th), "frame", "parameters modified", inp)
if __name__ == "__main__": main(run)
