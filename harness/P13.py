"""P13: kriging mean and derivatives of mean and variance, real code against the dense formula and central differences."""
from common import *
from kref import *
from smt.surrogate_models import KRG, KPLS, KPLSK, GEKPLS
def fd(f, x, h):
    cols = []
    for k in range(x.shape[1]):
        e = np.zeros(x.shape[1]); e[k] = h; cols.append(((8 * (f(x + e) - f(x - e)) - f(x + 2 * e) + f(x - 2 * e)) / (12 * h)).ravel())
    return np.array(cols).T
CASES = [(KRG, c) for c in ("squar_exp", "abs_exp", "matern32", "matern52")] + [(KPLS, "squar_exp"), (KPLS, "abs_exp"), (KPLSK, "squar_exp"), (GEKPLS, "squar_exp"), (GEKPLS, "abs_exp")]
def build(H, cls, corr, poly, nx, rng, nugget=1e-6, **o):
    nt = (nx + 1) * (nx + 2) // 2 + rng.randint(4, 10); X = rng.rand(nt, nx) * rng.uniform(.5, 4, nx) + rng.randn(nx); w = rng.randn(nx)
    g = lambda x: (np.sin(x.dot(w)) + .5 * x[:, 0] ** 2)[:, None]; dg = lambda x, k: (np.cos(x.dot(w)) * w[k] + (x[:, 0] if k == 0 else 0))[:, None]
    Y = g(X); kw = dict(print_global=False, corr=corr, poly=poly, nugget=nugget, theta0=[10 ** rng.uniform(-1, .3)]); kw.update(o)
    if cls is not KRG: kw["n_comp"] = rng.randint(1, nx + 1)
    if cls is GEKPLS: kw.update(xlimits=np.stack([X.min(0), X.max(0)], axis=1), extra_points=rng.randint(0, nx), delta_x=.05)
    m = cls(**kw); m.set_training_values(X.copy(), Y.copy())
    if cls is GEKPLS:
        for k in range(nx): m.set_training_derivatives(X.copy(), dg(X, k), k)
    with quiet(): m.train()
    return m, X, Y, kw
def ref(m, cls, corr, poly, X, Y, kw):
    W = m.coeff_pls[:, :kw["n_comp"]] if cls in (KPLS, GEKPLS) else None
    if cls is GEKPLS: return Ref(corr, poly, m.optimal_theta, m.X_norma, m.y_norma, 1 + kw["nugget"], W, scale=(0., 1., 0., 1.))
    return Ref(corr, poly, m.optimal_theta, X, Y, 1 + kw["nugget"], W)

def run(H):
    rng = H.rng; todo = [(c, k, p, nx) for p in ("constant", "linear", "quadratic") for nx in (1, 2, 3) for c, k in CASES if c is not GEKPLS or nx > 1]
    for r in range(H.n(10, 60)):
        for c, k in enumerate(rng.permutation(len(todo))):
            if H.left() < 40: return
            cls, corr, poly, nx = todo[k]
            if cls is GEKPLS and poly == "quadratic" and r % 2: continue
            inp = dict(model=cls.__name__, corr=corr, poly=poly, nx=nx, seed=H.seed, rep=r, number=c); tag = "%s.%s.%s" % (cls.__name__, corr, poly)
            with H.case("train", tag + " nx=%d %d" % (nx, r), inp, timeout=90):
                m, X, Y, kw = build(H, cls, corr, poly, nx, rng)
                n = rng.randint(2, 6); lo, hi = X.min(0), X.max(0); x = rng.uniform(lo - .1 * (hi - lo), hi + .1 * (hi - lo), (n, nx)); inp = dict(inp, X=X, Y=Y, x=x, theta=m.optimal_theta); sy = Y.std() + 1e-12
                keep = x.copy(); v = m.predict_values(x)
                R = ref(m, cls, corr, poly, X, Y, kw)
                if R.cond < 1e8: H.close(v[:, 0] if cls is not GEKPLS else R.sc(0) * 0 + (v[:, 0] - m.y_mean) / m.y_std, R.values(x) if cls is not GEKPLS else R.values((x - m.X_offset) / m.X_scale), tag + ".mean", "universal kriging mean", inp, rtol=1e-6, atol=1e-6 * sy + 1e-7)
                for p in range(n): H.close(m.predict_values(x[p:p + 1]), v[p:p + 1], tag + ".rows", "one point alone", inp, rtol=1e-7, atol=1e-7 * sy)
                h = 1e-3 * (hi - lo).min()
                D = fd(m.predict_values, x, h); kink = 1e-3
                for kx in range(nx):
                    try: d = m.predict_derivatives(x, kx)
                    except (ValueError, KeyError, NotImplementedError) as e:
                        H.ok(corr != "squar_exp" or poly == "quadratic", tag + ".derivative.missing", "derivative rejected: %s" % e, inp); continue
                    H.close(d[:, 0], D[:, kx], tag + ".derivative", "derivative %d of the mean against central differences" % kx, inp, rtol=1e-4, atol=1e-5 * sy / h * 1e-2 + 1e-5 * np.abs(D).max())
                    H.close(m.predict_derivatives(x[:1], kx), d[:1], tag + ".derivative.rows", "derivative at one point alone", inp, rtol=1e-7, atol=1e-7 * np.abs(D).max())
                if cls is GEKPLS or R.cond < 1e10:
                    gap = np.abs(x[:, None, :] - X[None]).min() > 5 * h or corr == "squar_exp"
                    try: dv = m.predict_variance_derivatives(x)
                    except (ValueError, KeyError, NotImplementedError) as e:
                        H.ok(poly == "quadratic", tag + ".variance.missing", "derivative of the variance rejected: %r" % e, inp); continue
                    H.ok(dv.shape == x.shape, tag + ".variance.shape", "shape %s for points %s" % (dv.shape, x.shape), inp)
                    s2 = float(np.ravel(m.optimal_par["sigma2"])[0]); vals = m.predict_variances(x)[:, 0]
                    if dv.shape == x.shape and poly != "quadratic":
                        V = fd(m.predict_variances, x, h); near = np.abs(x[:, None, :] - (X if cls is not GEKPLS else m.X_norma * m.X_scale + m.X_offset)[None]).min((1, 2)) < 3 * h
                        good = (vals > 1e-4 * s2) & (~near | (corr == "squar_exp"))
                        # the difference quotient itself must have converged
                        V2 = fd(m.predict_variances, x, h / 2); good = good & (np.abs(V - V2) <= 1e-4 * np.abs(V) + 1e-3 * s2).all(1)
                        if good.any(): H.close(dv[good], V2[good], tag + ".variance.derivative", "derivatives of the variance against central differences", inp, rtol=2e-3, atol=2e-3 * max(s2, np.abs(V).max()))
                H.ok(np.array_equal(keep, x), "frame", "query points modified", inp)
if __name__ == "__main__": main(run)
