"""P14: kriging variance of the real code against the universal kriging variance computed by dense linear algebra."""
from common import *
from kref import *
from P13 import build, ref, CASES, KRG, KPLS, KPLSK, GEKPLS
from smt.surrogate_models import MGP

def run(H):
    rng = H.rng; todo = [(c, k, p, nx) for p in ("constant", "linear", "quadratic") for nx in (1, 2, 3) for c, k in CASES if c is not GEKPLS or nx > 1]
    for r in range(H.n(12, 40)):      # rounding alone decides the sign here: correlation matrix numerically singular, points at and next to the data
        nx = 1 + r % 2; n = int(rng.choice([40, 55, 70])); X = rng.rand(n, nx); Y = np.sin(3 * X).sum(1); corr = ("squar_exp", "abs_exp", "matern52")[r % 3]
        with H.case("rounding", "%s nx=%d n=%d" % (corr, nx, n), dict(X=X, Y=Y, corr=corr, theta0=1e-6), timeout=60):
            m = KRG(theta0=[1e-6], theta_bounds=[1e-6, 1e-5], nugget=1e-14, corr=corr, print_global=False,); m.set_training_values(X, Y)
            try: m.train()
            except Exception: continue      # likelihood undefined for every candidate
            v = m.predict_variances(np.vstack([X, X + 1e-8])); H.ok(np.all(v >= 0), "rounding.sign", "negative variance %g" % v.min(), dict(X=X, Y=Y, corr=corr))
    for r in range(H.n(10, 60)):
        for c, k in enumerate(rng.permutation(len(todo))):
            if H.left() < 40: return
            cls, corr, poly, nx = todo[k]; inp = dict(model=cls.__name__, corr=corr, poly=poly, nx=nx, seed=H.seed, rep=r, number=c); tag = "%s.%s.%s" % (cls.__name__, corr, poly)
            noise = 10 ** rng.uniform(-6, -2) if c % 3 == 0 and cls is not GEKPLS else 0.; nug = 10 ** rng.uniform(-8, -6) if c % 3 != 1 else 2.3e-14
            noise_est = noise and c % 2 == 0
            with H.case("variance", tag + " nx=%d %d" % (nx, r), inp, timeout=90):
                m, X, Y, kw = build(H, cls, corr, poly, nx, rng, nugget=nug, **(dict(eval_noise=True, noise0=[1e-3], noise_bounds=[1e-5, .1]) if noise_est else dict(noise0=[noise]))); kw["nugget"] = float(np.ravel(m.optimal_noise)[0]) if noise_est else nug + noise
                n = rng.randint(2, 8); lo, hi = X.min(0), X.max(0); x = rng.uniform(lo - .3 * (hi - lo), hi + .3 * (hi - lo), (n, nx)); inp = dict(inp, X=X, Y=Y, x=x, theta=m.optimal_theta, nugget=nug, noise=noise, noise_estimated=bool(noise_est))
                v = m.predict_variances(x)[:, 0]; H.ok(np.all(v >= 0), tag + ".sign", "negative variance %s" % v, inp)
                R = ref(m, cls, corr, poly, X, Y, kw); s2 = float(np.ravel(m.optimal_par["sigma2"])[0])
                if R.cond < 1e9:
                    w = R.sigma2() * (m.y_std ** 2 if cls is GEKPLS else 1.); H.close(s2, np.ravel(w)[0], tag + ".sigma2", "process variance", inp, rtol=1e-5 + 1e-14 * R.cond)
                    xr = (x - m.X_offset) / m.X_scale if cls is GEKPLS else x; H.close(v, np.maximum(R.variances(xr, s2), 0), tag + ".variance", "best linear unbiased predictor's variance", inp, rtol=1e-5, atol=s2 * (1e-6 + 1e-15 * R.cond))
                    if not noise_est: H.close(m.optimal_rlf_value, R.loglik(), tag + ".likelihood", "concentrated log-likelihood of the parameters kept", inp, rtol=1e-5, atol=1e-4)
                H.ok(np.all(m.predict_variances(X) >= 0), tag + ".sign", lambda: "negative variance at training points: %g" % m.predict_variances(X).min(), inp)
                for p in range(min(n, 3)): H.close(m.predict_variances(x[p:p + 1])[:, 0], v[p:p + 1], tag + ".rows", "one point alone", inp, rtol=1e-6, atol=1e-6 * s2)
                if noise == 0 and R.cond < 1e12: H.ok(np.all(m.predict_variances(X)[:, 0] <= s2 * (4 * nug + 1e-6)), tag + ".training", lambda: "variance %s at noise-free training points (process variance %g)" % (m.predict_variances(X)[:, 0].max(), s2), inp)
if __name__ == "__main__": main(run)
