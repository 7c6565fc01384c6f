"""P11: infill criteria of the real code against their formulas."""
from common import *
from smt.applications.ego import EGO
from scipy.stats import norm
class G:
    """surrogate with prescribed mean and variance functions"""
    def __init__(s, w, zero): s.w, s.zero = w, zero
    def predict_values(s, x): return (np.atleast_2d(x).dot(s.w) + np.sin(np.atleast_2d(x).sum(1)))[:, None]
    def predict_variances(s, x): x = np.atleast_2d(x); v = np.abs(np.cos(3 * x.sum(1))) * np.abs(s.w).sum(); v[[i for i in range(len(x)) if any(np.array_equal(x[i], z) for z in s.zero)]] = 0.; return v[:, None]
def ei(g, x, y):
    m, v = g.predict_values(x), g.predict_variances(x); s = np.sqrt(v); d = y.min() - m; out = np.zeros_like(m); k = s > 0
    z = d[k] / s[k]; out[k] = d[k] * norm.cdf(z) + s[k] * norm.pdf(z); return out
def run(H):
    rng = H.rng
    for r in range(H.n(120, 1000)):
        if H.left() < 30: break
        nx, n, m = rng.randint(1, 5), rng.randint(1, 7) if r % 4 else 1, rng.randint(1, 8); x = rng.randn(n, nx) * 10. ** rng.randint(-1, 2); xd = rng.randn(m, nx); w = rng.randn(nx)
        zero = [x[i] for i in range(n) if rng.rand() < .3] + list(xd); g = G(w, zero); y = rng.randn(m, 1) * 10. ** rng.randint(-2, 3)
        o = EGO(xlimits=np.array([[-5., 5.]] * nx), n_iter=1, n_doe=3); o.gpr = g; inp = dict(x=x, xd=xd, y=y, w=w, zero=zero); kx, ky = x.copy(), y.copy()
        with quiet():
            with H.case("EI", str(r), inp):
                e = o.EI(x, y); ref = ei(g, x, y); H.close(np.broadcast_to(e, ref.shape) if np.size(e) == 1 else e, ref, "EI", "expected improvement", inp, rtol=1e-9, atol=1e-12 * (1 + np.abs(y).max())); H.ok(np.all(np.asarray(e) >= -1e-12 * (1 + np.abs(y).max())), "EI.sign", "negative expected improvement", inp)
            with H.case("EI", "tunneling %d" % r, inp):
                e = o.EI(x, y, enable_tunneling=True, x_data=xd); ref = ei(g, x, y); H.ok(np.all(np.asarray(e) >= -1e-12 * (1 + np.abs(y).max())), "EI.tunnel.sign", "negative penalised criterion %s" % (e,), inp); H.ok(np.all(np.asarray(e) <= ref + 1e-9 * (1 + np.abs(ref))), "EI.tunnel.bound", "penalised criterion above the plain one", inp)
            with H.case("criteria", str(r), inp):
                mu, s = g.predict_values(x), np.sqrt(g.predict_variances(x)); H.close(o.SBO(x), mu, "SBO", "predicted mean", inp); H.close(o.UCB(x), mu - 3 * s, "UCB", "mean minus three standard deviations", inp)
            with H.case("virtual", str(r), inp):
                p = x[:1]; mu, s = g.predict_values(p), np.sqrt(g.predict_variances(p))
                for q, ref in (("KB", mu), ("KBUB", mu + 3 * s), ("KBLB", mu - 3 * s), ("CLmin", y.min())):
                    o.options["qEI"] = q; H.close(np.ravel(o._get_virtual_point(p, y)), np.ravel(ref), "virtual." + q, "virtual value %s" % q, inp)
                o.options["qEI"] = "KBRand"; np.random.seed(r); c = np.random.randn(); np.random.seed(r); H.close(np.ravel(o._get_virtual_point(p, y)), np.ravel(mu + c * s), "virtual.KBRand", "virtual value with a random multiple", inp)
        H.ok(np.array_equal(kx, x) and np.array_equal(ky, y), "frame", "arguments modified", inp)
if __name__ == "__main__": main(run)
