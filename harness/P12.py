"""P12: kriging building blocks of the real code."""
from common import *
from smt.utils import kriging_utils as ku
from itertools import combinations
S5, S3 = np.sqrt(5.), np.sqrt(3.)
def K(name, th, d):
    l = d * th
    if name in ("abs_exp", "squar_exp"): return np.exp(-l.sum(1))
    if name == "matern32": return np.prod(1 + S3 * l, axis=1) * np.exp(-S3 * l.sum(1))
    return np.prod(1 + S5 * l + 5. / 3 * l ** 2, axis=1) * np.exp(-S5 * l.sum(1))
def A(name, th, d): M = np.reshape(th, (-1, d.shape[1])).T; return np.exp(-.5 * (d.dot(M) ** 2).sum(1))
KER = ("abs_exp", "squar_exp", "matern32", "matern52")
SIZES = [1, 2, 7, 9999, 10000, 10001, 20000, 20003]
def fd(f, th, g, h=1e-5):
    e = np.zeros(len(th)); e[g] = h; return (f(th + e) - f(th - e)) / (2 * h)

def run(H):
    rng = H.rng
    for r in range(H.n(24, 200)):
        if H.left() < 60: break
        n = SIZES[r % 8] if r < 16 else rng.randint(1, 40); nc = rng.randint(1, 6); th = rng.rand(nc) * 2 + .05; x = rng.randn(n, nc); d = np.abs(x); g, h = rng.randint(nc), rng.randint(nc); inp = dict(n=n, nc=nc, theta=th, d=d[:5], grad=g, hess=h, seed=r)
        if r % 3 == 0: d[n // 2] = 0; x[n // 2] = 0
        for name in KER:
            with H.case("kernel", "%s %d" % (name, r), inp):
                f = getattr(ku, name); kd, kt = d.copy(), th.copy(); v = f(th, d); ref = K(name, th, d)
                H.close(v, ref[:, None], name + ".value", "%s values" % name, inp); H.ok(np.all(v <= 1 + 1e-12) and np.all(v >= 0), name + ".range", "%s outside [0, 1]" % name, inp)
                H.close(f(th, np.zeros((3, nc))), np.ones((3, 1)), name + ".zero", "%s at zero" % name, inp)
                H.close(f(th, d, grad_ind=g)[:, 0], fd(lambda t: K(name, t, d), th, g), name + ".grad", "%s derivative in parameter" % name, inp, rtol=1e-5, atol=1e-7)
                for a, b in ((g, h), (g, g)):
                    H.close(f(th, d, grad_ind=a, hess_ind=b)[:, 0], fd(lambda t: f(t, d, grad_ind=a)[:, 0], th, b), name + ".hess", "%s second derivative in parameters %d %d" % (name, a, b), inp, rtol=1e-5, atol=1e-7)
                if n < 2000:
                    y = np.where(x == 0, .3, x); dy = np.abs(y)
                    if name.startswith("matern"):
                        v, dr = f(th, dy, derivative_params={"dx": y}); ref = np.stack([fd_x(lambda z: K(name, th, np.abs(z)), y, k) for k in range(nc)], axis=1)
                    else:
                        dd = rng.randn(n, 3); v, dr = f(th, dy, derivative_params={"dd": dd}); ref = -K(name, th, dy)[:, None] * dd
                    H.close(v, K(name, th, dy)[:, None], name + ".value", "%s values with derivatives" % name, inp); H.close(dr, ref, name + ".space", "%s spatial derivative" % name, inp, rtol=1e-5, atol=1e-6)
                H.ok(np.array_equal(kd, d) and np.array_equal(kt, th), "frame", "%s: arguments modified" % name, inp)
        with H.case("kernel", "act_exp %d" % r, inp):
            ns = rng.randint(1, 4); t = rng.randn(ns * nc) * .5; f = ku.act_exp; g, h = rng.randint(ns * nc), rng.randint(ns * nc)
            H.close(f(t, x)[:, 0], A("act", t, x), "act.value", "act_exp values", inp); H.close(f(t, x, grad_ind=g)[:, 0], fd(lambda q: A("act", q, x), t, g), "act.grad", "act_exp derivative", inp, rtol=1e-5, atol=1e-6)
            for a, b in ((g, h), (g, g)): H.close(f(t, x, grad_ind=a, hess_ind=b)[:, 0], fd(lambda q: f(q, x, grad_ind=a)[:, 0], t, b), "act.hess", "act_exp second derivative", inp, rtol=1e-5, atol=1e-6)
            if nc > 1: H.raises(lambda: f(rng.randn(ns * nc + 1), x), "act.length", "parameter vector of the wrong length accepted", inp)
        for corr in ("squar_exp", "abs_exp", "matern52", "matern32", "act_exp"):
            with H.case("distance", "%s %d" % (corr, r), inp):
                kx = x.copy(); g = lambda z: z ** 2 if corr == "squar_exp" else z if corr == "act_exp" else np.abs(z)
                H.close(ku.componentwise_distance(x, corr, nc), g(x), corr + ".distance", "component-wise distance", inp)
                sx = np.where(x < 0, -1., 1.); der = 2 * x if corr == "squar_exp" else sx
                if corr != "act_exp" and n < 2000: H.close(ku.componentwise_distance(x, corr, nc, theta=th, return_derivative=True), th * der, corr + ".distance.derivative", "spatial derivative of the distance", inp)
                if corr in ("squar_exp", "abs_exp"):
                    q = rng.randint(1, nc + 1); w = rng.randn(nc, q); tq = rng.rand(q)
                    H.close(ku.componentwise_distance_PLS(x, corr, q, w), (x ** 2).dot(w ** 2) if corr == "squar_exp" else np.abs(x).dot(np.abs(w)), corr + ".pls", "projected distance", inp)
                    if n < 2000: H.close(ku.componentwise_distance_PLS(x, corr, q, w, theta=tq, return_derivative=True), der * ((w ** 2 if corr == "squar_exp" else np.abs(w)).dot(tq)), corr + ".pls.derivative", "spatial derivative of the projected distance", inp)
                H.ok(np.array_equal(kx, x), "frame", "differences modified", inp)
    for r in range(H.n(40, 300)):
        if H.left() < 30: break
        n, nx, ny = rng.randint(2, 12), rng.randint(1, 6), rng.randint(1, 4); x = rng.randn(n, nx) * 5 + rng.randn(nx) * 10; y = rng.randn(n, ny)
        if r % 3 == 0: x[:, rng.randint(nx)] = 1.5
        if r % 4 == 0: y[:, rng.randint(ny)] = -2.
        inp = dict(x=x, y=y)
        with H.case("pairs", str(r), inp):
            D, ij = ku.cross_distances(x); pairs = list(combinations(range(n), 2)); got = [tuple(sorted(map(int, p))) for p in ij]
            H.ok(sorted(got) == pairs, "pairs", "pairs %s" % (got,), inp); H.close(D, np.array([x[i] - x[j] for i, j in ij]).reshape(-1, nx), "pairs.difference", "differences", inp)
            m = rng.randint(1, 5); z = rng.randn(m, nx); H.close(ku.differences(z, x), (z[:, None, :] - x[None]).reshape(-1, nx), "differences", "differences of two sets", inp)
        for unit in (False, True):
            with H.case("standardization", "%d %s" % (r, unit), dict(inp, unit=unit)):
                kx, ky = x.copy(), y.copy(); xs, ys, xo, ym, sc, sd = ku.standardization(x, y, unit); H.ok(np.array_equal(kx, x) and np.array_equal(ky, y), "frame", "data modified", inp)
                for a, o, s, raw, q in ((xs, xo, sc, x, "x"), (ys, ym, sd, y, "y")):
                    H.ok(np.all(np.isfinite(a)) and np.all(s > 0), "standard.finite", "%s: not finite or scale zero" % q, inp); H.close(a * s + o, raw, "standard.inverse", "%s: scaled data times scale plus offset" % q, inp)
                    c = raw.max(0) == raw.min(0); H.ok(np.all(s[c] == 1), "standard.constant", "%s: scale of a constant column" % q, inp)
                    if not (unit and q == "x"): H.close(o, raw.mean(0), "standard.offset", "%s offset" % q, inp); H.close(s[~c], raw.std(0, ddof=1)[~c], "standard.scale", "%s scale" % q, inp)
                    else: H.close(o, raw.min(0), "standard.offset", "x offset", inp); H.close(s[~c], np.ptp(raw, axis=0)[~c], "standard.scale", "x scale", inp)
        with H.case("regression", str(r), inp):
            H.close(ku.constant(x), np.ones((n, 1)), "constant", "constant basis", inp); H.close(ku.linear(x), np.c_[np.ones(n), x], "linear", "linear basis", inp)
            H.close(ku.quadratic(x), np.c_[np.ones(n), x, np.array([x[:, i] * x[:, j] for i in range(nx) for j in range(i, nx)]).T], "quadratic", "quadratic basis", inp)
def fd_x(f, y, k, h=1e-6):
    e = np.zeros(y.shape); e[:, k] = h; return (f(y + e) - f(y - e)) / (2 * h)

if __name__ == "__main__": main(run)
