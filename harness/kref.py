"""Dense reference for a trained kriging model: correlation, trend, universal kriging mean and variance, computed by ordinary linear algebra from the training data and the parameters."""
import numpy as np
S5, S3 = np.sqrt(5.), np.sqrt(3.)
def kernel(name, th, d):
    l = d * th
    if name in ("abs_exp", "squar_exp"): return np.exp(-l.sum(-1))
    if name == "matern32": return np.prod(1 + S3 * l, axis=-1) * np.exp(-S3 * l.sum(-1))
    return np.prod(1 + S5 * l + 5. / 3 * l ** 2, axis=-1) * np.exp(-S5 * l.sum(-1))
def basis(poly, x):
    c = [np.ones(len(x))]
    if poly != "constant": c += [x[:, j] for j in range(x.shape[1])]
    if poly == "quadratic": c += [x[:, i] * x[:, j] for i in range(x.shape[1]) for j in range(i, x.shape[1])]
    return np.stack(c, axis=1)
class Ref:
    """name, corr, poly, theta (per kernel component), W (PLS weights or None), X and Y training data (GEKPLS: the extended ones), diag: diagonal of the correlation matrix"""
    def __init__(s, corr, poly, theta, X, Y, diag, W=None, scale=None):
        s.corr, s.poly, s.th, s.W = corr, poly, np.asarray(theta, float).ravel(), W
        Y = np.asarray(Y, float).reshape(len(X), -1)[:, 0]
        if scale is None:
            s.xo, s.xs, s.yo, s.ys = X.mean(0), X.std(0, ddof=1), Y.mean(), Y.std(ddof=1)
            s.xs = np.where(s.xs == 0, 1., s.xs); s.ys = s.ys if s.ys else 1.
        else: s.xo, s.xs, s.yo, s.ys = scale
        s.X = (X - s.xo) / s.xs; s.y = (Y - s.yo) / s.ys; s.nt = len(X)
        s.R = s.corrm(s.X); s.R[np.arange(s.nt), np.arange(s.nt)] = diag
        s.F = basis(poly, s.X); s.Ri = np.linalg.inv(s.R); s.A = np.linalg.inv(s.F.T.dot(s.Ri).dot(s.F))
        s.beta = s.A.dot(s.F.T).dot(s.Ri).dot(s.y); s.gamma = s.Ri.dot(s.y - s.F.dot(s.beta))
        s.rss = (s.y - s.F.dot(s.beta)).dot(s.gamma)
        s.cond = np.linalg.cond(s.R) * max(1., np.linalg.cond(s.F.T.dot(s.Ri).dot(s.F)))
    def corrm(s, x):
        d = x[:, None, :] - s.X[None, :, :]; d = d ** 2 if s.corr == "squar_exp" else np.abs(d)
        if s.W is not None: d = d.dot(s.W ** 2 if s.corr == "squar_exp" else np.abs(s.W))
        return kernel(s.corr, s.th, d)
    def sc(s, x): return (x - s.xo) / s.xs
    def values(s, x): x = s.sc(x); return s.yo + s.ys * (basis(s.poly, x).dot(s.beta) + s.corrm(x).dot(s.gamma))
    def sigma2(s): return s.ys ** 2 * s.rss / s.nt
    def variances(s, x, sigma2=None):
        x = s.sc(x); r = s.corrm(x); u = basis(s.poly, x) - r.dot(s.Ri).dot(s.F)
        return (s.sigma2() if sigma2 is None else sigma2) * (1 - (r.dot(s.Ri) * r).sum(1) + (u.dot(s.A) * u).sum(1))
    def loglik(s): return -s.nt * np.log10(s.rss / s.nt) - np.linalg.slogdet(s.R)[1] / np.log(10)
