"""P28: multi-fidelity kriging, real code against the dense autoregressive recursion, central differences and data checks."""
from common import *
from kref import kernel, basis
from smt.applications.mfk import MFK
from smt.applications.mfkpls import MFKPLS
from smt.applications.mfkplsk import MFKPLSK
CASES = [(MFK, c) for c in ("squar_exp", "abs_exp", "matern32", "matern52")] + [(MFKPLS, "squar_exp"), (MFKPLS, "abs_exp"), (MFKPLSK, "squar_exp")]
REG = ("constant", "linear", "quadratic")
class Ref:
    """recursion with generalised least squares at each level, from the data and the correlation parameters"""
    def __init__(s, corr, poly, rho, thetas, X, Y, nugget, W=None):
        s.corr, s.poly, s.rho, s.th, s.W = corr, poly, rho, [np.ravel(t) for t in thetas], W
        A, B = np.concatenate(X), np.concatenate([y.ravel() for y in Y])
        s.xo, s.xs, s.yo, s.ys = A.mean(0), A.std(0, ddof=1), B.mean(), B.std(ddof=1); s.xs = np.where(s.xs == 0, 1., s.xs); s.ys = s.ys if s.ys else 1.
        s.X = [(x - s.xo) / s.xs for x in X]; s.b, s.g, s.cond = [], [], 1.
        for j, y in enumerate(Y):
            R = s.corrm(j, s.X[j]); R[np.diag_indices(len(R))] = 1 + nugget; F = s.trend(j, s.X[j]); Ri = np.linalg.inv(R); M = F.T.dot(Ri).dot(F)
            y = (y.ravel() - s.yo) / s.ys; b = np.linalg.solve(M, F.T.dot(Ri).dot(y)); s.b.append(b); s.g.append(Ri.dot(y - F.dot(b))); s.cond = max(s.cond, np.linalg.cond(R) * max(1., np.linalg.cond(M)))
    def corrm(s, j, x):
        d = x[:, None, :] - s.X[j][None]; d = d ** 2 if s.corr == "squar_exp" else np.abs(d)
        if s.W is not None: d = d.dot(s.W ** 2 if s.corr == "squar_exp" else np.abs(s.W))
        return kernel(s.corr, s.th[j], d)
    def trend(s, j, x):
        f = basis(s.poly, x)
        return f if j == 0 else np.hstack([basis(s.rho, x) * s.scaled(j - 1, x)[:, None], f])
    def scaled(s, j, x): return s.trend(j, x).dot(s.b[j]) + s.corrm(j, x).dot(s.g[j])
    def values(s, j, x): return s.yo + s.ys * s.scaled(j, (x - s.xo) / s.xs)
def build(cls, corr, poly, rho, nx, L, rng):
    nb = (nx + 1) * (nx + 2) + 6; n = [nb + rng.randint(0, 6) + 6 * (L - 1 - j) for j in range(L)]; lo = rng.randn(nx); w = rng.uniform(.5, 3, nx)
    X = [lo + w * rng.rand(k, nx) for k in n]; v = rng.randn(nx); c = [rng.randn(2) for _ in range(L)]
    f = lambda x, j: np.sin(((x - lo) / w).dot(v) * 2) + c[j][0] * (x[:, 0] - lo[0]) / w[0] + c[j][1] + (0 if j == 0 else (1 + .5 * c[j][0]) * f(x, j - 1))
    Y = [f(x, j)[:, None] for j, x in enumerate(X)]
    kw = dict(print_global=False, corr=corr, poly=poly, rho_regr=rho, nugget=1e-6, theta0=[10 ** rng.uniform(-1, .3)])
    if cls is not MFK: kw["n_comp"] = rng.randint(1, nx + 1)
    return X, Y, kw
def train(cls, X, Y, kw, order=None):
    m = cls(**kw); L = len(X); keep = [(x.copy(), y.copy()) for x, y in zip(X, Y)]
    for j in (order if order is not None else range(L)): m.set_training_values(X[j], Y[j], **({} if j == L - 1 else {"name": int(j)}))
    with quiet(): m.train()
    return m, all(np.array_equal(a, x) and np.array_equal(b, y) for (a, b), x, y in zip(keep, X, Y))
def fd(f, x, k, h):
    e = np.zeros(x.shape[1]); e[k] = h
    return (8 * (f(x + e) - f(x - e)) - f(x + 2 * e) + f(x - 2 * e)) / (12 * h)
def checks(H):
    def data(nl, nx=2): rng = np.random.RandomState(nl); return [rng.rand(8 + 2 * (nl - j), nx) for j in range(nl)]
    y = lambda x: x.sum(1)[:, None]
    def attempt(entries):
        m = MFK(print_global=False, theta0=[.1])
        for name, x, v in entries: m.set_training_values(x, v, **({} if name is None else {"name": name}))
        with quiet(): m.train()
    a, b, c = data(3); bad = np.random.RandomState(5).rand(9, 3)
    for what, e in {"level 0 missing": [(1, a, y(a)), (None, b, y(b))], "level 1 missing": [(0, a, y(a)), (2, b, y(b)), (None, c, y(c))], "highest missing": [(0, a, y(a)), (1, b, y(b))], "unknown name": [(0, a, y(a)), ("mid", b, y(b)), (None, c, y(c))], "counted from 1": [(1, a, y(a)), (2, b, y(b)), (None, c, y(c))],
                    "inputs of level 0": [(0, bad, y(bad)), (None, b, y(b))], "inputs of level 1": [(0, a, y(a)), (1, bad, y(bad)), (None, c, y(c))], "inputs of the highest level": [(0, a, y(a)), (1, b, y(b)), (None, bad, y(bad))], "outputs of level 0": [(0, a, y(b)), (None, b, y(b))], "outputs of the highest level": [(0, a, y(a)), (None, b, y(a))]}.items():
        with H.case("rejected", "rejected " + what, dict(data=what), timeout=60): H.raises(lambda: attempt(e), "rejected." + what, "data accepted: " + what, dict(data=what), (ValueError, KeyError, IndexError, TypeError))

def run(H):
    rng = H.rng; checks(H); fails, count = [], [0]
    todo = [(c, k, p, r, nx, L) for c, k in CASES for p in REG for r in REG for nx in (1, 2, 3) for L in (1, 2, 3)]
    for rep in range(H.n(2, 12)):
        for c, k in enumerate(rng.permutation(len(todo))):
            if H.left() < 40: return
            cls, corr, poly, rho, nx, L = todo[k]; inp = dict(model=cls.__name__, corr=corr, poly=poly, rho=rho, nx=nx, levels=L, seed=H.seed, rep=rep, number=c); tag = "%s.%s.%s.%s" % (cls.__name__, corr, poly, rho)
            with H.case("train", tag + " nx=%d levels=%d %d" % (nx, L, rep), inp, timeout=90):
                X, Y, kw = build(cls, corr, poly, rho, nx, L, rng); count[0] += 1
                try: m, same = train(cls, X, Y, kw, rng.permutation(L))
                except Exception as e:
                    if "attempts to train" in str(e) or "ill conditioned" in str(e): fails.append(str(e)); H.ok(len(fails) <= 5 + .05 * count[0], "train.fails", "%d of %d trainings fail" % (len(fails), count[0]), inp); continue      # nearly collinear regressors
                    raise
                inp = dict(inp, X=X, Y=Y)
                H.ok(same, tag + ".frame", "training data modified", inp); H.ok(m.nlvl == L, tag + ".levels", "%s levels" % m.nlvl, inp)
                R = Ref(corr, poly, rho, m.optimal_theta, X, Y, kw["nugget"], m.coeff_pls if cls is MFKPLS else None); sy = np.concatenate(Y).std() + 1e-12
                x = X[-1].min(0) + np.ptp(X[-1], axis=0) * rng.rand(rng.randint(2, 6), nx); keep = x.copy(); v = m.predict_values(x); inp = dict(inp, x=x, theta=m.optimal_theta)
                if R.cond < 1e8:
                    H.close(v[:, 0], R.values(L - 1, x), tag + ".values", "autoregressive recursion", inp, rtol=1e-6, atol=1e-6 * sy)
                    for j in range(L): H.close(m._predict_intermediate_values(x, j + 1)[:, 0], R.values(j, x), tag + ".level", "prediction of level %d" % j, inp, rtol=1e-6, atol=1e-6 * sy)
                if R.cond < 1e8: H.close(m.predict_values(x[:1]), v[:1], tag + ".rows", "one point alone", inp, rtol=1e-7, atol=1e-7 * sy)
                h = 1e-3 * np.ptp(X[-1], axis=0).min()
                for kx in range(nx):
                    try: d = m.predict_derivatives(x, kx)
                    except (ValueError, KeyError, NotImplementedError) as e:
                        H.ok(corr != "squar_exp" or poly == "quadratic" or rho != "constant", tag + ".derivative.missing", "derivative rejected: %s" % e, inp); continue
                    D, D2 = fd(m.predict_values, x, kx, h), fd(m.predict_values, x, kx, h / 2); good = np.abs(D - D2) <= 1e-5 * np.abs(D) + 1e-5 * sy
                    if good.any(): H.close(d[good], D2[good], tag + ".derivative", "derivative %d against central differences" % kx, inp, rtol=1e-4, atol=1e-4 * max(sy, np.abs(D).max()))
                H.ok(np.array_equal(keep, x), "frame", "query points modified", inp)
if __name__ == "__main__": main(run)
