"""P17: RBF against the basis expansion computed independently."""
from common import *
from smt.surrogate_models import RBF

def basis(xt, x, d0, deg):
    P = np.exp(-(((x[:, None, :] - xt[None]) / d0) ** 2).sum(2))
    if deg >= 0: P = np.hstack([P, np.ones((len(x), 1))])
    if deg == 1: P = np.hstack([P, x])
    return P
def dbasis(xt, x, d0, deg, k):
    P = np.exp(-(((x[:, None, :] - xt[None]) / d0) ** 2).sum(2)) * (-2 * (x[:, None, k] - xt[None, :, k]) / d0[k] ** 2)
    if deg >= 0: P = np.hstack([P, np.zeros((len(x), 1))])
    if deg == 1:
        e = np.zeros(x.shape); e[:, k] = 1; P = np.hstack([P, e])
    return P
def weights(xt, yt, d0, deg, reg):
    nt = len(xt); B = basis(xt, xt, d0, deg); m = B.shape[1]; M = np.zeros((m, m)); M[:nt] = B; M[:, :nt] = B.T
    M[:nt, :nt] += reg * np.eye(nt)
    return M, np.linalg.solve(M, np.vstack([yt, np.zeros((m - nt, yt.shape[1]))])) if np.linalg.cond(M) < 1e7 else None

def run(H):
    for rep_ in range(H.n(6, 40)):
        for nx in (1, 2, 3, 4):
            for deg in (-1, 0, 1):
                for kind in ("num", "list", "array"):
                    nt = nx + 3 + H.rng.randint(10); ny = 1 + H.rng.randint(3); reg = [1e-10, 0.1][H.rng.randint(2)]
                    xt = H.rng.uniform(-2, 2, (nt, nx)); yt = H.rng.randn(nt, ny); x = H.rng.uniform(-2.5, 2.5, (5, nx)); x[4] = xt[1]
                    d0 = H.rng.uniform(.2, 1.2, nx) if kind != "num" else np.full(nx, H.rng.uniform(.2, 1.2))
                    opt = float(d0[0]) if kind == "num" else d0.tolist() if kind == "list" else d0.copy()
                    M, sol = weights(xt, yt, d0, deg, reg)
                    if sol is None: continue
                    inp = dict(xt=xt, yt=yt, x=x, d0=opt, poly_degree=deg, reg=reg); xc = x.copy()
                    with H.case("RBF", "nx=%d deg=%d %s" % (nx, deg, kind), inp):
                        sm = RBF(print_global=False, d0=opt, poly_degree=deg, reg=reg); sm.set_training_values(xt, yt); sm.train()
                        B = basis(xt, x, d0, deg)
                        H.close(sm.mtx, M, "system", "interpolation system", inp, 1e-9)
                        H.close(sm.sol, sol, "weights", "weights do not solve the interpolation system", inp, 1e-6, 1e-7 * (1 + np.abs(sol).max()))
                        H.close(sm.predict_values(x), B @ sol, "value", "prediction is not the basis expansion", inp, 1e-6, 1e-7 * (1 + np.abs(sol).max()))
                        for k in range(nx):
                            H.close(sm.predict_derivatives(x, k), dbasis(xt, x, d0, deg, k) @ sol, "derivative", "derivative %d" % k, dict(inp, kx=k), 1e-6, 1e-6 * (1 + np.abs(sol).max()))
                        o = sm.predict_output_derivatives(x)[None]
                        H.close(o, np.repeat((B @ np.linalg.inv(M)[:, :nt])[:, :, None], ny, 2), "output", "output derivatives", inp, 1e-6, 1e-6 * (1 + np.abs(sol).max()))
                        H.close(np.einsum("ijk,jk->ik", o, yt), sm.predict_values(x), "reproduce", "output derivatives times outputs", inp, 1e-6, 1e-6 * (1 + np.abs(sol).max()))
                        H.ok((x == xc).all(), "frame", "evaluation points modified", inp)
                        H.ok(np.all(sm.options["d0"] == opt), "option", "the d0 option changed", inp)
    for opt in (0.7, [0.7], np.array([0.7])):
        with H.case("RBF.retrain", str(opt)):
            for order in ((1, 3, 2), (3, 1)):
                sm = RBF(print_global=False, d0=opt, poly_degree=1, reg=1e-8)
                for nx in order:
                    xt = H.rng.uniform(-2, 2, (nx + 5, nx)); yt = H.rng.randn(nx + 5, 1); x = H.rng.rand(3, nx); inp = dict(xt=xt, yt=yt, x=x, d0=opt, history=order)
                    sm.set_training_values(xt, yt); sm.train(); d0 = np.full(nx, .7); M, sol = weights(xt, yt, d0, 1, 1e-8)
                    if sol is None: continue
                    H.close(sm.predict_values(x), basis(xt, x, d0, 1) @ sol, "retrain", "after retraining in another dimension", inp, 1e-6, 1e-6)
                    H.close(sm.predict_derivatives(x, nx - 1), dbasis(xt, x, d0, 1, nx - 1) @ sol, "retrain.d", "derivative after retraining in another dimension", inp, 1e-6, 1e-5)
main(run)
