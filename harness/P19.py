"""P19: regularised tensor splines: objective, gradient, Hessian, derivatives on the real code."""
from common import *
import itertools
from smt.surrogate_models import RMTB, RMTC

def build(H, cls, nx, ny, keys, **kw):
    xl = np.sort(H.rng.uniform(-3, 3, (nx, 2)), 1); xl[:, 1] += .5
    o = dict(xlimits=xl, smoothness=H.rng.uniform(.3, 3, nx).tolist(), regularization_weight=10 ** H.rng.uniform(-4, -2), energy_weight=10 ** H.rng.uniform(-3, 0),
             grad_weight=H.rng.uniform(.1, 2), approx_order=int(H.rng.choice([2, 4, 6])), min_energy=bool(H.rng.randint(4)), solver="lu", derivative_solver="lu", nonlinear_maxiter=25)
    if cls is RMTB:
        od = H.rng.randint(1, 5, nx); o.update(order=od.tolist(), num_ctrl_pts=(od + H.rng.randint(0, 4, nx)).tolist())
    else: o.update(num_elements=H.rng.randint(1, 4 if nx < 3 else 2, nx).tolist())
    o.update(kw); D = {}
    for k in keys:
        n = 3 + H.rng.randint(8); D[k] = (H.rng.uniform(xl[:, 0], xl[:, 1], (n, nx)), H.rng.randn(n, ny) * 2)
    sm = cls(print_global=False, **o); give(sm, D, keys)
    return sm, o, D, xl
def give(sm, D, keys):
    for k in keys:
        if k == 0: sm.set_training_values(*[z.copy() for z in D[k]])
        else: sm.set_training_derivatives(*[z.copy() for z in D[k]], k - 1)
def rowsof(sm, a, b, x):
    d, r, c = sm._compute_jac_raw(a, b, x); M = np.zeros((len(x), sm.num["coeff"])); np.add.at(M, (r, c), d)
    return M if sm.full_dof2coeff is None else M @ sm.full_dof2coeff.toarray()
def energy(sm, o, xl):
    n = len(xl); m = sm.num["dof"]; K = o["regularization_weight"] * np.eye(m)
    if o["min_energy"]:
        g = [xl[k, 0] + (np.arange(2 * e) + .5) / (2 * e) * (xl[k, 1] - xl[k, 0]) for k, e in enumerate(sm.num["elem_list"])]
        q = np.stack([z.ravel() for z in np.meshgrid(*g, indexing="ij")], 1)
        for k in range(n):
            R = rowsof(sm, k + 1, k + 1, q); K += o["energy_weight"] * o["smoothness"][k] * R.T @ R / len(q)
    return K
def rel(a): return 1 + np.abs(a).max()

def run(H):
    for rep_ in range(H.n(8, 60)):
        for cls in (RMTB, RMTC):
            for nx, keys in ((1, (0,)), (1, (1, 0)), (2, (0, 1, 2)), (2, (2, 0)), (3, (0, 2))):
                ny = 1 + H.rng.randint(3)
                ctx = dict(model=cls.__name__, nx=nx, keys=keys)
                with H.case(cls.__name__, "%dD data %s" % (nx, keys), ctx):
                    sm, o, D, xl = build(H, cls, nx, ny, keys, extrapolate=bool(rep_ % 2 == 0)); inp = dict(ctx, options=o, data=D); sm.train(); m = sm.num["dof"]
                    p = o["approx_order"]; K = energy(sm, o, xl); J = {k: rowsof(sm, k, 0, D[k][0]) for k in keys}; c = {k: 1. if k == 0 else o["grad_weight"] / nx for k in keys}
                    for iy in range(ny):
                        w = H.rng.randn(m) * .5; yt = sm._get_yt_dict(iy); res = {k: J[k] @ w - D[k][1][:, iy] for k in keys}
                        F = .5 * w @ K @ w + sum(.5 * c[k] * (res[k] ** p).sum() for k in keys)
                        G = K @ w + sum(.5 * c[k] * p * J[k].T @ res[k] ** (p - 1) for k in keys)
                        Q = K + sum(.5 * c[k] * p * (p - 1) * J[k].T @ (res[k][:, None] ** (p - 2) * J[k]) for k in keys)
                        w0 = w.copy()
                        H.close(sm._opt_func(w, p, yt), F, "objective", "objective is not the weighted energy plus residuals", inp, 1e-8, 1e-9)
                        H.close(sm._opt_grad(w, p, yt), G, "gradient", "gradient is not that of the objective", inp, 1e-7, 1e-8 * rel(G))
                        H.close(sm._opt_hess(w, p, yt).toarray(), Q, "hessian", "Hessian is not the derivative of the gradient", inp, 1e-7, 1e-8 * rel(Q))
                        for k in keys:
                            C = -.5 * c[k] * p * (p - 1) * J[k].T * res[k] ** (p - 2)
                            H.close(np.asarray(sm._opt_dgrad_dyt(w, p, yt, k)), C, "dgrad", "dgrad_dyt", inp, 1e-7, 1e-8 * rel(C))
                        H.ok((w == w0).all(), "frame", "coefficients modified", inp)
                        if p == 2 and np.linalg.cond(Q) < 1e9:
                            rhs = sum(c[k] * J[k].T @ D[k][1][:, iy] for k in keys); s = np.linalg.solve(Q, rhs)
                            H.close(sm.sol[:, iy], s, "optimum", "solution does not minimise the quadratic objective", inp, 1e-5, 1e-6 * rel(s))
                    H.ok(sm.options["approx_order"] == p and sm.options["nonlinear_maxiter"] == 25, "options", "options not restored after training", inp)
                    # derivatives of the prediction
                    side = np.array(list(itertools.product((-1, 0, 1), repeat=nx))) if o["extrapolate"] else np.zeros((4, nx), int)
                    wd = xl[:, 1] - xl[:, 0]; u = H.rng.uniform(.05, .95, side.shape); x = np.where(side < 0, xl[:, 0] - u * wd, np.where(side > 0, xl[:, 1] + u * wd, xl[:, 0] + u * wd)); inp = dict(inp, x=x)
                    # keep away from element boundaries, where low-order splines have kinks
                    el = sm.num["elem_list"]; f = (x - xl[:, 0]) / wd * el; f = np.where((side == 0) & (np.abs(f - np.round(f)) < 1e-3), f + 2e-3, f); x = xl[:, 0] + f / el * wd; xc = x.copy()
                    for k in range(nx):
                        h = 1e-5 * wd[k] / el[k]; e = np.zeros(nx); e[k] = h
                        fd = (sm.predict_values(x + e) - sm.predict_values(x - e)) / (2 * h); d = sm.predict_derivatives(x, k)
                        H.close(d, fd, "derivative", "predicted derivative in direction %d is not that of the prediction" % k, inp, 1e-4, 1e-5 * (rel(fd) + np.abs(sm.sol_coeff).max() / wd[k]))
                    if o["extrapolate"]:
                        b = np.clip(x, xl[:, 0] + 1e-15 * wd, xl[:, 1] - 1e-15 * wd)
                        lin = sm.predict_values(b) + sum(sm.predict_derivatives(b, k) * (x - b)[:, k:k + 1] for k in range(nx)); H.close(sm.predict_values(x), lin, "extrapolation", "not the linear extension from the nearest point of the box", inp, 1e-6, 1e-6 * (rel(lin) + np.abs(sm.sol_coeff).max()))
                    H.ok((x == xc).all(), "frame.x", "evaluation points modified", inp)
                    # output derivatives solve the linearised optimality condition of each output
                    if m <= 80:
                        P = rowsof(sm, 0, 0, x[side.any(1) == 0]) if o["extrapolate"] else rowsof(sm, 0, 0, x); od = sm.predict_output_derivatives(x[side.any(1) == 0] if o["extrapolate"] else x)
                        for iy in range(ny):
                            res = {k: J[k] @ sm.sol[:, iy] - D[k][1][:, iy] for k in keys}
                            Q = K + sum(.5 * c[k] * p * (p - 1) * J[k].T @ (res[k][:, None] ** (p - 2) * J[k]) for k in keys)
                            if np.linalg.cond(Q) > 1e9: continue
                            for k in keys:
                                want = P @ np.linalg.solve(Q, .5 * c[k] * p * (p - 1) * J[k].T * res[k] ** (p - 2))
                                H.close(od[None if k == 0 else k - 1][:, :, iy], want, "output", "output derivatives of data set %d, output %d" % (k, iy), inp, 1e-4, 1e-6 * rel(want))
    for cls in (RMTB, RMTC):
        with H.case("zero outputs", cls.__name__):
            xl = np.array([[0., 1.]]); xt = np.linspace(0, 1, 5)[:, None]; inp = dict(model=cls.__name__, xt=xt, yt=0)
            sm = cls(print_global=False, xlimits=xl); sm.set_training_values(xt, np.zeros((5, 1))); sm.train()
            H.close(sm.predict_values(xt), np.zeros((5, 1)), "zero", "all-zero outputs", inp, 1e-9, 1e-9)
        with H.case("order of the data", cls.__name__):
            xl = np.array([[0., 1.]]); xt = np.linspace(0, 1, 5)[:, None]; D = {0: (xt, np.sin(xt)), 1: (xt, -3 * np.cos(xt))}; r = []
            for keys in ((0, 1), (1, 0)):
                sm = cls(print_global=False, xlimits=xl, approx_order=2, solver="lu"); give(sm, D, keys); sm.train(); r.append(sm.predict_values(xt))
            H.close(r[0], r[1], "order", "the model depends on whether values or derivatives are given first", dict(model=cls.__name__, data=D), 1e-6, 1e-7)
            r = []
            for gw in (1e-9, 1e9):
                sm = cls(print_global=False, xlimits=xl, approx_order=2, solver="lu", grad_weight=gw); give(sm, D, (0, 1)); sm.train(); r.append(sm.predict_derivatives(xt[2:3], 0)[0, 0])
            H.ok(abs(r[0] - np.cos(.5)) < .2 and abs(r[1] + 3 * np.cos(.5)) < .4, "weight", "grad_weight does not weigh the derivative data", dict(model=cls.__name__, data=D, derivatives=r))
main(run)
