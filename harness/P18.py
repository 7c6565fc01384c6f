"""P18: spline and cubic tensor rows against scipy's B-splines and Hermite properties."""
from common import *
import itertools
from scipy.interpolate import BSpline
from smt.surrogate_models import RMTB, RMTC

def make(cls, xl, **kw):
    sm = cls(print_global=False, xlimits=xl, **kw)
    m = xl.mean(1)[None]
    sm.set_training_values(m, np.zeros((1, 1))); sm._setup()
    return sm
def dense(sm, a, b, x):
    d, r, c = sm._compute_jac_raw(a, b, x)
    M = np.zeros((len(x), sm.num["coeff"])); np.add.at(M, (r, c), d)
    return M, r, c
def bsp(o, m, t, q):
    kn = (np.arange(o + m) - o + 1) / (m - o + 1.0); out = np.zeros((len(t), m))
    for j in range(m):
        e = np.zeros(m); e[j] = 1; f = BSpline(kn, e, o - 1)
        if q: f = f.derivative(q) if o - 1 >= q else None
        out[:, j] = f(t) if f is not None else 0
    return out
def tensor(parts):
    M = parts[0]
    for p in parts[1:]: M = (M[:, :, None] * p[:, None, :]).reshape(len(M), -1)
    return M

def run(H):
    for rep_ in range(H.n(8, 60)):
        for nx in (1, 2, 3, 4):
            for dirs in [(0, 0)] + [(int(H.rng.randint(nx + 1)), int(H.rng.randint(nx + 1))) for _ in range(3)] + [(nx, nx), (1, 0), (0, nx)]:
                xl = np.sort(H.rng.uniform(-3, 3, (nx, 2)), 1); xl[:, 1] += .3
                x = H.rng.uniform(xl[:, 0], xl[:, 1], (7, nx)); x[5] = xl[:, 0]; x[6] = xl[:, 1]
                o = H.rng.randint(1, 5 if nx < 3 else 4, nx); m = o + H.rng.randint(0, 5 if nx < 3 else 3, nx)
                inp = dict(xlimits=xl, x=x, order=o, num_ctrl_pts=m, directions=dirs); q = [sum(d == k + 1 for d in dirs) for k in range(nx)]
                with H.case("RMTB", "%dD dirs=%s" % (nx, dirs), inp):
                    sm = make(RMTB, xl, order=o.tolist(), num_ctrl_pts=m.tolist()); xc = x.copy()
                    M, r, c = dense(sm, dirs[0], dirs[1], x)
                    H.ok(c.min() >= 0 and c.max() < np.prod(m), "columns", "columns outside the control points", inp)
                    H.ok((np.bincount(r, minlength=7) == np.prod(o)).all(), "rows", "rows do not belong to the points", inp)
                    t = np.clip((x - xl[:, 0]) / (xl[:, 1] - xl[:, 0]), 1e-15, 1 - 1e-15)
                    if dirs == (0, 0):
                        H.ok((M >= -1e-12).all(), "nonnegative", "negative basis function", inp)
                        H.close(M.sum(1), np.ones(7), "sum", "basis functions do not sum to one", inp, 1e-9, 1e-9)
                    ref = tensor([bsp(o[k], m[k], t[:, k], q[k]) / (xl[k, 1] - xl[k, 0]) ** q[k] for k in range(nx)])
                    ok = np.arange(7) if min(o) > 2 else np.arange(5)     # at knots low orders are not smooth
                    H.close(M[ok], ref[ok], "basis", "row is not the tensor product of B-splines or their derivatives", inp, 1e-6, 1e-7 * (1 + np.abs(ref).max()))
                    H.ok((x == xc).all(), "frame", "evaluation points modified", inp)
                if nx == 4 and rep_ > 2: continue
                e = H.rng.randint(1, 4, nx) if nx < 4 else np.ones(4, int); inp = dict(xlimits=xl, x=x, num_elements=e, directions=dirs)
                with H.case("RMTC", "%dD dirs=%s" % (nx, dirs), inp):
                    sm = make(RMTC, xl, num_elements=e.tolist()); xc = x.copy()
                    M, r, c = dense(sm, dirs[0], dirs[1], x)
                    H.ok(c.min() >= 0 and c.max() < np.prod(e) * 4 ** nx, "columns", "columns outside the coefficients", inp)
                    H.ok((np.bincount(r, minlength=7) == 4 ** nx).all(), "rows", "rows do not belong to the points", inp)
                    H.ok((x == xc).all(), "frame", "evaluation points modified", inp)
                    # within one element the row is that of the monomials of the scaled coordinate
                    w = (xl[:, 1] - xl[:, 0]) / e; el = np.clip(np.ceil((x - xl[:, 0]) / w - 1e-9), 1, e).astype(int) - 1
                    s = np.clip(2 * ((x - xl[:, 0]) / w - el) - 1, -1, 1)
                    ref = np.zeros(M.shape); P = []
                    for k in range(nx):
                        f = [np.polynomial.Polynomial(np.eye(4)[j]).deriv(q[k]) if q[k] else np.polynomial.Polynomial(np.eye(4)[j]) for j in range(4)]
                        P.append(np.stack([g(s[:, k]) for g in f], 1) * (2 / w[k]) ** q[k])
                    T = tensor(P)
                    for i in range(7):
                        ie = np.ravel_multi_index(el[i], e); ref[i, ie * 4 ** nx:(ie + 1) * 4 ** nx] = T[i]
                    H.close(M, ref, "basis", "row is not the tensor product of monomials or their derivatives", inp, 1e-6, 1e-7 * (1 + np.abs(ref).max()))
                    # Hermite: degrees of freedom are nodal values and (scaled) slopes, shared between elements
                    if nx <= 3:
                        D2C = sm._compute_dof2coeff().toarray(); ndof = np.prod(e + 1) * 2 ** nx
                        H.ok(D2C.shape == (M.shape[1], ndof), "dof.shape", "shape of the map from degrees of freedom", inp)
                        node = [H.rng.randint(e[k] + 1) for k in range(nx)]; xn = np.array([[xl[k, 0] + w[k] * node[k] for k in range(nx)]])
                        B = [dense(sm, 0, 0, xn)[0] @ D2C] + [dense(sm, k + 1, 0, xn)[0] @ D2C * w[k] / 2 for k in range(nx)]
                        cols = []
                        for b in B:
                            j = int(np.argmax(np.abs(b))); u = np.zeros(ndof); u[j] = 1; cols.append(j)
                            H.close(b[0], u, "hermite", "nodal value or slope is not one degree of freedom", dict(inp, node=node), 1e-6, 1e-7)
                        H.ok(len(set(cols)) == nx + 1, "hermite.distinct", "values and slopes share a degree of freedom", dict(inp, node=node))
                        # continuity of value and slope across the element boundaries for arbitrary nodal data
                        v = H.rng.randn(ndof); k = H.rng.randint(nx)
                        if e[k] > 1:
                            xb = x[:3].copy(); xb[:, k] = xl[k, 0] + w[k] * H.rng.randint(1, e[k]); d = np.zeros(nx); d[k] = 1e-9
                            for a in range(nx + 1):
                                lo_, hi_ = [dense(sm, a, 0, xb + sg * d)[0] @ D2C @ v for sg in (-1, 1)]
                                H.close(lo_, hi_, "continuity", "value or slope jumps across an element boundary", dict(inp, x=xb, direction=a), 1e-5, 1e-5 * (1 + np.abs(v).max() / w.min()))
                        # product of cubics is reproduced from its nodal data (least squares over the degrees of freedom)
                        if np.prod(e) <= 8:
                            cs = [np.polynomial.Polynomial(H.rng.randn(4)) for _ in range(nx)]; f = lambda z: np.prod([cs[k](z[:, k]) for k in range(nx)], 0)
                            z = H.rng.uniform(xl[:, 0], xl[:, 1], (6 * ndof, nx)); A = dense(sm, 0, 0, z)[0] @ D2C
                            sol = np.linalg.lstsq(A, f(z), rcond=None)[0]
                            H.close(A @ sol, f(z), "cubics", "products of cubics are not reproduced", inp, 1e-4, 1e-5 * (1 + np.abs(f(z)).max()))
    with H.case("RMTB.outside"):
        xl = np.array([[0., 1.], [-1., 2.]]); x = H.rng.uniform(-3, 4, (9, 2)); x[0] = [5, 5]
        sm = make(RMTB, xl, order=3, num_ctrl_pts=6); M, r, c = dense(sm, 0, 0, x); inp = dict(xlimits=xl, x=x)
        H.close(M.sum(1), np.ones(9), "outside", "basis functions do not sum to one outside the box", inp, 1e-9)
        H.ok(c.min() >= 0 and c.max() < 36, "outside.columns", "columns outside the control points", inp)
main(run)
