import numpy as np, scipy.sparse as sp
from common import *

def run(H):
    from smt.utils import linear_solvers as L
    from smt.utils.printer import Printer
    pr = Printer(); pr.active = False
    rng = H.rng
    def system(n):
        B = rng.randn(n, n) * (rng.rand(n, n) < 0.5)
        A = B @ B.T + (n + 1) * np.eye(n) * rng.uniform(1, 3)
        return A
    for t in range(H.n(25, 300)):
        n, ny = int(rng.randint(1, 12)), int(rng.randint(1, 4))
        A = system(n); b = rng.randn(n, ny)
        inp = dict(A=A.tolist(), b=b.tolist())
        for name in ("dense-lu", "dense-chol", "lu", "krylov", "krylov-lu", "krylov-mg", "krylov-dense", "mg", "ilu", "gs", "jacobi"):
            with H.case("solve", name, inp):
                s = L.get_solver(name)
                dense = name in ("dense-lu", "krylov-dense")
                M = A.copy() if dense else sp.csc_matrix(A)
                s._setup(M, pr)
                rhs = b.copy()
                tol = 1e-8
                for lay in ("C", "F"):
                    sol = np.zeros((n, ny), order=lay)
                    for q in range(ny):
                        if name in ("gs", "jacobi"):   # an exact solution is a fixed point
                            sol[:, q] = np.linalg.solve(A, b[:, q])
                        r = s._solve(rhs[:, q], sol[:, q], ind_y=q)
                        if name == "ilu": continue
                        H.close(A @ np.asarray(r).ravel(), b[:, q], "P31", "residual of the returned vector (%s)" % lay, inp, rtol=0, atol=1e-6)
                        H.close(A @ sol[:, q], b[:, q], "P31", "residual of the caller's column (%s)" % lay, inp, rtol=0, atol=1e-6)
                H.close(rhs, b, "P31", "rhs unchanged", inp, rtol=0, atol=0)
                H.close(M if dense else M.toarray(), A, "P31", "matrix unchanged", inp, rtol=0, atol=0)
        for name in ("dense-lu", "dense-chol", "lu", "krylov", "krylov-lu", "krylov-dense", "mg"):   # one object, several systems
            with H.case("again", name, inp):
                s = L.get_solver(name); dense = name in ("dense-lu", "krylov-dense"); M = A.copy() if dense else sp.csc_matrix(A)
                s._setup(M, pr); s._solve(b[:, 0].copy(), np.zeros(n))
                for step in range(3):
                    if step == 0: B = system(n); M = B.copy() if dense else sp.csc_matrix(B)
                    elif step == 1:
                        B = B * 2.5 + np.eye(n)
                        if dense: M[:] = B
                        else: M = sp.csc_matrix(B)
                    else: B = system(n + 1); M = B.copy() if dense else sp.csc_matrix(B)
                    c = rng.randn(len(B)); s._setup(M, pr); x = s._solve(c.copy(), np.zeros(len(B)))
                    H.close(B @ x, c, "P31", "residual of the system set up last", dict(inp, B=B.tolist(), c=c.tolist(), step=step), rtol=0, atol=1e-5)
        for method in ("cg", "bicgstab", "gmres"):
            for pc in (None, "lu", "gs", "jacobi", "ilu"):
                if method == "cg" and pc == "gs": continue   # Gauss-Seidel is not symmetric
                with H.case("krylov", "%s/%s" % (method, pc), inp):
                    s = L.KrylovSolver(solver=method, pc=pc)
                    M = sp.csc_matrix(A); s._setup(M, pr)
                    for q in range(ny):
                        sol = np.zeros((n, ny)); rhs = b.copy()
                        s._solve(rhs[:, q], sol[:, q], ind_y=q)
                        H.close(A @ sol[:, q], b[:, q], "P31", "residual", inp, rtol=0, atol=1e-5)
                        H.close(rhs, b, "P31", "rhs unchanged", inp, rtol=0, atol=0)
        for kind in ("gs", "jacobi"):
            w = float(rng.uniform(0.3, 1.0)); x = rng.randn(n); s0 = rng.randn(n)
            with H.case("stationary", kind, dict(inp, w=w)):
                s = L.StationarySolver(solver=kind, damping=w, ilimit=1); s._setup(sp.csc_matrix(A), pr)
                P = np.diag(np.diag(A)) / w + (np.tril(A, -1) if kind == "gs" else 0)
                got = s._solve(A @ x, s0.copy())
                H.close(got, s0 + np.linalg.solve(P, A @ (x - s0)), "P31", "one sweep", inp, rtol=0, atol=1e-8)
                c = s._clone()
                H.ok(c.options["damping"] == w and c.options["solver"] == kind and c.options["ilimit"] == 1, "P31", "clone keeps options", inp)
        if n > 2:
            with H.case("multigrid", "coarse", inp):
                m = max(1, n // 2); P = rng.rand(n, m); s = L.MultigridSolver(solver="jacobi", mg_cycles=int(rng.randint(0, 3)))
                M = sp.csc_matrix(A); s._setup(M, pr, mg_matrices=[sp.csc_matrix(P)])
                x = rng.randn(n); s.mg_sol[0][:] = x; s.mg_sol[1][:] = 0
                H.close(s._solve(A @ x, np.zeros(n)), x, "P31", "exact solution is a fixed point", inp, rtol=0, atol=1e-6)
main(run)
