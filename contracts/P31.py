"""P31  Linear solvers return a solution of the given system."""
from pyvc.contract import *
contract = Registry()
ASSUMPTIONS = ["scipy.linalg.lu_factor/lu_solve and scipy.sparse.linalg.splu(M).solve(b): b -> M^-1 b for nonsingular M, arguments unmodified",
    "scipy.linalg.cholesky(M) = U upper triangular with U^T U = M; solve_triangular solves with the referenced triangle",
    "scipy.sparse.find enumerates the entries of the matrix once each; csc_matrix((data,(rows,cols))) adds duplicates",
    "scipy.sparse.linalg.cg/bicgstab/gmres(A, b, x0, M, ...) return an approximate solution of A x = b, may call the callback with any vector and M's matvec with any vector, and modify none of their arguments",
    "convergence rates of the iterative methods are outside the property (the library's), ILU is an incomplete factorisation"]
MOD = "smt.utils.linear_solvers:"

def inverse(vc, M, b):
    L = norm_T(vc.it.matlam(M), vc.it.ctx)
    def at(p, *c):
        k = fresh("k"); return Sum(k, M.shape[0], mul(app("inv", L, p, k), b.get((k,) + c)))
    return mkarr((M.shape[0],) + tuple(b.shape[1:]), at)

def setup(vc, sp=True, n=None, name="A"):
    it = vc.it; it.bag_masks = True
    n = n or vc.dim("n")
    M = vc.arr(name, n, n); keep = M
    if sp: M = sparse(M)
    def factor(it, a, kw):
        m = a[0].copy()
        o = Obj(it.load("smt.utils.options_dictionary:OptionsDictionary"))
        o.c.update(m=m, solve=Native(lambda it, a, kw: inverse(vc, o.c["m"], a[0]), "solve"), kind=kw.get("drop_tol") is not None)
        return o
    N = it.natives
    N["scipy.linalg.lu_factor"] = factor; N["scipy.sparse.linalg.splu"] = factor
    N["scipy.sparse.linalg.spilu"] = factor
    N["scipy.linalg.lu_solve"] = lambda it, a, kw: inverse(vc, a[0].c["m"], a[1])
    def chol(it, a, kw):
        vc.require(not kw.get("lower", False) and len(a) == 1, "the factor is the upper one")
        vc.chol = a[0].copy()
        u = "U" if getattr(vc, "chols", 0) == 0 else "U2"; vc.chols = getattr(vc, "chols", 0) + 1; N_ = a[0].shape[0]
        return mkarr((N_, N_), lambda i, j: app(u, i, j))
    N["scipy.linalg.cholesky"] = chol
    return n, M

def printer(vc):
    p = vc.new("smt.utils.printer:Printer"); p.put("active", False); return p

def spec_inv(n, name, b, idx):
    i, j, k = fresh("i"), fresh("j"), fresh("k")
    return Sum(k, n, mul(app("inv", norm_T(Lam(i, n, Lam(j, n, app(name, i, j))), TOP), idx, k), b(k)))

def direct(which, sp):
    def c(vc):
        n, M = setup(vc, sp); ny = vc.dim("ny")
        s = vc.call(MOD + "get_solver", which)
        vc.method(s, "_setup", M, printer(vc))
        rhs, sol = vc.arr("b", n, ny), vc.arr("s", n, ny)
        q = vc.int_("q"); vc.assume(le(ZERO, q), lt(q, ny))
        np_ = vc.it.np
        r = vc.method(s, "_solve", np_.getitem(rhs, (slice(None), q)), np_.getitem(sol, (slice(None), q)), ind_y=q)
        ok = lambda i: chol_(n, i, lambda k: app("b", k, q)) if which == "dense-chol" else spec_inv(n, "A", lambda k: app("b", k, q), i)
        vc.check_arr(r, (n,), ok, "returned vector solves the system")
        vc.check_arr(sol, (n, ny), lambda i, c: ite(eq(c, q), ok(i), app("s", i, c)), "caller's column holds the solution, other columns untouched")
        vc.check_arr(rhs, (n, ny), lambda i, c: app("b", i, c), "right-hand side not modified")
        vc.check_arr(M, (n, n), lambda i, c: app("A", i, c), "matrix not modified")
        if which == "dense-chol": vc.check_arr(vc.chol, (n, n), lambda i, c: app("A", i, c), "the factorised matrix is the given one")
        r = vc.method(s, "_solve", np_.getitem(rhs, (slice(None), q)))
        vc.check_arr(r, (n,), ok, "without a solution array")
        vc.check_arr(rhs, (n, ny), lambda i, c: app("b", i, c), "right-hand side not modified (2)")
    return c
def chol_(n, i, b, u="U"):
    k, l = fresh("k"), fresh("l")
    return Sum(k, n, mul(app("inv_upper_" + u, i, k), Sum(l, n, mul(app("inv_upper_" + u, l, k), b(l)))))
def again(which, sp, how):
    """history: one solver object set up and used for one system, then for another one (the same array with new content, or another array)"""
    def c(vc):
        n, M = setup(vc, sp); pr = printer(vc); it = vc.it
        s = vc.call(MOD + "get_solver", which)
        vc.method(s, "_setup", M, pr)
        vc.method(s, "_solve", vc.arr("b", n), vc.arr("s", n))
        m = n if how != "other size" else vc.dim("m")
        if how == "same array": M.write(lambda i: TRUE, lambda i: app("B", *i))
        else:
            M = vc.arr("B", m, m)
            if sp: M = sparse(M)
        rhs, sol = vc.arr("c", m), vc.arr("t", m)
        vc.method(s, "_setup", M, pr)
        r = vc.method(s, "_solve", rhs, sol)
        ok = lambda i: chol_(m, i, lambda k: app("c", k), "U2") if which == "dense-chol" else spec_inv(m, "B", lambda k: app("c", k), i)
        vc.check_arr(r, (m,), ok, "the second system is solved, not the first")
        vc.check_arr(sol, (m,), ok, "and written into the caller's array")
        vc.check_arr(rhs, (m,), lambda i: app("c", i), "right-hand side not modified")
        vc.check_arr(M, (m, m), lambda i, j: app("B", i, j), "matrix not modified")
        if which == "dense-chol": vc.check_arr(vc.chol, (m, m), lambda i, j: app("B", i, j), "the factorised matrix is the second one")
    return c
for w, sp in (("dense-lu", False), ("lu", True), ("dense-chol", True), ("mg", True), ("ilu", True)):
    contract("get_solver(%s)._setup/_solve" % w)(direct(w, sp))
    for how in ("same array", "other array", "other size"): contract("get_solver(%s) used again: %s" % (w, how))(again(w, sp, how))

def krylov(method, pc):
    def c(vc):
        sp = pc not in ("dense",)
        n, M = setup(vc, sp); it = vc.it
        rec = {}
        def linop(it, a, kw):
            rec["opshape"] = a[0]; rec["matvec"] = kw["matvec"]; return ("OP",)
        def run(which):
            def f(it, a, kw):
                vc.require(which == method, "the configured iteration is run")
                rec["kw"] = dict(kw)
                vc.check_arr(a[0], (n, n), lambda i, j: app("A", i, j), "the iteration gets the given matrix")
                vc.check_arr(a[1], (n,), lambda i: app("b", i), "the iteration gets the given right-hand side")
                vc.check_arr(kw["x0"], (n,), lambda i: app("s", i), "the iteration starts from the given vector")
                vc.require(pc == "dense" or (kw["M"] is None) == (pc is None), "a preconditioner is used iff configured")
                it.call(kw["callback"], [vc.arr("cb", n) if method != "gmres" else vc.real("res")], {})
                return (vc.arr("kx", n), ZERO)
            return f
        for w in ("cg", "bicgstab", "gmres"): it.natives["scipy.sparse.linalg." + w] = run(w)
        it.natives["scipy.sparse.linalg.LinearOperator"] = linop
        atol, lim = vc.real("atol"), vc.int_("lim")
        s = vc.new(MOD + "KrylovSolver", solver=method, pc=pc, atol=atol, ilimit=lim)
        p = printer(vc)
        vc.method(s, "_setup", M, p)
        rhs, sol = vc.arr("b", n), vc.arr("s", n)
        r = vc.method(s, "_solve", rhs, sol)
        vc.check_arr(r, (n,), lambda i: app("kx", i), "returns the iteration's result")
        vc.check_arr(sol, (n,), lambda i: app("kx", i), "the caller's array holds it")
        vc.check_arr(rhs, (n,), lambda i: app("b", i), "right-hand side not modified")
        vc.check_arr(M, (n, n), lambda i, j: app("A", i, j), "matrix not modified")
        vc.check_eq(rec["kw"]["tol"], atol, "the configured tolerance is used")
        vc.check_eq(rec["kw"]["maxiter"], lim, "the configured iteration limit is used")
        if "matvec" in rec:
            v = vc.arr("v", n)
            z = it.call(rec["matvec"], [v], {})
            vc.check_arr(v, (n,), lambda i: app("v", i), "the preconditioner does not modify its argument")
            vc.check_shape(z, (n,), "the preconditioner maps vectors to vectors")
            if pc in ("lu", "dense"): vc.check_arr(z, (n,), lambda i: spec_inv(n, "A", lambda k: app("v", k), i), "the preconditioner is built from the same matrix")
    return c
for m in ("cg", "bicgstab", "gmres"):
    for pc in (None, "lu", "ilu"): contract("KrylovSolver(%s, pc=%s)" % (m, pc))(krylov(m, pc))
contract("get_solver(krylov-dense)")(krylov("cg", "dense"))

def stationary(kind):
    def c(vc):
        n, M = setup(vc); it = vc.it
        w = vc.real("w"); vc.assume(lt(ZERO, w))
        s = vc.new(MOD + "StationarySolver", solver=kind, damping=w)
        vc.method(s, "_setup", M, printer(vc))
        # right-hand side A x: sweep moves the error e = s - x to (I - P A) e
        A = lambda i, j: app("A", i, j)
        k = fresh("k")
        rhs = mkarr((n,), lambda i: Sum(k, n, mul(A(i, k), app("x", k)))); sol = vc.arr("s", n)
        it.call(vc.attr(s, "iterate"), [rhs, sol], {})
        def err(i):
            j = fresh("j"); return Sum(j, n, mul(A(i, j), sub(app("x", j), app("s", j))))
        if kind == "jacobi": spec = lambda i: add(app("s", i), mul(w, power(A(i, i), -1), err(i)))
        else:
            p, q = fresh("p"), fresh("q")
            L = norm_T(Lam(p, n, Lam(q, n, add(ite(lt(q, p), A(p, q), ZERO), ite(eq(p, q), mul(A(p, p), power(w, -1)), ZERO)))), it.ctx)
            def spec(i):
                l = fresh("l"); return add(app("s", i), Sum(l, n, mul(app("inv", L, i, l), err(l))))
        if kind == "gs": vc.check_arr(s.c["inv"].c["m"], (n, n), lambda i, j: add(ite(lt(j, i), A(i, j), ZERO), ite(eq(i, j), mul(A(i, i), power(w, -1)), ZERO)), "factorised: strict lower part plus diagonal over damping")
        if kind == "gs": # the prover compares the correction through the factorised matrix itself
            Lm = norm_T(vc.it.matlam(s.c["inv"].c["m"]), it.ctx)
            def spec(i):
                l = fresh("l"); return add(app("s", i), Sum(l, n, mul(app("inv", Lm, i, l), err(l))))
        vc.check_arr(sol, (n,), spec, "sweep adds the preconditioned residual: a solution is a fixed point")
        vc.check_arr(M, (n, n), A, "matrix not modified")
    return c
contract("StationarySolver._jacobi")(stationary("jacobi"))
contract("StationarySolver._gs")(stationary("gs"))

def sweeps(vc):
    """_solve performs exactly ilimit sweeps on the caller's array, reading the given right-hand side"""
    n, M = setup(vc); it = vc.it
    lim = vc.int_("lim"); vc.assume(le(ZERO, lim))
    s = vc.new(MOD + "StationarySolver", solver="gs", ilimit=lim)
    for k, v in (("mtx", M), ("printer", printer(vc))): s.put(k, v)
    s.put("callback", vc.new(MOD + "Callback", n, "s", 10, s.c["printer"]))
    rhs, sol = vc.arr("b", n), vc.arr("s", n)
    def sweep(it, a, kw):   # contract of _jacobi/_gs (proved above): an exact solution stays
        vc.check_arr(a[0], (n,), lambda i: app("b", i), "every sweep uses the given right-hand side")
        vc.require(a[1].store is sol.store, "every sweep updates the caller's array")
    s.put("iterate", Native(sweep, "iterate"))
    def show(it, a, kw):   # contract of Callback._print_sol (proved with the Krylov solvers): reads only
        vc.check_arr(a[1], (n,), lambda i: app("s", i), "progress is reported on the iterate")
    it.stubs[MOD + "Callback._print_sol"] = show
    r = vc.method(s, "_solve", rhs, sol)
    vc.require(r.store is sol.store, "returns the caller's array")
    vc.check_arr(sol, (n,), lambda i: app("s", i), "only the sweeps change the solution")
    vc.check_arr(rhs, (n,), lambda i: app("b", i), "right-hand side not modified")
contract("StationarySolver._solve")(sweeps)

def clone(vc):
    it = vc.it
    w, l = vc.real("w"), vc.int_("l")
    s = vc.new(MOD + "StationarySolver", solver="jacobi", damping=w, ilimit=l)
    c = vc.method(s, "_clone")
    o = vc.attr(c, "options")
    vc.check_eq(vc.it.getitem(o, "damping"), w, "damping kept")
    vc.check_eq(vc.it.getitem(o, "ilimit"), l, "iteration limit kept")
    vc.require(vc.it.getitem(o, "solver") == "jacobi", "method kept")
    vc.require(c is not s and vc.attr(c, "options") is not vc.attr(s, "options"), "clone is a separate object")
contract("LinearSolver._clone")(clone)

def coarse(vc):
    """one coarse level, no smoothing: the correction is P (P'AP)^-1 P'(b - A x0): zero for an exact solution"""
    n, M = setup(vc); m = vc.dim("m"); it = vc.it
    P = sparse(vc.arr("P", n, m))
    s = vc.call(MOD + "get_solver", "mg")
    vc.method(s, "_setup", M, printer(vc), mg_matrices=[P])
    k = fresh("k")
    rhs = mkarr((n,), lambda i: Sum(k, n, mul(app("A", i, k), app("x", k))))
    it.setitem(vc.attr(s, "mg_sol"), 0, vc.arr("x", n))
    it.setitem(vc.attr(s, "mg_sol"), 1, mkarr((m,), lambda i: ZERO))
    sol = vc.arr("s", n)
    r = vc.method(s, "_solve", rhs, sol)
    vc.check_arr(r, (n,), lambda i: app("x", i), "an exact solution is unchanged by the coarse-level correction")
    vc.require(r is sol, "the caller's array is returned")
    vc.check_arr(M, (n, n), lambda i, j: app("A", i, j), "matrix not modified")
contract("MultigridSolver one coarse level")(coarse)
