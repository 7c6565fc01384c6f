"""P19  Energy-minimising splines optimise a consistent objective."""
from pyvc.contract import *
contract = Registry()
ASSUMPTIONS = ["scipy.sparse matrices have the semantics of matrices (duplicates added by csc_matrix((data, (rows, cols))))",
    "the linear solver returns the solution of its system (P31 decides SMT's use of it)",
    "C++: machine integers and doubles as mathematical numbers; memory is bounds-checked by obligations, deallocation is not modelled"]
R = "smt.surrogate_models.rmts:RMTS"
MODELS = {"RMTB": "smt.surrogate_models.rmtb:RMTB", "RMTC": "smt.surrogate_models.rmtc:RMTC"}
from pyvc.terms import *

def limits(vc, nx):
    """bounds lo and lo + wd of the box, wd positive"""
    vc.positive("wd")
    return mkarr((num(nx), num(2)), lambda k, c: add(app("lo", k), ite(eq(c, ONE), app("wd", k), ZERO)))
def model(vc, cls="RMTB", nx=2, keys=(0,), **kw):
    sm = vc.new(MODELS[cls], print_global=False, xlimits=limits(vc, nx), **kw)
    ny = vc.dim("ny"); nt = {}
    for k in keys:
        nt[k] = vc.dim("nt%d" % k)
        X, Y = vc.arr("xt%d" % k, nt[k], num(nx)), vc.arr("yt%d" % k, nt[k], ny)
        if k == 0: vc.method(sm, "set_training_values", X, Y)
        else: vc.method(sm, "set_training_derivatives", X, Y, num(k - 1))
    return sm, ny, nt

# ------------------------------------------------------------------ objective, gradient, Hessian
def objective(keys, p):
    def f(vc):
        sm, ny, nt = model(vc, keys=keys); m = vc.dim("m")
        vc.axiom("H", lambda i, j: [eq(app("H", i, j), app("H", j, i))])
        sm.put("full_hess", sparse(mkarr((m, m), lambda i, j: app("H", *sorted((i, j), key=repr)))))
        jac = PyDict({})
        for k in keys:
            J = sparse(vc.arr("J%d" % k, nt[k], m)); jac.d[k] = (J, sparse(vc.it.np.transpose(J)), vc.real("c%d" % k))
        sm.put("full_jac_dict", jac)
        w = vc.arr("w", m); iy = vc.int_("iy"); vc.assume(le(ZERO, iy), lt(iy, ny))
        P = vc.int_("p") if p == "p" else num(p)
        if p == "p": vc.assume(le(num(2), P))
        yt = vc.method(sm, "_get_yt_dict", iy)
        for k in keys: vc.check_arr(vc.it.getitem(yt, k), (nt[k],), lambda t: app("yt%d" % k, t, iy), "training data of the requested output")
        s = vc.snapshot(w)
        F = S(vc.method(sm, "_opt_func", w, P, yt)); G = vc.method(sm, "_opt_grad", w, P, yt); K = vc.method(sm, "_opt_hess", w, P, yt)
        def spec():
            i, j = fresh("i"), fresh("j")
            r = mul(Fraction(1, 2), Sum(i, m, Sum(j, m, mul(app("w", i), app("H", *sorted((i, j), key=repr)), app("w", j)))))
            for k in keys:
                t, q = fresh("t"), fresh("q")
                r = add(r, mul(Fraction(1, 2), var("c%d" % k, "R"), Sum(t, nt[k], power(sub(Sum(q, m, mul(app("J%d" % k, t, q), app("w", q))), app("yt%d" % k, t, iy)), P))))
            return r
        vc.check_eq(F, spec(), "objective: energy plus weighted residuals of every data set")
        vc.check_arr(G, (m,), lambda i: vc.D(F, app("w", i)), "gradient is the derivative of the objective")
        vc.check_arr(K, (m, m), lambda i, j: vc.D(G.get((i,)), app("w", j)), "Hessian is the derivative of the gradient")
        for k in keys:
            C = vc.method(sm, "_opt_dgrad_dyt", w, P, yt, num(k))
            vc.check_arr(C, (m, nt[k]), lambda i, t: vc.D(G.get((i,)), app("yt%d" % k, t, iy)), "dgrad_dyt is the derivative of the gradient with respect to the data")
        vc.check_arr(w, (m,), lambda i: app("w", i), "coefficients not modified")
    return f
for keys in ((0,), (0, 1), (0, 1, 2), (2, 0)):
    for p in (2, 3, 4, 6, "p"): contract("objective, gradient, Hessian, order %s, data sets %s" % (p, keys))(objective(keys, p))

# ------------------------------------------------------------------ assembly of the objective
def pickn(l, i):
    r = l[-1]
    for k in range(len(l) - 2, -1, -1): r = ite(eq(i, num(k)), l[k], r)
    return r
def sized(vc, cls, nx, keys, **kw):
    """model with symbolic sizes, set up"""
    it = vc.it
    if cls == "RMTB":
        o, el = [vc.dim("o%d" % k) for k in range(nx)], [vc.dim("el%d" % k) for k in range(nx)]
        c = [sub(add(a, b), 1) for a, b in zip(o, el)]
        kw.update(order=mkarr((num(nx),), lambda i: pickn(o, i), dtype="i"), num_ctrl_pts=mkarr((num(nx),), lambda i: pickn(c, i), dtype="i"))
        dof = mul(*c); sup = mul(*o)
    else:
        el = [vc.dim("el%d" % k) for k in range(nx)]
        kw.update(num_elements=mkarr((num(nx),), lambda i: pickn(el, i), dtype="i"))
        dof = mul(2 ** nx, *[add(e, 1) for e in el]); sup = num(4 ** nx)
    sm, ny, nt = model(vc, cls, nx, keys, **kw)
    vc.it.setitem(vc.attr(sm, "options"), "smoothness", vc.arr("sm", num(nx)))
    for w in ("regularization_weight", "energy_weight", "grad_weight"): it.setitem(vc.attr(sm, "options"), w, vc.real(w))
    vc.method(sm, "_setup")
    return sm, ny, nt, el, dof, sup

def assembly(cls, nx, keys, energy):
    def f(vc):
        it = vc.it; sm, ny, nt, el, dof, sup = sized(vc, cls, nx, keys, min_energy=energy)
        V = lambda a, b, X, i, d: app("V", *sorted((S(a), S(b)), key=val), *[X(i, num(k)) for k in range(nx)], d)
        def jac(it, a, kw):
            o, a1, a2, X = list(a)
            return sparse(mkarr((X.shape[0], dof), lambda i, d: V(S(a1), S(a2), lambda p, k: X.get((p, k)), i, d)))
        it.stubs[R + "._compute_jac"] = jac
        it.stubs["smt.surrogate_models.rmtc:RMTC._compute_dof2coeff"] = lambda it, a, kw: None
        it.stubs[R + "._solve"] = lambda it, a, kw: vc.arr("sol", dof, ny)
        for k in keys: vc.axiom("xt%d" % k, lambda i, c, k=k: [and_(le(app("lo", c), app("xt%d" % k, i, c)), le(app("xt%d" % k, i, c), add(app("lo", c), app("wd", c))))])
        vc.method(sm, "_new_train")
        T = vc.attr(sm, "full_jac_dict")
        vc.require(sorted(T.d) == sorted(keys), "one residual per data set")
        for k in keys:
            J, JT, c = T.d[k]
            vc.check_arr(J, (nt[k], dof), lambda i, d: V(k, 0, lambda p, q: app("xt%d" % k, p, q), i, d), "data set %d: residual rows are those of its own points and direction" % k)
            vc.check_arr(JT, (dof, nt[k]), lambda d, i: J.get((i, d)), "data set %d: transposed rows" % k)
            vc.check_eq(S(c), ONE if k == 0 else mul(var("grad_weight", "R"), Fraction(1, nx)), "data set %d: weight" % k)
        H = vc.attr(sm, "full_hess")
        def point(q):
            """centroid of cell q of the grid with twice the elements"""
            out = []; r = q
            for k in range(nx - 1, -1, -1):
                e2 = mul(2, el[k]); out.insert(0, add(app("lo", num(k)), mul(app("wd", num(k)), add(mul(2, fmod(r, e2)), 1), power(mul(2, e2), -1)))); r = fdiv(r, e2)
            return lambda p, k: out[int(val(k))]
        def spec(i, j):
            r = mul(var("regularization_weight", "R"), ite(eq(i, j), ONE, ZERO))
            if energy:
                n = mul(*[mul(2, e) for e in el])
                for k in range(nx):
                    q = fresh("q")
                    r = add(r, mul(var("energy_weight", "R"), app("sm", num(k)), power(n, -1), Sum(q, n, mul(V(k + 1, k + 1, point(q), q, i), V(k + 1, k + 1, point(q), q, j)))))
            return r
        vc.check_arr(H, (dof, dof), spec, "energy matrix: regularisation plus weighted mean of squared second derivatives at the cell centres")
        vc.check_arr(H, (dof, dof), lambda i, j: H.get((j, i)), "energy matrix is symmetric")
    return f
for cls in MODELS:
    for nx in (1, 2, 3):
        for energy in (True, False):
            for keys in ((0,), (0, 1)) + (((1, 0), (2, 1, 0)) if nx == 2 else ()):
                if not energy and nx == 3 or nx == 3 and len(keys) > 1: continue
                contract("%s assembly, %d inputs, data sets %s%s" % (cls, nx, keys, "" if energy else ", no energy"))(assembly(cls, nx, keys, energy))

# ------------------------------------------------------------------ rows, predictions, extrapolation
def compute_jac(cls):
    def f(vc):
        it = vc.it; sm, ny, nt, el, dof, sup = sized(vc, cls, 2, (0,)); n, nnz = vc.dim("n"), vc.dim("nnz"); X = vc.arr("x", n, num(2))
        coeff = S(vc.it.getitem(vc.attr(sm, "num"), "coeff"))
        def raw(it, a, kw):
            o, a1, a2, x = list(a); vc.require(x is X, "rows of the given points")
            return (mkarr((nnz,), lambda e: app("dat", a1, a2, e)), mkarr((nnz,), lambda e: app("row", e, s="I"), "i"), mkarr((nnz,), lambda e: app("col", e, s="I"), "i"))
        it.stubs[MODELS[cls] + "._compute_jac_raw"] = raw
        def full(i, c):
            e = fresh("e"); return Sum(e, nnz, ite(and_(eq(app("row", e, s="I"), i), eq(app("col", e, s="I"), c)), app("dat", num(2), num(1), e), ZERO))
        sm.put("full_dof2coeff", None)
        vc.check_arr(vc.method(sm, "_compute_jac", num(2), num(1), X), (n, coeff), full, "rows with respect to the coefficients")
        sm.put("full_dof2coeff", sparse(vc.arr("C", coeff, dof)))
        def spec(i, d):
            c = fresh("c"); return Sum(c, coeff, mul(full(i, c), app("C", c, d)))
        vc.check_arr(vc.method(sm, "_compute_jac", num(2), num(1), X), (n, dof), spec, "rows with respect to the degrees of freedom")
    return f
for cls in MODELS: contract("%s._compute_jac" % cls)(compute_jac(cls))

def rows(vc, cls, nx, sup, lo, hi):
    """contract of _compute_jac_raw (P18): entries depend on the point through its projection on the box, the rows of the
    directions are the derivatives of the value rows with respect to the projected point"""
    it = vc.it
    def D(name, k):     # names: sorted directions
        return "_".join(["F"] + sorted(name.split("_")[1:] + [str(k)]))
    def rule(name):
        def d(args, tgt, dd):
            r = ZERO
            for k in range(nx):
                q = dd(args[1 + k])
                if norm_T(q, it.ctx) is not ZERO: r = add(r, mul(app(D(name, k), *args), q))
            return r
        return d
    names = ["F"]; 
    for _ in range(3): names += sorted({D(a, k) for a in names for k in range(nx)} - set(names))
    for a in names: nm.DERIV[a] = rule(a)
    def raw(it, a, kw):
        o, a1, a2, x = list(a); n = x.shape[0]; a1, a2 = int(val(S(a1))), int(val(S(a2))); name = "F"
        for q in (a1, a2):
            if q: name = D(name, q - 1)
        def at(e):
            i, t = fdiv(e, sup), fmod(e, sup)
            return app(name, t, *[clamp(vc, k, x.get((i, num(k))), lo, hi) for k in range(nx)])
        return (mkarr((mul(n, sup),), at), mkarr((mul(n, sup),), lambda e: fdiv(e, sup), "i"), mkarr((mul(n, sup),), lambda e: app("col", e, s="I"), "i"))
    it.stubs[MODELS[cls] + "._compute_jac_raw"] = raw
def clamp(vc, k, x, lo, hi): return ite(lt(x, lo(k)), lo(k), ite(lt(hi(k), x), hi(k), x))

def prediction(cls, nx, region, extrapolate=True):
    """region: per direction -1 below, 0 inside, 1 above the box, for one arbitrary point of any set of points"""
    def f(vc):
        it = vc.it; sm, ny, nt, el, dof, sup = sized(vc, cls, nx, (0,), extrapolate=extrapolate)
        sup = S(it.getitem(vc.attr(sm, "num"), "support")); coeff = S(it.getitem(vc.attr(sm, "num"), "coeff"))
        lo, hi = lambda k: app("lo", num(k)), lambda k: add(app("lo", num(k)), app("wd", num(k)))
        rows(vc, cls, nx, sup, lo, hi)
        n = vc.dim("n"); x = vc.arr("x", n, num(nx)); rec = []
        it.natives["scipy.sparse.csc_matrix"] = lambda it, a, kw: (rec.append((a[0], kw.get("shape"))), Obj(None))[1]
        I, T = var("I", "I"), var("T", "I"); vc.assume(le(ZERO, I), lt(I, n), le(ZERO, T), lt(T, sup))
        for k, r in enumerate(region):
            xi = app("x", I, num(k)); vc.assume(lt(ZERO, app("wd", num(k))), lt(lo(k), hi(k))); vc.assume(*[lt(xi, lo(k)), lt(xi, hi(k))] if r < 0 else [lt(lo(k), xi), lt(hi(k), xi)] if r else [le(lo(k), xi), le(xi, hi(k))])     # (lo < hi)
        for kx in range(nx + 1): vc.method(sm, "_compute_prediction_mtx", x, num(kx))
        e = add(mul(I, sup), T)
        B = [lo(k) if r < 0 else hi(k) if r else app("x", I, num(k)) for k, r in enumerate(region)]
        v = app("F", T, *B)
        for k, r in enumerate(region):
            if r and extrapolate: v = add(v, mul(app("F_%d" % k, T, *B), sub(app("x", I, num(k)), B[k])))
        for kx in range(nx + 1):
            (d, rc), sh = it.seq_of(rec[kx][0]), rec[kx][1]; r, c = it.seq_of(rc)
            vc.require(len(it.seq_of(sh)) == 2, "shape"); a, b = it.seq_of(sh); vc.check(and_(eq(S(a), n), eq(S(b), coeff)), "shape of the prediction matrix")
            for q in (r, c, d): vc.check(eq(q.shape[0], mul(n, sup)), "one entry per point and basis function")
            t = norm_T(d.get((e,)), it.ctx)
            if kx == 0: vc.check_eq(t, v, "value row: basis at the nearest point of the box, extended linearly"); v0 = v
            else: vc.check_eq(t, vc.D(v0, app("x", I, num(kx - 1))) if extrapolate or not region[kx - 1] else app("F_%d" % (kx - 1), T, *B), "derivative row %d is the derivative of the value row" % (kx - 1))
            vc.check_eq(r.get((e,)), I, "row is the point"); vc.check_eq(c.get((e,)), app("col", e, s="I"), "column is the coefficient")
        vc.check_arr(x, (n, num(nx)), lambda i, k: app("x", i, k), "evaluation points not modified")
    return f
import itertools
for cls in MODELS:
    for nx in (1, 2, 3):
        for region in itertools.product((-1, 0, 1), repeat=nx):
            if nx == 3 and cls == "RMTC" : continue
            contract("%s._compute_prediction_mtx, %d inputs, region %s" % (cls, nx, region), thorough=nx == 3)(prediction(cls, nx, region))
        contract("%s._compute_prediction_mtx, %d inputs, inside, no extrapolation" % (cls, nx))(prediction(cls, nx, (0,) * nx, False))

def predict(cls):
    def f(vc):
        it = vc.it; sm, ny, nt, el, dof, sup = sized(vc, cls, 2, (0,)); coeff = S(it.getitem(vc.attr(sm, "num"), "coeff"))
        sm.put("sol_coeff", vc.arr("sol", coeff, ny)); n = vc.dim("n"); x = vc.arr("x", n, num(2))
        it.stubs[R + "._compute_prediction_mtx"] = lambda it, a, kw: sparse(mkarr((n, coeff), lambda i, c, k=list(a)[2]: app("P", k, i, c)))
        def spec(k):
            def g(i, y):
                c = fresh("c"); return Sum(c, coeff, mul(app("P", num(k), i, c), app("sol", c, y)))
            return g
        vc.check_arr(vc.method(sm, "_predict_values", x), (n, ny), spec(0), "prediction is the value rows times the coefficients")
        for k in range(2): vc.check_arr(vc.method(sm, "_predict_derivatives", x, num(k)), (n, ny), spec(k + 1), "derivative is the rows of that direction times the same coefficients")
    return f
for cls in MODELS: contract("%s._predict_values / _predict_derivatives" % cls)(predict(cls))

# ------------------------------------------------------------------ Newton iteration and output derivatives
def words(vc, m):
    """objective functions as uninterpreted functions of the coefficient vector, order and output"""
    it = vc.it
    def vec(w): c = fresh("c"); return norm_T(Lam(c, m, S(w.get((c,)))), it.ctx)
    def of(a): o, w, p, yt = list(a)[:4]; return vec(w), S(p), S(yt.d["iy"])
    it.stubs[R + "._get_yt_dict"] = lambda it, a, kw: PyDict({"iy": list(a)[1]})
    it.stubs[R + "._opt_func"] = lambda it, a, kw: app("FO", *of(a))
    it.stubs[R + "._opt_grad"] = lambda it, a, kw: (lambda W: mkarr((m,), lambda i: app("GO", *W, i)))(of(a))
    it.stubs[R + "._opt_hess"] = lambda it, a, kw: (lambda W: sparse(mkarr((m, m), lambda i, j: app("HO", *W, i, j))))(of(a))
    it.stubs[R + "._opt_dgrad_dyt"] = lambda it, a, kw: (lambda W, k: mkarr((m, vc.nt[k]), lambda i, t: app("CO", *W, num(k), i, t)))(of(a), int(val(S(list(a)[4]))))
    return vec
def solver(vc, rec, m):
    """linear solver: the solution of the system it was last set up with"""
    def get(it, a, kw):
        s = Obj(None); L = [None]
        def setup(it, a, kw): L[0] = norm_T(it.matlam(a[0]), it.ctx); rec.append(("setup", a[0]))
        def solve(it, a, kw):
            b = a[0]
            def at(p): k = fresh("k"); return Sum(k, m, mul(app("inv", L[0], p, k), b.get((k,))))
            r = mkarr((m,), at).copy(); rec.append(("solve", S(kw["ind_y"]) if "ind_y" in kw else None)); it.np.setitem(a[1], (slice(None),), r); return r
        s.c.update(_setup=Native(setup, "setup"), _solve=Native(solve, "solve")); return s
    vc.it.stubs["smt.utils.linear_solvers:get_solver"] = get

def newton(ny, maxiter):
    def f(vc):
        it = vc.it; sm, _, nt = model(vc); m = vc.dim("m"); vc.nt = nt
        opt = vc.attr(sm, "options")
        for k, v in (("approx_order", vc.int_("p")), ("nonlinear_maxiter", num(maxiter)), ("solver_tolerance", vc.real("tol"))): it.setitem(opt, k, v)
        sm.put("num", PyDict({"dof": m, "y": num(ny)}))
        vec = words(vc, m); rec = []; solver(vc, rec, m); P = var("p", "I"); sm.put("full_hess", sparse(vc.arr("H", m, m))); sm.put("full_jac_dict", PyDict({}))
        sol = vc.arr("w", m, num(ny)); steps = []
        def ls(it, a, kw):
            x, d, func, grad = list(a)
            k = len(steps)
            X, Dv = vec(x), vec(d); steps.append((X, Dv, func, grad))
            z = vc.arr("z%d" % k, m)
            F, G = it.call(func, [z], {}), it.call(grad, [z], {})
            steps[-1] += (vec(z), S(F), G)
            new = vc.arr("s%d" % k, m)
            def go(it, a, kw): vc.check(eq(S(list(a)[0]), ONE), "line search starts at the full Newton step"); return new
            return Native(go, "search")
        it.stubs["smt.utils.line_search:get_line_search_class"] = lambda it, a, kw: Native(ls, "LineSearch")
        vc.method(sm, "_run_newton_solver", sol)
        # reconstruct the iteration from the recorded steps: the norm decides whether an output takes another step
        k = 0; cur = {}
        for iy in range(ny):
            w = vec(mkarr((m,), lambda i: app("w", i, num(iy)))); last = None; n = 0
            while k < len(steps) and steps[k][0] is w and n < maxiter:
                X, Dv, func, grad, Z, F, G = steps[k]
                W = (X, P, num(iy))
                H = norm_T(it.matlam(mkarr((m, m), lambda i, j: app("HO", *W, i, j))), it.ctx)
                c, q = fresh("c"), fresh("q")
                want = norm_T(Lam(c, m, neg(Sum(q, m, mul(app("inv", H, c, q), app("GO", *W, q))))), it.ctx)
                vc.require(Dv is want, "output %d: Newton direction -H^-1 g at the current coefficients" % iy)
                vc.check_eq(F, app("FO", Z, P, num(iy)), "output %d: line search on the objective of that output" % iy)
                vc.check_arr(G, (m,), lambda i: app("GO", Z, P, num(iy), i), "output %d: line search with its gradient" % iy)
                last = k; w = vec(mkarr((m,), lambda i: app("s%d" % k, i))); k += 1; n += 1
            nrm = lambda W: (lambda q: power(Sum(q, m, power(app("GO", W, P, num(iy), q), 2)), Fraction(1, 2)))(fresh("q"))
            if n < maxiter: vc.check(le(nrm(w), var("tol", "R")), "output %d: stops early only at a stationary point" % iy)
            vc.forall((m,), lambda i: vc.check_eq(sol.get((i, num(iy))), app("w", i, num(iy)) if last is None else app("s%d" % last, i), "output %d: result of the last line search" % iy))
        vc.require(k == len(steps), "every step belongs to the iteration of one output")
        vc.require(sm.c.get("mtx") is not None, "matrix stored")
    return f
for ny in (1, 2):
    for mi in (0, 1, 2):
        if (ny, mi) != (2, 0): contract("_run_newton_solver, %d outputs, at most %d steps" % (ny, mi))(newton(ny, mi))

def start(vc):
    it = vc.it; sm, _, nt = model(vc); m, ny = vc.dim("m"), vc.dim("ny")
    opt = vc.attr(sm, "options"); P, M = vc.int_("p"), vc.int_("mi")
    it.setitem(opt, "approx_order", P); it.setitem(opt, "nonlinear_maxiter", M)
    sm.put("num", PyDict({"dof": m, "y": ny})); calls = []
    def run(it, a, kw):
        sol = list(a)[1]; k = len(calls); calls.append(sol)
        vc.check(and_(eq(S(it.getitem(opt, "approx_order")), num(2) if k == 0 else P), eq(S(it.getitem(opt, "nonlinear_maxiter")), ONE if k == 0 else M)), "pass %d: %s" % (k, "quadratic start-up problem, one step" if k == 0 else "the chosen order and number of steps"))
        vc.check_arr(sol, (m, ny), lambda i, y: app("r0", i, y) if k else ZERO, "pass %d starts from %s" % (k, "the start-up solution" if k else "zero"))
        sol.write(lambda i: TRUE, lambda i: app("r%d" % k, *i))
    it.stubs[R + "._run_newton_solver"] = run
    r = vc.method(sm, "_solve")
    vc.require(len(calls) == 2, "two passes")
    vc.check_arr(r, (m, ny), lambda i, y: app("r1", i, y), "solution of the nonlinear problem returned")
    vc.check(and_(eq(S(it.getitem(opt, "approx_order")), P), eq(S(it.getitem(opt, "nonlinear_maxiter")), M)), "options restored")
contract("_solve")(start)

def output(ny, keys, dof2coeff):
    def f(vc):
        it = vc.it; sm, _, nt = model(vc, keys=keys); m, nc, n = vc.dim("m"), vc.dim("nc"), vc.dim("n"); vc.nt = nt
        P = vc.int_("p"); it.setitem(vc.attr(sm, "options"), "approx_order", P)
        vec = words(vc, m); rec = []; solver(vc, rec, m)
        x = vc.arr("x", n, num(2)); sm.put("sol", vc.arr("w", m, num(ny))); sm.put("mtx", sparse(vc.arr("M", m, m)))
        sm.put("full_dof2coeff", sparse(vc.arr("C", nc, m)) if dof2coeff else None)
        def pm(it, a, kw): vc.check(eq(S(list(a)[2]), ZERO), "rows of the values"); return sparse(mkarr((n, nc if dof2coeff else m), lambda i, c: app("P", i, c)))
        it.stubs[R + "._compute_prediction_mtx"] = pm
        r = vc.method(sm, "_predict_output_derivatives", x)
        vc.require(sorted(r.d, key=repr) == sorted([None if k == 0 else k - 1 for k in keys], key=repr), "one entry per data set")
        for k in keys:
            A = r.d[None if k == 0 else k - 1]
            def spec(iy):
                W = (vec(mkarr((m,), lambda i: app("w", i, num(iy)))), P, num(iy))
                H = norm_T(it.matlam(mkarr((m, m), lambda i, j: app("HO", *W, i, j))), it.ctx)
                def g(i, t):
                    d, e, c = fresh("d"), fresh("e"), fresh("c")
                    row = Sum(c, nc, mul(app("P", i, c), app("C", c, d))) if dof2coeff else app("P", i, d)
                    return neg(Sum(d, m, mul(row, Sum(e, m, mul(app("inv", H, d, e), app("CO", *W, num(k), e, t))))))
                return g
            vc.check_shape(A, (n, nt[k], num(ny)), "output derivatives")
            for iy in range(ny): vc.forall((n, nt[k]), lambda i, t: vc.check_eq(A.get((i, t, num(iy))), spec(iy)(i, t), "data set %d, output %d: derivative of the prediction at the minimiser (its own Hessian)" % (k, iy)))
    return f
for ny in (1, 2):
    for keys in ((0,), (0, 2)):
        for c in (False, True): contract("_predict_output_derivatives, %d outputs, data sets %s%s" % (ny, keys, ", with dof2coeff" if c else ""))(output(ny, keys, c))
