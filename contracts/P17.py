"""P17  Radial basis predictions and derivatives follow the basis expansion."""
from pyvc.contract import *
contract = Registry()
ASSUMPTIONS = ["the dense LU factorisation solves its system (P31 decides SMT's use of it)", "numpy.linalg.inv is the inverse",
    "C++: machine integers and doubles as mathematical numbers; memory is bounds-checked by obligations, deallocation is not modelled"]
R = "smt.surrogate_models.rbf:RBF"


def model(vc, deg, d0="arr", reg=True):
    nt, nx, ny = vc.dim("nt"), vc.dim("nx"), vc.dim("ny")
    vc.positive("d0")
    sm = vc.new(R, print_global=False, poly_degree=deg)
    opt = vc.attr(sm, "options")
    vc.it.setitem(opt, "d0", vc.arr("d0", nx) if d0 == "arr" else vc.arr("d0", 1) if d0 == "one" else vc.real("d0")); vc.it.setitem(opt, "reg", vc.real("reg"))
    vc.method(sm, "set_training_values", vc.arr("xt", nt, nx), vc.arr("yt", nt, ny))
    vc.d0 = (lambda k: app("d0", k)) if d0 == "arr" else (lambda k: app("d0", ZERO)) if d0 == "one" else (lambda k: var("d0", "R"))
    return sm, nt, nx, ny, nd(deg, nt, nx)
def nd(deg, nt, nx): return add(nt, {-1: ZERO, 0: ONE, 1: add(nx, 1)}[deg])

def phi(vc, nx, x, t):
    """exp(-|(x - xt_t) / d0|^2)"""
    k = fresh("k")
    return exp(neg(Sum(k, nx, power(mul(sub(x(k), app("xt", t, k)), power(vc.d0(k), -1)), 2))))
def basis(vc, deg, nt, nx, x, j):
    """j-th basis function at the point x"""
    if deg < 0: return phi(vc, nx, x, j)
    r = ONE if deg == 0 else ite(eq(j, nt), ONE, x(sub(j, add(nt, 1))))
    return ite(lt(j, nt), phi(vc, nx, x, j), r)
def expansion(vc, deg, nt, nx, x, sol):
    t, k = fresh("t"), fresh("k")
    r = Sum(t, nt, mul(phi(vc, nx, x, t), sol(t)))
    if deg >= 0: r = add(r, sol(nt))
    if deg == 1: r = add(r, Sum(k, nx, mul(x(k), sol(add(nt, add(k, 1))))))
    return r

def predict(deg, d0):
    def f(vc):
        sm, nt, nx, ny, m = model(vc, deg, d0); n = vc.dim("n"); x = vc.arr("x", n, nx)
        vc.method(sm, "_setup")
        sm.put("sol", vc.arr("sol", m, ny))
        y = vc.method(sm, "_predict_values", x)
        spec = lambda i, c: expansion(vc, deg, nt, nx, lambda k: app("x", i, k), lambda j: app("sol", j, c))
        vc.check_arr(y, (n, ny), spec, "prediction is the basis expansion")
        kx = vc.int_("kx"); vc.assume(le(ZERO, kx), lt(kx, nx))
        dy = vc.method(sm, "_predict_derivatives", x, kx)
        vc.check_arr(dy, (n, ny), lambda i, c: vc.D(spec(i, c), app("x", i, kx)), "derivative in direction kx is the partial derivative of the prediction")
        vc.check_arr(x, (n, nx), lambda i, k: app("x", i, k), "evaluation points not modified")
        o = vc.it.getitem(vc.attr(sm, "options"), "d0")
        if d0 == "num": vc.check_eq(S(o), vc.d0(0), "the d0 option keeps its value")
        else: vc.check_arr(o, (nx if d0 == "arr" else 1,), vc.d0, "the d0 option keeps its value")
    return f
for d in (-1, 0, 1):
    for d0 in ("arr", "num", "one"): contract("RBF._predict_values / _predict_derivatives degree %d d0 %s" % (d, d0))(predict(d, d0))

def inverse(vc, L, b):
    def at(p):
        k = fresh("k"); return Sum(k, b.shape[0], mul(app("inv", L, p, k), b.get((k,))))
    return mkarr((b.shape[0],), at)

def train(deg, again=None):
    def f(vc):
        sm, nt, nx, ny, m = model(vc, deg, "num" if again else "arr")
        rec = {}
        class O: pass
        def get_solver(it, a, kw):
            s = Obj(it.load("smt.utils.options_dictionary:OptionsDictionary"))
            def setup(it, a, kw): rec["L"] = norm_T(it.matlam(a[0]), it.ctx)
            def solve(it, a, kw):
                r = inverse(vc, rec["L"], a[0])
                it.np.setitem(a[1], (slice(None),), r); return r
            s.c.update(_setup=Native(setup, "setup"), _solve=Native(solve, "solve"))
            return s
        vc.it.stubs["smt.utils.linear_solvers:get_solver"] = get_solver
        if again: again(vc, sm, nt, nx, ny)
        vc.method(sm, "train")
        M = vc.attr(sm, "mtx"); sol = vc.attr(sm, "sol")
        x = lambda i: lambda k: app("xt", i, k)
        b = lambda i, j: basis(vc, deg, nt, nx, x(i), j)
        reg = lambda i, j: ite(eq(i, j), var("reg", "R"), ZERO)
        vc.check_shape(M, (m, m), "system matrix")
        vc.forall((nt, m), lambda i, j: vc.check_eq(M.get((i, j)), add(b(i, j), reg(i, j)), "interpolation rows hold the basis at the training points"))
        vc.forall((m, nt), lambda i, j: vc.check_eq(M.get((i, j)), add(b(j, i), reg(i, j)), "the system is symmetric"))
        if deg >= 0: vc.forall((sub(m, nt), sub(m, nt)), lambda i, j: vc.check_eq(M.get((add(nt, i), add(nt, j))), ZERO, "zero polynomial block"))
        L = norm_T(vc.it.matlam(M), vc.it.ctx)
        def spec(p, c):
            k = fresh("k"); return Sum(k, nt, mul(app("inv", L, p, k), app("yt", k, c)))
        vc.check_arr(sol, (m, ny), spec, "weights solve the interpolation system (right-hand side: outputs, then zeros)")
        vc.check_arr(vc.it.getitem(vc.it.getitem(vc.it.getitem(vc.attr(sm, "training_points"), None), 0), 0), (nt, nx), lambda i, k: app("xt", i, k), "training inputs not modified")
    return f
for d in (-1, 0, 1): contract("RBF.train degree %d" % d)(train(d))

def output_derivs(deg):
    """with weights sol = M^-1 [yt; 0], the output derivatives times the outputs reproduce the prediction"""
    def f(vc):
        sm, nt, nx, ny, m = model(vc, deg); n = vc.dim("n"); x = vc.arr("x", n, nx)
        vc.method(sm, "_setup"); sm.put("nt", nt)
        M = vc.arr("M", m, m); sm.put("mtx", M)
        L = norm_T(vc.it.matlam(M), vc.it.ctx)
        def w(p, c):
            k = fresh("k"); return Sum(k, nt, mul(app("inv", L, p, k), app("yt", k, c)))
        dy = vc.it.getitem(vc.method(sm, "_predict_output_derivatives", x), None)
        vc.check_shape(dy, (n, nt, ny), "output derivatives")
        def chk(i, c):
            t = fresh("t")
            vc.check_eq(Sum(t, nt, mul(dy.get((i, t, c)), app("yt", t, c))), expansion(vc, deg, nt, nx, lambda k: app("x", i, k), lambda j: w(j, c)), "derivatives times outputs give the prediction")
        vc.forall((n, ny), chk)
        p = fresh("p")
        vc.check_arr(dy, (n, nt, ny), lambda i, t, c: expansion(vc, deg, nt, nx, lambda k: app("x", i, k), lambda j: app("inv", L, j, t)), "derivative with respect to output t is the basis expansion with weights M^-1 e_t")
        vc.check_arr(x, (n, nx), lambda i, k: app("x", i, k), "evaluation points not modified")
    return f
for d in (-1, 0, 1): contract("RBF._predict_output_derivatives degree %d" % d)(output_derivs(d))
