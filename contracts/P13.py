"""P13  Kriging predictions and their derivatives (mean).  P14 uses the same model state."""
from pyvc.contract import *
contract = Registry()
ASSUMPTIONS = ["machine arithmetic treated as real arithmetic"]
from contracts.P12 import kern
from contracts import kmat
from contracts.kmat import S2
def F(x): return num(Fraction(x))
MODELS = {"KRG": "smt.surrogate_models.krg:KRG", "KPLS": "smt.surrogate_models.kpls:KPLS", "KPLSK": "smt.surrogate_models.kplsk:KPLSK", "GEKPLS": "smt.surrogate_models.gekpls:GEKPLS", "MGP": "smt.surrogate_models.krg_mgp:MGP"}
class Kr:
    """a trained kriging model with arbitrary training data, scales, parameters and coefficients"""
    def __init__(s, vc, cls, corr, poly, nx=None, h=None):
        s.vc, s.corr, s.poly, s.pls = vc, corr, poly, cls in ("KPLS", "GEKPLS")
        vc.it.natives["sklearn.metrics.pairwise.check_pairwise_arrays"] = lambda it, a, kw: (a[0], a[1])
        s.nx = nx = nx if nx is not None else vc.dim("nx"); s.nt = nt = vc.dim("nt"); s.h = vc.dim("h") if s.pls else nx
        vc.axiom("sc", lambda c: [lt(ZERO, app("sc", c))]); vc.assume(lt(ZERO, vc.real("ys")))
        o = s.o = vc.new(MODELS[cls], print_global=False, corr=corr, poly=poly)
        s.p = ONE if poly == "constant" else norm_T(add(nx, 1), vc.it.ctx) if poly == "linear" else norm_T(mul(F("1/2"), add(nx, 1), add(nx, 2)), vc.it.ctx)
        for k, v in dict(nx=nx, ny=1, nt=nt, X_offset=vc.arr("off", nx), X_scale=vc.arr("sc", nx), X_norma=vc.arr("X", nt, nx), y_mean=mkarr((1,), lambda i: vc.real("ym")), y_std=mkarr((1,), lambda i: vc.real("ys")), optimal_theta=vc.arr("th", s.h),
                         optimal_par=PyDict({"beta": vc.arr("beta", s.p, 1), "gamma": vc.arr("gamma", nt, 1), "C": vc.arr("C", nt, nt), "G": vc.arr("G", s.p, s.p), "Ft": vc.arr("Ft", nt, s.p), "sigma2": mkarr((1,), lambda i: vc.real("s2"))}), F=vc.arr("F", nt, s.p)).items(): o.put(k, v)
        if cls != "KRG": vc.it.setitem(vc.attr(o, "options"), "n_comp", s.h); o.put("coeff_pls", vc.arr("w", nx, s.h))
        vc.axiom("th", lambda c: [le(ZERO, app("th", c))])
        if poly == "quadratic":      # basis by its own contract (P12): a function of the point
            def basis(it, a, kw): x = a[0]; vc.check(eq(x.shape[1], nx), "basis of the inputs"); k = fresh("c"); return mkarr((x.shape[0], s.p), lambda i, l: app("quad", Lam(k, nx, x.get((i, k))), l))
            vc.it.stubs["smt.utils.kriging_utils:quadratic"] = basis
    def xn(s, p, c, x="x"): return mul(sub(app(x, p, c), app("off", c)), power(app("sc", c), -1))
    def k(s, p, t):
        """correlation of point p with training point t"""
        df = lambda c: sub(s.xn(p, c), app("X", t, c))
        g = (lambda v: power(v, num(2))) if s.corr == "squar_exp" else absf
        if not s.pls: return kern(s.corr, lambda c: app("th", c), lambda c: g(df(c)), s.nx)
        def dist(l): c = fresh("c"); return Sum(c, s.nx, mul(g(df(c)), g(app("w", c, l))))
        return kern(s.corr, lambda c: app("th", c), dist, s.h)
    def trend(s, p, b):
        """trend with coefficients b(column)"""
        c = fresh("c"); r = b(ZERO)
        if s.poly == "constant": return r
        if s.poly == "quadratic": return Sum(c, s.p, mul(s.f(p, c), b(c)))
        r = add(r, Sum(c, s.nx, mul(s.xn(p, c), b(add(c, 1)))))
        return r
    def mean(s, p):
        t = fresh("t")
        return add(S(s.vc.real("ym")), mul(S(s.vc.real("ys")), add(s.trend(p, lambda c: app("beta", c, ZERO)), Sum(t, s.nt, mul(s.k(p, t), app("gamma", t, ZERO))))))
    # variance
    def f(s, p, l):
        """trend basis function l at point p"""
        if s.poly == "constant": return ONE
        if s.poly == "linear": return ite(eq(l, ZERO), ONE, s.xn(p, sub(l, 1)))
        c = fresh("c"); return app("quad", Lam(c, s.nx, s.xn(p, c)), l)
    def rt(s, p, a): t = fresh("t"); return Sum(t, s.nt, mul(app("inv_lower_C", a, t), s.k(p, t)))
    def variance(s, p, red, inv):
        """process variance times one minus the correlation reduction plus the regression term; red(l): F'R^-1 r, inv(j, l): factor of (F'R^-1F)^-1"""
        a, j, l = fresh("a"), fresh("j"), fresh("l")
        return mul(S(s.vc.real("s2")), add(ONE, neg(Sum(a, s.nt, power(s.rt(p, a), num(2)))), Sum(j, s.p, power(Sum(l, s.p, mul(inv(j, l), sub(red(l), s.f(p, l)))), num(2)))))
CASES = [("KRG", c) for c in ("squar_exp", "abs_exp", "matern32", "matern52")] + [("KPLS", c) for c in ("squar_exp", "abs_exp")] + [("KPLSK", "squar_exp"), ("GEKPLS", "squar_exp"), ("GEKPLS", "abs_exp")]
def values(cls, corr, poly):
    def f(vc):
        s = Kr(vc, cls, corr, poly); n = vc.dim("n"); x = vc.arr("x", n, s.nx); keep = vc.snapshot(x)
        y = vc.method(s.o, "predict_values", x)
        vc.check_arr(y, (n, 1), lambda p, q: s.mean(p), "trend plus correlation with the weights")
        vc.check_arr(x, (n, s.nx), lambda i, j: keep.get((i, j)), "frame: points")
    return f
def derivs(cls, corr, poly):
    def f(vc):
        s = Kr(vc, cls, corr, poly); n = vc.dim("n"); x = vc.arr("x", n, s.nx); keep = vc.snapshot(x); kx = vc.int_("kx"); vc.assume(le(ZERO, kx), lt(kx, s.nx))
        y = vc.method(s.o, "predict_derivatives", x, kx)
        vc.check_arr(y, (n, 1), lambda p, q: vc.D(s.mean(p), app("x", p, kx)), "partial derivative of the mean")
        vc.check_arr(x, (n, s.nx), lambda i, j: keep.get((i, j)), "frame: points")
    return f
for cls, corr in CASES:
    for poly in ("constant", "linear", "quadratic"):
        contract("%s mean, %s kernel, %s trend" % (cls, corr, poly))(values(cls, corr, poly))
        if corr == "squar_exp" and poly != "quadratic": contract("%s derivative of the mean, %s kernel, %s trend" % (cls, corr, poly))(derivs(cls, corr, poly))
def other(cls, corr, poly):
    """kernels and trends without derivatives: a wrong value is never returned"""
    def f(vc):
        s = Kr(vc, cls, corr, poly); n = vc.dim("n"); x = vc.arr("x", n, s.nx); kx = vc.int_("kx"); vc.assume(le(ZERO, kx), lt(kx, s.nx)); vc.axiom("x", lambda p, c: [])
        e, y = vc.raises(lambda: vc.method(s.o, "predict_derivatives", x, kx))
        if e is not None: vc.ok("rejected"); return
        vc.check_arr(y, (n, 1), lambda p, q: vc.D(s.mean(p), app("x", p, kx)), "partial derivative of the mean")
    return f
for cls, corr in CASES:
    if corr != "squar_exp": contract("%s derivative of the mean, %s kernel" % (cls, corr))(other(cls, corr, "linear"))
contract("KRG derivative of the mean, quadratic trend")(other("KRG", "squar_exp", "quadratic"))

def dvar(cls, corr, poly, one):
    def f(vc):
        s = Kr(vc, cls, corr, poly); n = num(1) if one else vc.dim("n", 2); x = vc.arr("x", n, s.nx); keep = vc.snapshot(x)
        y = vc.method(s.o, "predict_variance_derivatives", x)
        def RiF(t, l): a, q = fresh("a"), fresh("q"); return Sum(a, s.nt, mul(app("inv_lower_C", a, t), Sum(q, s.nt, mul(app("inv_lower_C", a, q), app("F", q, l)))))
        i, j, t = fresh("i"), fresh("j"), fresh("t")
        L = norm_T(Lam(i, s.p, Lam(j, s.p, Sum(t, s.nt, mul(app("F", t, i), RiF(t, j))))), vc.it.ctx)      # F'R^-1F
        def red(p): return lambda l: (lambda t: Sum(t, s.nt, mul(s.k(p, t), RiF(t, l))))(fresh("t"))
        vc.check_shape(y, (n, s.nx), "derivatives of the variance")
        def point(p):
            vc.axiom("X", lambda t, c: [not_(eq(sub(s.xn(p, c), app("X", t, c)), ZERO))])      # away from the kinks of the kernel
            vc.forall((s.nx,), lambda c: vc.check_eq(y.get((p, c)), vc.D(s.variance(p, red(p), lambda j, l: app("inv_lower_chol", L, j, l)), app("x", p, c)), "partial derivatives of the variance"))
        point(ZERO) if one else vc.forall((n,), point)
        vc.check_arr(x, (n, s.nx), lambda i, j: keep.get((i, j)), "frame: points")
    return f
for cls, corr in CASES:
    for poly in ("constant", "linear"):
        contract("%s derivative of the variance, one point, %s kernel, %s trend" % (cls, corr, poly))(dvar(cls, corr, poly, True))
        contract("%s derivative of the variance, several points, %s kernel, %s trend" % (cls, corr, poly))(dvar(cls, corr, poly, False))

@contract("lemma: the variance formula with the Cholesky factor of F'R^-1F is the one predicted")
def lemma(vc):
    nt, p = vc.dim("nt"), vc.dim("p"); s2 = S(vc.real("s2")); r, f = (lambda t: app("r", t, ZERO)), (lambda l: app("f", l, ZERO))
    W = kmat.words(vecs=("y", "gamma", "r", "f"), mats=kmat.LAWS["mats"] + ["inv_lower_chol"], rules=kmat.LAWS["rules"] + [([("inv_lower_chol", True), ("inv_lower_chol", False)], [("A", False)])])
    RiF = lambda t, l: S2(nt, lambda a: mul(app("inv_lower_C", a, t), S2(nt, lambda q: mul(app("inv_lower_C", a, q), app("F", q, l)))))
    # the matrix whose factor is used is F'R^-1F, the inverse of A
    Lij = lambda i, j: S2(nt, lambda t: mul(app("F", t, i), RiF(t, j)))
    vc.forall((p, p), lambda i, j: kmat.check(vc, W, Lij(i, j), S2(nt, lambda t: S2(nt, lambda u: mul(app("F", t, i), app("Ri", t, u), app("F", u, j)))), "factored matrix"))
    vc.forall((p, p), lambda i, j: kmat.check(vc, W, S2(p, lambda k: mul(Lij(i, k), app("A", k, j))), ite(eq(i, j), ONE, ZERO), "inverse of A"))
    rt = lambda a: S2(nt, lambda t: mul(app("inv_lower_C", a, t), r(t))); i, j = fresh("i"), fresh("j"); L = norm_T(Lam(i, p, Lam(j, p, Lij(i, j))), vc.it.ctx)
    def form(red, inv): return mul(s2, add(ONE, neg(S2(nt, lambda a: power(rt(a), num(2)))), S2(p, lambda j: power(S2(p, lambda l: mul(inv(j, l), sub(red(l), f(l)))), num(2)))))
    kmat.check(vc, W, form(lambda l: S2(nt, lambda t: mul(r(t), RiF(t, l))), lambda j, l: app("inv_lower_chol", L, j, l)), form(lambda l: S2(nt, lambda a: mul(app("Ft", a, l), rt(a))), lambda j, l: app("inv_upper_G", l, j)), "same variance")
