"""P15  Kriging likelihood derivatives match the likelihood.  (Likelihood: contract in P14; kernels and their derivative tables: contracts in P12)"""
from pyvc.contract import *
from pyvc import norm as nm
from contracts import kmat
from contracts.kmat import S2
from contracts.P14 import Lik
contract = Registry()
ASSUMPTIONS = ["machine arithmetic treated as real arithmetic", "Jacobi's formula: the derivative of log det R is the trace of R^-1 dR", "the derivative of R^-1 is -R^-1 dR R^-1"] + kmat.ASSUMPTIONS
LN10 = fn("log", num(10))
class Der(Lik):
    """derivative rules: th(i) enters through the correlation matrix"""
    def __init__(s, vc, **kw):
        super().__init__(vc, **kw); s.W = kmat.words(vecs=("y", "gamma"))
        vc.assume(lt(ZERO, vc.real("s2")))
        nt, p = s.nt, s.p; d = lambda a, b, g: vc.D(s.Roff(a, b), g)
        nm.DERIV["upp"] = lambda a, g, dd: (lambda k: app("upp", norm_T(Lam(k, s.np, vc.D(subst(a[0].a[1], {a[0].a[0][0][0]: k}), g)), vc.it.ctx), *a[1:]))(fresh("k"))
        nm.DERIV["Ri"] = lambda a, g, dd: neg(S2(nt, lambda t: S2(nt, lambda u: mul(app("Ri", a[0], t), d(t, u, g), app("Ri", u, a[1])))))
        nm.DERIV["A"] = lambda a, g, dd: S2(p, lambda l: S2(p, lambda m: S2(nt, lambda t: S2(nt, lambda u: S2(nt, lambda v: S2(nt, lambda w: mul(app("A", a[0], l), app("F", t, l), app("Ri", t, u), d(u, v, g), app("Ri", v, w), app("F", w, m), app("A", m, a[1]))))))))
        def dgamma(a, g, dd):
            db = lambda l: neg(S2(p, lambda m: S2(nt, lambda t: S2(nt, lambda u: S2(nt, lambda v: mul(app("A", l, m), app("F", t, m), app("Ri", t, u), d(u, v, g), app("gamma", v, ZERO)))))))
            return neg(S2(nt, lambda t: mul(app("Ri", a[0], t), add(S2(nt, lambda u: mul(d(t, u, g), app("gamma", u, ZERO))), S2(p, lambda l: mul(app("F", t, l), db(l)))))))
        nm.DERIV["gamma"] = dgamma
        nm.DERIV["s2_"] = lambda a, g, dd: s.ds2(g.a[1])
    def Roff(s, a, b): L = s.upp(lambda k: s.K(s.T(), k)); return add(app("upp", L, a, b), app("upp", L, b, a))
    def ds2(s, i): return neg(mul(power(S(s.vc.real("ys")), 2), power(s.nt, -1), S2(s.nt, lambda t: S2(s.nt, lambda u: mul(app("gamma", t, ZERO), s.dR(i, t, u), app("gamma", u, ZERO))))))
    def tr(s, i): return S2(s.nt, lambda t: S2(s.nt, lambda u: mul(app("Ri", t, u), s.dR(i, t, u))))
    def grad(s, i, s2): return neg(mul(s.nt, power(LN10, -1), add(mul(s.ds2(i), power(s2, -1)), mul(power(s.nt, -1), s.tr(i)))))
    def par(s, vc):
        return PyDict({"C": vc.arr("C", s.nt, s.nt), "gamma": vc.arr("gamma", s.nt, 1), "Q": vc.arr("Q", s.nt, s.p), "G": vc.arr("G", s.p, s.p), "Ft": vc.arr("Ft", s.nt, s.p), "beta": vc.arr("beta", s.p, 1), "sigma2": mkarr((1,), lambda i: app("s2_", ZERO))})
M = "smt.surrogate_models.krg_based:KrgBased."
def stub_lik(vc, s, th):
    def f(it, a, kw):
        x = (list(a[1:]) + [kw.get("theta")])[0]; vc.check_arr(x, x.shape, lambda *i: app("th", i[0]), "the likelihood is evaluated at the same parameters"); vc.check(eq(x.shape[0], s.m), "all parameters")
        return (vc.real("rlf"), s.par(vc))
    vc.it.stubs[M + "_reduced_likelihood_function"] = f
def prior(vc, s, n, out):
    """contract of the prior (below)"""
    def f(it, a, kw):
        x = (list(a[1:]) + [kw.get("theta")])[0]; vc.check_arr(x, x.shape, lambda *i: app("th", i[0]), "the prior is evaluated at the same parameters")
        if kw.get("grad", False) is True: return mkarr((n, 1), lambda i, z: app("prior.d0", i))
        if kw.get("hessian", False) is True: return mkarr((n, 1), lambda i, z: app("prior.d0.d0", i, i))
        return mkarr((1, 1), lambda i, z: app("prior", ZERO))
    vc.it.stubs["smt.surrogate_models.krg_mgp:MGP._reduced_log_prior"] = f
def gradient(col, cls="KRG", noise="given"):
    def f(vc):
        s = Der(vc, cls=cls, noise=noise); th = s.theta if not col else mkarr((s.m, 1), lambda i, z: app("th", i)); stub_lik(vc, s, th); vc.assume(lt(ZERO, app("s2_", ZERO)))
        if cls == "MGP": prior(vc, s, s.m, None)
        g, par = vc.method(s.o, "_reduced_likelihood_gradient", th)
        kmat.check_arr(vc, s.W, g, (s.m, 1), lambda i, z: add(s.grad(i, app("s2_", ZERO)), app("prior.d0", i) if cls == "MGP" else ZERO), "gradient of the log-likelihood")
    return f
for col in (False, True):
    contract("gradient, parameters as a %s" % ("column" if col else "vector"))(gradient(col))
    for nz in ("estimated", "per point"): contract("gradient, noise %s, parameters as a %s" % (nz, "column" if col else "vector"))(gradient(col, noise=nz))
    contract("gradient with prior, parameters as a %s" % ("column" if col else "vector"))(gradient(col, "MGP"))
@contract("lemma: derivative of the process variance")
def lemma_s2(vc):
    s = Der(vc); i = vc.int_("i"); vc.assume(le(ZERO, i), lt(i, s.h))
    g = app("th", i); s2 = mul(power(S(vc.real("ys")), 2), power(s.nt, -1), s.quad())
    spec = replace_apps(norm_T(s.ds2(i), vc.it.ctx), lambda q: s.gamma(q.a[1]) if q.a[0] == "gamma" else None)
    kmat.check(vc, s.W, vc.D(s2, g), spec, "the process variance varies by - gamma' dR gamma / n")
@contract("lemma: derivative of the weights")
def lemma_gamma(vc):
    s = Der(vc); i = vc.int_("i"); vc.assume(le(ZERO, i), lt(i, s.h)); g = app("th", i)
    def at(t):
        spec = replace_apps(norm_T(vc.D(app("gamma", t, ZERO), g), vc.it.ctx), lambda q: s.gamma(q.a[1]) if q.a[0] == "gamma" else None)
        kmat.check(vc, s.W, vc.D(s.gamma(t), g), spec, "derivative of the weights")
    vc.forall((s.nt,), at)
    vc.forall((s.p,), lambda l: kmat.check(vc, s.W, S2(s.nt, lambda t: mul(app("F", t, l), s.gamma(t))), ZERO, "the weights are orthogonal to the basis"))
def hessian(h, cls="KRG"):
    def f(vc):
        s = Der(vc, h=h, cls=cls); th = s.theta; stub_lik(vc, s, th); vc.assume(lt(ZERO, app("s2_", ZERO)))
        if cls == "MGP": prior(vc, s, s.m, None)
        H, ij, par = vc.method(s.o, "_reduced_likelihood_hessian", th); n = h * (h + 1) // 2
        vc.check_shape(H, (n, 1), "Hessian"); vc.check_shape(ij, (n, 2), "index pairs"); pairs = [(i, j) for i in range(h) for j in range(i, h)]
        for q, (i, j) in enumerate(pairs):
            vc.check_eq(ij.get((num(q), ZERO)), num(i), "first index"); vc.check_eq(ij.get((num(q), ONE)), num(j), "second index")
            kmat.check(vc, s.W, H.get((num(q), ZERO)), add(vc.D(s.grad(num(i), app("s2_", ZERO)), app("th", num(j))), app("prior.d0.d0", num(i), num(j)) if cls == "MGP" and i == j else ZERO), "derivative %d of the gradient component %d" % (j, i))
    return f
for h in (1, 2, 3): contract("Hessian, %d parameters" % h)(hessian(h)); contract("Hessian with prior, %d parameters" % h)(hessian(h, "MGP"))
@contract("logarithm of the prior: gradient and Hessian are its derivatives")
def log_prior(vc):
    m = vc.dim("m"); o = vc.new("smt.surrogate_models.krg_mgp:MGP", print_global=False); pr = PyDict({"mean": PyList([vc.real("mean")]), "var": vc.real("var")}); vc.assume(lt(ZERO, vc.real("var"))); vc.it.setitem(vc.attr(o, "options"), "prior", pr)
    for shape in ((m,), (m, 1)):
        th = mkarr(shape, lambda i, *z: app("th", i)); v = vc.method(o, "_reduced_log_prior", th); c = fresh("c")
        f = neg(Sum(c, m, mul(power(vc.real("var"), -1), power(sub(app("th", c), vc.real("mean")), num(2)))))
        vc.check_arr(v, (1, 1), lambda i, j: f, "value"); vc.check_arr(vc.method(o, "_reduced_log_prior", th, grad=True), (m, 1), lambda i, z: vc.D(f, app("th", i)), "gradient")
        vc.check_arr(vc.method(o, "_reduced_log_prior", th, hessian=True), (m, 1), lambda i, z: vc.D(vc.D(f, app("th", i)), app("th", i)), "second derivatives")
        vc.forall((m, m), lambda i, j: vc.check(or_(eq(i, j), eq(vc.D(vc.D(f, app("th", i)), app("th", j)), ZERO)), "the Hessian of the prior is diagonal"))
def search(opt, cls="KRG"):
    """the functions handed to the optimizer, and the parameters kept"""
    def f(vc):
        s = Lik(vc, cls=cls); o = s.o; op = vc.attr(o, "options"); n = s.m; vc.it.setitem(op, "hyper_opt", opt); vc.it.setitem(op, "theta0", vc.arr("th0", n)); b = [vc.real("b0"), vc.real("b1")]; vc.it.setitem(op, "theta_bounds", PyList(b)); vc.assume(lt(ZERO, b[0]), lt(b[0], b[1]))
        o.put("nb_ill_matrix", 5)
        def L(T): c = fresh("c"); return app("L", Lam(c, n, T(c)))
        def T(x): return (lambda c: x.get((c,))) if x.ndim == 1 else (lambda c: x.get((c, ZERO)))
        def like(it, a, kw):
            x = (list(a[1:]) + [kw.get("theta")])[0]; vc.check(eq(x.shape[0], n), "number of parameters")
            return (norm_T(L(T(x)), it.ctx), PyDict({"at": norm_T(L(T(x)), it.ctx), "sigma2": vc.arr("s2", 1)}))
        def grad(it, a, kw):
            x = (list(a[1:]) + [kw.get("theta")])[0]; c = fresh("c"); t = T(x); return (mkarr((n, 1), lambda i, z: app("L.d0", Lam(c, n, t(c)), i)), PyDict({}))
        vc.it.stubs[M + "_reduced_likelihood_function"] = like; vc.it.stubs[M + "_reduced_likelihood_gradient"] = grad
        vc.it.stubs[("smt.surrogate_models.krg_mgp:MGP" if cls == "MGP" else "smt.surrogate_models.krg:KRG") + "._componentwise_distance"] = lambda it, a, kw: s.o.c["D"]
        calls = []
        def minimize(it, a, kw):
            fun, x0 = a[0], a[1]; k = len(calls); calls.append(1); z = vc.arr("z%d" % k, n); vc.check_shape(x0, (n,), "starting point")
            v = S(it.call(fun, [z], {})) if not isinstance(it.call(fun, [z], {}), Arr) else None
            e = (lambda c: app("z%d" % k, c)) if cls == "MGP" else (lambda c: power(num(10), app("z%d" % k, c)))
            vc.check_eq(v, neg(L(e)), "the search minimises minus the log-likelihood")
            if kw.get("jac") is not None:
                g = it.call(kw["jac"], [z], {}); vc.check_arr(g, (n, 1), lambda i, q: vc.D(v, app("z%d" % k, i)), "gradient handed to the optimizer")
            return PyDict({"x": vc.arr("best%d" % k, n), "fun": vc.real("fun%d" % k)})
        vc.it.natives["scipy.optimize.minimize"] = minimize
        r = vc.method(o, "_optimize_hyperparam", vc.arr("D0", s.np, s.nx)); val_, par, theta = vc.it.seq_of(r)
        vc.check_shape(theta, (n,), "parameters"); t = norm_T(L(T(theta)), vc.it.ctx)
        vc.check_eq(par.d["at"], t, "the predictor is the one at the parameters kept"); vc.check_eq(val_, t, "the likelihood is the one at the parameters kept")
    return f
for opt in ("TNC", "Cobyla"): contract("search of the parameters, %s" % opt)(search(opt))
