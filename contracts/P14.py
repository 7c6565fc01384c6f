"""P14  Kriging variance is the best linear unbiased predictor's variance.  (Model state: contracts/P13.py)"""
from pyvc.contract import *
from contracts.P13 import Kr, CASES, MODELS
from contracts import kmat
from contracts.kmat import S2
from contracts.P12 import kern
contract = Registry()
ASSUMPTIONS = ["machine arithmetic treated as real arithmetic", "cross_distances lists every pair of training points once (contract in P12)"] + kmat.ASSUMPTIONS
def variance(cls, corr, poly):
    def f(vc):
        s = Kr(vc, cls, corr, poly); n = vc.dim("n"); x = vc.arr("x", n, s.nx); keep = vc.snapshot(x)
        y = vc.method(s.o, "predict_variances", x)
        def red(p): return lambda l: (lambda a: Sum(a, s.nt, mul(app("Ft", a, l), s.rt(p, a))))(fresh("a"))
        vc.check_shape(y, (n, 1), "variance")
        def point(p):
            t = s.variance(p, red(p), lambda j, l: app("inv_upper_G", l, j)); save = vc.it.ctx; v = y.get((p, ZERO))
            vc.assume(le(ZERO, t)); vc.check_eq(v, t, "variance of the best linear unbiased predictor")
            vc.it.ctx = save; vc.assume(lt(t, ZERO)); vc.check_eq(v, ZERO, "clipped at zero"); vc.it.ctx = save
        vc.forall((n,), point)
        vc.check_arr(x, (n, s.nx), lambda i, j: keep.get((i, j)), "frame: points")
    return f
for cls, corr in CASES:
    for poly in ("constant", "linear", "quadratic"): contract("%s variance, %s kernel, %s trend" % (cls, corr, poly))(variance(cls, corr, poly))
KU = "smt.utils.kriging_utils:"
class Lik:
    """the likelihood of an arbitrary data set at arbitrary parameters; the kernel is an arbitrary function of parameters and distances (P12: contracts of the kernels)"""
    def __init__(s, vc, noise="given", cls="KRG", h=None):
        s.vc = vc; s.cls = cls; s.nx = num(h) if h and cls != "MGP" else vc.dim("nx"); s.nt = vc.dim("nt", 2); s.p = vc.dim("p"); s.h = num(h) if h and cls != 'MGP' else vc.dim("h") if cls in ("KPLS", "GEKPLS") else s.nx; s.np = vc.dim("np"); vc.assume(lt(ZERO, vc.real("ys")))
        o = s.o = vc.new(MODELS[cls], print_global=False); s.noise = noise; vc.it.pairs = ("ij", s.np, s.nt)
        op = vc.attr(o, "options"); vc.it.setitem(op, "nugget", vc.real("nugget")); s.m = s.h
        if noise == "estimated": vc.it.setitem(op, "eval_noise", True); s.m = norm_T(add(s.h, 1), vc.it.ctx)
        if noise == "per point": vc.it.setitem(op, "use_het_noise", True)
        if cls == "MGP": s.m = num(h) if h else vc.dim("m")
        for k, v in dict(nx=s.nx, nt=s.nt, D=vc.arr("D", s.np, s.h), ij=vc.arr("ij", s.np, 2, s="I", dtype="i"), F=vc.arr("F", s.nt, s.p), y_norma=vc.arr("y", s.nt, 1), y_std=mkarr((1,), lambda i: vc.real("ys")), noise0=vc.arr("noise", 1), optimal_noise=vc.arr("hetnoise", s.nt), best_iteration_fail=None, _thetaMemory=None).items(): o.put(k, v)
        s.theta = vc.arr("th", s.m); s.log = []
        def kern(it, a, kw):
            th, d = a[0], a[1]; g, h = (list(a[2:]) + [None, None])[:2]; g = kw.get("grad_ind", g); h = kw.get("hess_ind", h)
            kw = {k: v for k, v in kw.items() if not (k == "d_x" and v is None)}
            if set(kw) - {"theta", "d", "grad_ind", "hess_ind"} or len(a) > 4: raise Unsupported("kernel arguments")
            vc.check_arr(d, (s.np, s.h), lambda k, c: app("D", k, c), "the kernel is evaluated on the distances of the training points")
            n = th.shape[0]; T = (lambda c: th.get((c,))) if th.ndim == 1 else (lambda c: th.get((c, ZERO)))
            if th.ndim == 2: vc.check(eq(th.shape[1], ONE), "parameters are a vector")
            vc.check(eq(n, s.m if cls == "MGP" else s.h), "one parameter per distance component")
            return mkarr((s.np, 1), lambda k, z: s.K(T, k, *[S(x) for x in (g, h) if x is not None]))
        vc.it.stubs[KU + ("act_exp" if cls == "MGP" else "squar_exp")] = kern
        def chol(it, a, kw):
            vc.require(kw.get("lower", False) is True or len(a) > 1 and a[1] is True, "lower factor")
            vc.check_arr(a[0], (s.nt, s.nt), s.R, "correlation matrix")
            return vc.arr("C", s.nt, s.nt)
        def qr(it, a, kw):
            vc.require(kw.get("mode") == "economic", "economic factorisation"); kmat.check_arr(vc, s.W, a[0], (s.nt, s.p), lambda t, l: app("Ft", t, l), "factored matrix"); return (vc.arr("Q", s.nt, s.p), vc.arr("G", s.p, s.p))
        vc.it.natives["scipy.linalg.cholesky"] = chol; vc.it.natives["scipy.linalg.qr"] = qr
        vc.it.natives["scipy.linalg.svd"] = lambda it, a, kw: vc.arr("sv%d" % len(s.log + [s.log.append(1)]), s.p)
        vc.axiom("C", lambda a, b: [lt(ZERO, app("C", a, b))] if a is b else [])
        s.W = kmat.words()
    def K(s, T, k, *der):
        c, e = fresh("c"), fresh("c"); return app("K" + ".d0" * len(der), Lam(c, s.m if s.cls == "MGP" else s.h, T(c)), Lam(e, s.h, app("D", k, e)), *der)
    def upp(s, f): k = fresh("k"); return norm_T(Lam(k, s.np, f(k)), s.vc.it.ctx)
    def T(s): return lambda c: app("th", c)
    def R(s, a, b):
        """correlation matrix: kernel of the pair off the diagonal, 1 + nugget + noise on it"""
        L = s.upp(lambda k: s.K(s.T(), k)); nz = {"given": app("noise", ZERO), "estimated": app("th", s.h), "per point": app("hetnoise", a)}[s.noise]; ng = S(s.vc.real("nugget"))
        return add(ite(eq(a, b), add(ONE, nz, ng if s.noise != "estimated" else ZERO), ZERO), app("upp", L, a, b), app("upp", L, b, a))
    def dR(s, i, a, b): L = s.upp(lambda k: s.K(s.T(), k, i)); r = add(app("upp", L, a, b), app("upp", L, b, a)); return ite(lt(i, s.h), r, ite(eq(a, b), ONE, ZERO)) if s.noise == "estimated" else r
    def beta(s, l): return S2(s.p, lambda m: S2(s.nt, lambda t: S2(s.nt, lambda u: mul(app("A", l, m), app("F", t, m), app("Ri", t, u), app("y", u, ZERO)))))
    def res(s, t): return sub(app("y", t, ZERO), S2(s.p, lambda l: mul(app("F", t, l), s.beta(l))))
    def gamma(s, t): return S2(s.nt, lambda u: mul(app("Ri", t, u), s.res(u)))
    def loglik(s, ls2):
        """-(n log10 of the process variance + log10 of the determinant of the correlation matrix)"""
        return neg(mul(power(fn("log", num(10)), -1), add(mul(s.nt, ls2), S2(s.nt, lambda t: mul(2, fn("log", app("C", t, t)))))))
    def quad(s): return S2(s.nt, lambda t: S2(s.nt, lambda u: mul(s.res(t), app("Ri", t, u), s.res(u))))
def logs(t, acc=None, seen=None):
    if acc is None: acc = []; seen = set()
    if t in seen: return acc
    seen.add(t)
    if t.op == "fn_log": acc.append(t)
    for c in children(t): logs(c, acc, seen)
    return acc
def lik(noise, cls="KRG"):
    def f(vc):
        s = Lik(vc, noise, cls); th = s.theta; keep = [vc.snapshot(x) for x in (th, s.o.c["D"], s.o.c["F"], s.o.c["y_norma"])]
        e, y = vc.raises(lambda: vc.method(s.o, "_reduced_likelihood_function", th))
        if e is not None: vc.ok("dependent basis rejected"); return
        r, par = y
        if "sigma2" not in par.d: vc.require(getattr(r, "what", None) == "-inf", "badly conditioned system: minus infinity"); vc.require(not par.d, "badly conditioned system: no parameters"); return
        W = s.W
        kmat.check_arr(vc, W, par.d["beta"], (s.p, 1), lambda l, z: s.beta(l), "generalised least squares coefficients")
        kmat.check_arr(vc, W, par.d["gamma"], (s.nt, 1), lambda t, z: s.gamma(t), "correlation weights")
        s2 = mul(power(S(vc.real("ys")), 2), power(s.nt, -1), s.quad())
        kmat.check_arr(vc, W, par.d["sigma2"], (1,), lambda z: s2, "process variance")
        vc.check_arr(par.d["C"], (s.nt, s.nt), lambda i, j: app("C", i, j), "factor of the correlation matrix")
        kmat.check_arr(vc, W, par.d["Ft"], (s.nt, s.p), lambda i, j: app("Ft", i, j), "decorrelated basis")
        vc.check_arr(par.d["G"], (s.p, s.p), lambda i, j: app("G", i, j), "triangular factor of the decorrelated basis"); vc.check_arr(par.d["Q"], (s.nt, s.p), lambda i, j: app("Q", i, j), "orthogonal factor of the decorrelated basis")
        # likelihood: the process variance inside the logarithm is recognised by the matrix laws
        v = var("s2n", "R"); vc.assume(lt(ZERO, v)); m = {x: fn("log", v) for x in logs(norm_T(S(r), vc.it.ctx)) if W.zero(sub(x.a[0], mul(power(s.nt, -1), s.quad())), vc.it.ctx)}
        vc.check_eq(replace_term(norm_T(S(r), vc.it.ctx), m), s.loglik(fn("log", v)), "log-likelihood")
        for a, k in zip((th, s.o.c["D"], s.o.c["F"], s.o.c["y_norma"]), keep): vc.check_arr(a, a.shape, lambda *i: k.get(i), "frame: data and parameters")
    return f
for nz in ("given", "estimated", "per point"): contract("likelihood and predictor at given parameters, noise %s" % nz)(lik(nz))

# lemmas over the contracts
def blup(nt, np_, r, f, s2):
    """process variance times 1 - r'R^-1 r + u'(F'R^-1 F)^-1 u, u = F'R^-1 r - f"""
    u = lambda l: sub(S2(nt, lambda t: S2(nt, lambda v: mul(app("F", t, l), app("Ri", t, v), r(v)))), f(l))
    return mul(s2, add(ONE, neg(S2(nt, lambda t: S2(nt, lambda v: mul(r(t), app("Ri", t, v), r(v))))), S2(np_, lambda l: S2(np_, lambda m: mul(u(l), app("A", l, m), u(m))))))
class Lem:
    """symbols of the variance formulas: correlations r, basis values f"""
    def __init__(s, vc): s.nt, s.p = vc.dim("nt"), vc.dim("p"); s.r = lambda t: app("r", t, ZERO); s.f = lambda l: app("f", l, ZERO); s.s2 = S(vc.real("s2")); s.W = kmat.words(vecs=("y", "gamma", "r", "f")); s.rt = lambda a: S2(s.nt, lambda t: mul(app("inv_lower_C", a, t), s.r(t)))
@contract("lemma: the formula with triangular factors is the universal kriging variance")
def lemma(vc):
    s = Lem(vc); red = lambda l: S2(s.nt, lambda a: mul(app("Ft", a, l), s.rt(a)))
    code = mul(s.s2, add(ONE, neg(S2(s.nt, lambda a: power(s.rt(a), num(2)))), S2(s.p, lambda j: power(S2(s.p, lambda l: mul(app("inv_upper_G", l, j), sub(red(l), s.f(l)))), num(2)))))
    kmat.check(vc, s.W, code, blup(s.nt, s.p, s.r, s.f, s.s2), "same variance")
@contract("lemma: the variance vanishes at noise-free training points")
def lemma_zero(vc):
    s = Lem(vc); t0 = vc.int_("t0"); vc.assume(le(ZERO, t0), lt(t0, s.nt))
    v = blup(s.nt, s.p, lambda t: app("R", t, t0), lambda l: app("F", t0, l), s.s2)
    kmat.check(vc, s.W, v, mul(s.s2, sub(ONE, app("R", t0, t0))), "one minus the diagonal entry")
@contract("lemma: the correlations of a training point are its column of the correlation matrix")
def lemma_col(vc):
    for cls, corr in CASES:
        s = Kr(vc, cls, corr, "constant"); t0 = vc.int_("t0"); vc.assume(le(ZERO, t0), lt(t0, s.nt))
        vc.axiom("x", lambda p, c: [])
        def at(p, t): return replace_apps(norm_T(s.k(p, t), vc.it.ctx), lambda q: add(app("off", q.a[2]), mul(app("sc", q.a[2]), app("X", t0, q.a[2]))) if q.a[0] == "x" else None)
        vc.check_eq(at(ZERO, t0), ONE, "one at the point itself, %s %s" % (cls, corr))
        def pair(t):
            df = lambda c: sub(app("X", t0, c), app("X", t, c)); g = (lambda v: power(v, num(2))) if corr == "squar_exp" else absf
            if not s.pls: d = lambda c: g(df(c))
            else: d = lambda l: S2(s.nx, lambda c: mul(g(df(c)), g(app("w", c, l))))
            vc.check_eq(at(ZERO, t), kern(corr, lambda c: app("th", c), d, s.h), "kernel of the distance of the two training points, %s %s" % (cls, corr))
        vc.forall((s.nt,), pair)
