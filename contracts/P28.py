"""P28  Multi-fidelity kriging: autoregressive recursion, derivatives, data checks"""
from pyvc.contract import *
from pyvc.interp import SymSeq
from contracts.P12 import kern
contract = Registry()
ASSUMPTIONS = ["machine arithmetic treated as real arithmetic", "sklearn manhattan_distances(sum_over_features=False): componentwise absolute differences of every pair", "quadratic basis by its own contract (P12)"]
def F(x): return num(Fraction(x))
MODELS = {"MFK": "smt.applications.mfk:MFK", "MFKPLS": "smt.applications.mfkpls:MFKPLS", "MFKPLSK": "smt.applications.mfkplsk:MFKPLSK"}
QUAL = "smt.applications.mfk:MFK."
def symlist(n, f): l = PyList([]); l.c["items"] = SymSeq(n, f); return l
class Mf:
    """a trained multi-fidelity model with any number of levels, training data, scales, parameters and coefficients"""
    def __init__(s, vc, cls, corr, poly, rho, L=None, nx=None):
        s.vc, s.corr, s.poly, s.rho, s.pls, it = vc, corr, poly, rho, cls == "MFKPLS", vc.it
        s.nx = nx = vc.dim("nx") if nx is None else nx; s.h = vc.dim("h") if s.pls else nx; s.L = L = vc.dim("L") if L is None else num(L)
        it.natives["sklearn.metrics.pairwise.check_pairwise_arrays"] = lambda it, a, kw: (a[0], a[1])
        vc.axiom("sc", lambda c: [lt(ZERO, app("sc", c))]); vc.assume(lt(ZERO, vc.real("ys")))
        vc.axiom("nt", lambda j: [le(ONE, app("nt", j, s="I"))]); vc.axiom("th", lambda j, c: [le(ZERO, app("th", j, c))])
        n1 = dict(constant=ONE, linear=add(nx, 1), quadratic=mul(F("1/2"), add(nx, 1), add(nx, 2)))
        s.p, s.q = norm_T(n1[poly], it.ctx), norm_T(n1[rho], it.ctx)
        o = s.o = vc.new(MODELS[cls], print_global=False, corr=corr, poly=poly, rho_regr=rho)
        s.k = lambda j: ite(eq(j, ZERO), s.p, add(s.p, s.q)) if not (isinstance(j, T) and j.op == "num" and j is ZERO) else s.p
        nt = s.nt = lambda j: app("nt", num(j), s="I")
        fam = lambda j: num(j)
        par = lambda j: PyDict({"beta": mkarr((norm_T(s.k(num(j)), it.ctx), 1), lambda l, q: app("beta", num(j), l)), "gamma": mkarr((nt(j), 1), lambda t, q: app("gamma", num(j), t))})
        for k, v in dict(nx=nx, ny=1, nlvl=L, nt_all=mkarr((L,), lambda j: nt(j), dtype="i"), X_offset=vc.arr("off", nx), X_scale=vc.arr("sc", nx), y_mean=mkarr((1,), lambda i: vc.real("ym")), y_std=mkarr((1,), lambda i: vc.real("ys")),
                         X_norma_all=symlist(L, lambda j: mkarr((nt(j), nx), lambda t, c: app("X", num(j), t, c))), optimal_theta=symlist(L, lambda j: mkarr((s.h,), lambda c: app("th", num(j), c))), optimal_par=symlist(L, par)).items(): o.put(k, v)
        if cls != "MFK": it.setitem(vc.attr(o, "options"), "n_comp", vc.dim("h") if cls == "MFKPLS" else nx); o.put("coeff_pls", vc.arr("w", nx, s.h))
        if "quadratic" in (poly, rho):
            def basis(it, a, kw): x = a[0]; vc.check(eq(x.shape[1], nx), "basis of the inputs"); k = fresh("c"); return mkarr((x.shape[0], norm_T(n1["quadratic"], it.ctx)), lambda i, l: app("quad", Lam(k, nx, x.get((i, k))), l))
            it.stubs["smt.utils.kriging_utils:quadratic"] = basis
    def xn(s, p, c, x="x"): return mul(sub(app(x, p, c), app("off", c)), power(app("sc", c), -1)) if s.scaled else app(x, p, c)
    scaled = True
    def corrf(s, j, p, t):
        df = lambda c: sub(s.xn(p, c), app("X", j, t, c))
        g = (lambda v: power(v, num(2))) if s.corr == "squar_exp" else absf
        if not s.pls: return kern(s.corr, lambda c: app("th", j, c), lambda c: g(df(c)), s.nx)
        def dist(l): c = fresh("c"); return Sum(c, s.nx, mul(g(df(c)), g(app("w", c, l))))
        return kern(s.corr, lambda c: app("th", j, c), dist, s.h)
    def reg(s, kind, p, b):
        c = fresh("c")
        if kind == "constant": return b(ZERO)
        if kind == "quadratic": l = fresh("l"); return Sum(l, norm_T(mul(F("1/2"), add(s.nx, 1), add(s.nx, 2)), s.vc.it.ctx), mul(app("quad", Lam(c, s.nx, s.xn(p, c)), l), b(l)))
        if s.flat: l = fresh("l"); return Sum(l, add(s.nx, 1), mul(ite(eq(l, ZERO), ONE, s.xn(p, sub(l, 1))), b(l)))
        return add(b(ZERO), Sum(c, s.nx, mul(s.xn(p, c), b(add(c, 1)))))
    flat = False
    def delta(s, j, p, off):
        """trend and kriging correction of level j"""
        t = fresh("t"); return add(s.reg(s.poly, p, lambda l: app("beta", j, add(l, off))), Sum(t, s.nt(j), mul(s.corrf(j, p, t), app("gamma", j, t))))
    def base(s, p): return s.delta(ZERO, p, ZERO)
    def step(s, j, p, below): return add(mul(s.reg(s.rho, p, lambda l: app("beta", j, l)), below), s.delta(j, p, s.q))
    def scaled_value(s, p, k):
        """scaled prediction of the concrete level k by the recursion"""
        return s.base(p) if k == 0 else s.step(num(k), p, s.scaled_value(p, k - 1))
def manhattan(it, a, kw):
    if kw.get("sum_over_features", True) is not False: raise Unsupported("manhattan_distances summed")
    X, Y = a[0], a[1] if len(a) > 1 else kw["Y"]; m = Y.shape[0]
    return mkarr((mul(X.shape[0], m), X.shape[1]), lambda r, c: absf(sub(X.get((fdiv(r, m), c)), Y.get((fmod(r, m), c)))))
CASES = [("MFK", c) for c in ("squar_exp", "abs_exp", "matern32", "matern52")] + [("MFKPLS", "squar_exp"), ("MFKPLS", "abs_exp"), ("MFKPLSK", "squar_exp")]
REG = ("constant", "linear", "quadratic")
def setup(vc): vc.it.natives["sklearn.metrics.pairwise.manhattan_distances"] = manhattan
def mean_inv(vc, s, n):
    """column k of `mu` at the start of step k is MU(., k), the scaled prediction of level k; MU is defined by the recursion base / step"""
    P = vc.int_("P"); vc.assume(le(ZERO, P), lt(P, n))
    def want(k): k = norm_T(num(k), vc.it.ctx); return s.base(P) if k == ZERO else app("MU", P, k) if k.op != "+" else s.step(k, P, app("MU", P, norm_T(sub(k, 1), vc.it.ctx)))
    def inv(env, k): return [("column of the level is the recursion", eq(norm_T(env.c["mu"].get((P, norm_T(num(k), vc.it.ctx))), vc.it.ctx), norm_T(want(k), vc.it.ctx)))]
    def extra(env, k): a = env.c["mu"]; env.put("mu", mkarr(a.shape, lambda p, j: ite(eq(j, k), app("MU", p, k), app("H", p, j))))
    vc.invariant(QUAL + "_predict_intermediate_values", inv, extra=extra)
def level(cls, corr, poly, rho, descale):
    def f(vc):
        setup(vc); s = Mf(vc, cls, corr, poly, rho); s.scaled = descale; n = vc.dim("n"); x = vc.arr("x", n, s.nx); keep = vc.snapshot(x); mean_inv(vc, s, n)
        lvl = vc.int_("lvl"); vc.assume(le(ONE, lvl), le(lvl, s.L))
        y = vc.method(s.o, "_predict_intermediate_values", x, lvl) if descale else vc.method(s.o, "_predict_intermediate_values", x, lvl, descale=False)
        z = (lambda v: add(S(vc.real("ym")), mul(S(vc.real("ys")), v))) if descale else lambda v: v
        vc.check_arr(y, (n, 1), lambda p, q: z(app("MU", p, sub(lvl, 1))), "prediction of the level below lvl")
        vc.check_arr(x, (n, s.nx), lambda i, j: keep.get((i, j)), "frame: points")
    return f
def top(cls, corr, poly, rho, L):
    def f(vc):
        setup(vc); s = Mf(vc, cls, corr, poly, rho, L=L); s.flat = True; n = vc.dim("n"); x = vc.arr("x", n, s.nx); keep = vc.snapshot(x)
        y = vc.method(s.o, "predict_values", x)
        vc.check_arr(y, (n, 1), lambda p, q: add(S(vc.real("ym")), mul(S(vc.real("ys")), s.scaled_value(p, L - 1))), "recursion over all levels")
        vc.check_arr(x, (n, s.nx), lambda i, j: keep.get((i, j)), "frame: points")
    return f
for cls, corr in CASES:
    for poly in REG:
        for rho in REG:
            for ds in (True, False): contract("%s level prediction, %s kernel, %s trend, %s scaling, %s" % (cls, corr, poly, rho, "original units" if ds else "scaled"), thorough=corr not in ("squar_exp",) and not (poly == "linear" and rho == "linear"))(level(cls, corr, poly, rho, ds))
    contract("%s prediction, one level, %s kernel" % (cls, corr))(top(cls, corr, "linear", "constant", 1))
    contract("%s prediction, two levels, %s kernel" % (cls, corr))(top(cls, corr, "linear", "linear", 2))
def deriv_inv(vc, s, n, kx):
    P = vc.int_("P"); vc.assume(le(ZERO, P), lt(P, n)); d = lambda t: mul(app("sc", kx), vc.D(t, app("x", P, kx)))
    def want(k):
        k = norm_T(num(k), vc.it.ctx)
        if k == ZERO: return d(s.base(P))
        if k.op != "+": return app("DY", P, k)
        return add(mul(app("beta", k, ZERO), app("DY", P, norm_T(sub(k, 1), vc.it.ctx))), d(s.delta(k, P, s.q)))       # constant scaling
    def inv(env, k): return [("column of the level is the derivative of the recursion", eq(norm_T(env.c["dy_dx"].get((P, norm_T(num(k), vc.it.ctx))), vc.it.ctx), norm_T(want(k), vc.it.ctx)))]
    def extra(env, k): a = env.c["dy_dx"]; env.put("dy_dx", mkarr(a.shape, lambda p, j: ite(eq(j, k), app("DY", p, k), app("H", p, j))))
    vc.invariant(QUAL + "_predict_derivatives", inv, extra=extra)
def derivs(cls, poly):
    def f(vc):
        setup(vc); s = Mf(vc, cls, "squar_exp", poly, "constant"); n = vc.dim("n"); x = vc.arr("x", n, s.nx); keep = vc.snapshot(x); kx = vc.int_("kx"); vc.assume(le(ZERO, kx), lt(kx, s.nx)); deriv_inv(vc, s, n, kx)
        y = vc.method(s.o, "predict_derivatives", x, kx)
        vc.check_arr(y, (n, 1), lambda p, q: mul(S(vc.real("ys")), power(app("sc", kx), -1), app("DY", p, sub(s.L, 1))), "derivative of the recursion, highest level")
        vc.check_arr(x, (n, s.nx), lambda i, j: keep.get((i, j)), "frame: points")
    return f
def dtop(cls, corr, poly, rho, L):
    """a wrong value is never returned: rejected, or the derivative of the prediction"""
    def f(vc):
        setup(vc); s = Mf(vc, cls, corr, poly, rho, L=L); s.flat = rho == "linear"; n = vc.dim("n"); x = vc.arr("x", n, s.nx); kx = vc.int_("kx"); vc.assume(le(ZERO, kx), lt(kx, s.nx))
        if corr != "squar_exp" or poly == "quadratic" or rho != "constant":
            e, y = vc.raises(lambda: vc.method(s.o, "predict_derivatives", x, kx))
            if e is not None: vc.ok("rejected"); return
        else: y = vc.method(s.o, "predict_derivatives", x, kx)
        vc.check_arr(y, (n, 1), lambda p, q: mul(S(vc.real("ys")), vc.D(s.scaled_value(p, L - 1), app("x", p, kx))), "partial derivative of the prediction")
    return f
for cls, corr in CASES:
    if corr == "squar_exp":
        for poly in ("constant", "linear"):
            contract("%s derivatives, %s trend" % (cls, poly))(derivs(cls, poly))
            for L in (1, 2, 3): contract("%s derivatives are those of the prediction, %d levels, %s trend" % (cls, L, poly))(dtop(cls, corr, poly, "constant", L))
        for rho in ("linear", "quadratic"): contract("%s derivatives, %s scaling" % (cls, rho))(dtop(cls, corr, "constant", rho, 2))
        contract("%s derivatives, quadratic trend" % cls)(dtop(cls, corr, "quadratic", "constant", 2))
    else: contract("%s derivatives, %s kernel" % (cls, corr))(dtop(cls, corr, "constant", "constant", 2))
# training: level j is fitted to its own data, with trend [scaling basis * prediction of level j-1, trend basis]
idx = lambda j: j if isinstance(j, int) else int(j.a[0])
NAMES = {1: [[]], 2: [[0]], 3: [[0, 1], [1, 0]]}
def training(cls, poly, rho, L, names, one):
    """data of level j under name j (registered in any order), the highest under None"""
    def f(vc):
        setup(vc); s = Mf(vc, cls, "squar_exp", poly, rho, L=L, nx=ONE if one else vc.dim("nx", 2)); s.flat = True; nx = s.nx; it = vc.it; o = vc.new(MODELS[cls], print_global=False, corr="squar_exp", poly=poly, rho_regr=rho, **({} if cls == "MFK" else {"n_comp": 2})); s.h = num(2) if s.pls else nx
        m = [vc.dim("n%d" % j, 2) for j in range(L)]; X = [vc.arr("A%d" % j, m[j], nx) for j in range(L)]; Y = [vc.arr("B%d" % j, m[j], 1) for j in range(L)]
        kx, ky = [vc.snapshot(a) for a in X], [vc.snapshot(a) for a in Y]
        for j in names + [None]: vc.method(o, "set_training_values", X[L - 1 if j is None else j], Y[L - 1 if j is None else j], *([] if j is None else [j]))
        rec = {"fit": []}
        def std(it, a, kw):
            x, y = a[:2]; total = ZERO
            for j in range(L): total = add(total, m[j])
            vc.check_shape(x, (norm_T(total, it.ctx), nx), "pooled inputs"); vc.check_shape(y, (norm_T(total, it.ctx), 1), "pooled outputs"); st = ZERO
            for j in range(L):
                vc.forall((m[j], nx), lambda t, c: vc.check_eq(x.get((add(st, t), c)), kx[j].get((t, c)), "pooled inputs of level %d" % j)); vc.forall((m[j],), lambda t: vc.check_eq(y.get((add(st, t), ZERO)), ky[j].get((t, ZERO)), "pooled outputs of level %d" % j)); st = norm_T(add(st, m[j]), it.ctx)
            return (mkarr(x.shape, lambda i, c: app("unused", i, c)), mkarr(y.shape, lambda i, c: app("unused2", i, c)), vc.arr("off", nx), mkarr((1,), lambda i: vc.real("ym")), vc.arr("sc", nx), mkarr((1,), lambda i: vc.real("ys")))
        it.stubs["smt.utils.kriging_utils:standardization"] = std
        s.nt = lambda j: m[idx(j)]
        def cd(it, a, kw): x = a[0]; return (PyDict({"D": x}), "ij%d" % len(rec["fit"]))
        it.stubs["smt.utils.kriging_utils:cross_distances"] = cd
        def fit(it, a, kw):
            j = len(rec["fit"]); g = lambda n: vc.attr(o, n)
            if j >= L: raise Unsupported("more fits than levels")
            o.put("D", a[-1].d["D"]); rec["fit"].append(j); xs = lambda t, c: mul(sub(kx[j].get((t, c)), app("off", c)), power(app("sc", c), -1)); n1 = s.p if j == 0 else norm_T(add(s.p, s.q), it.ctx)
            vc.check_arr(g("X_norma"), (m[j], nx), xs, "level %d: scaled inputs" % j)
            vc.check_arr(g("y_norma"), (m[j], 1), lambda t, q: mul(sub(ky[j].get((t, ZERO)), S(vc.real("ym"))), power(S(vc.real("ys")), -1)), "level %d: scaled outputs" % j)
            vc.check(eq(S(g("nt")), m[j]), "level %d: number of points" % j); vc.check(TRUE if g("ij") == "ij%d" % j else FALSE, "level %d: index pairs of its own distances" % j)
            D = a[-1]; vc.check_arr(D.d["D"], (m[j], nx), xs, "level %d: distances of its own inputs" % j)
            vc.check(eq(S(g("p")), s.p), "level %d: size of the trend" % j); vc.check(eq(S(g("q")), ZERO if j == 0 else s.q), "level %d: size of the scaling regression" % j)
            def basis(kind, l, t): c = fresh("c"); return ONE if kind == "constant" else ite(eq(l, ZERO), ONE, xs(t, sub(l, 1))) if kind == "linear" else app("quad", Lam(c, nx, xs(t, c)), l)
            Fm = g("F"); vc.check_shape(Fm, (m[j], n1), "level %d: regression matrix" % j)
            off = ZERO
            if j:
                old = s.xn; s.xn = lambda p, c, x="x": xs(p, c)
                below = lambda t: s.scaled_value(t, j - 1)
                vc.forall((m[j], s.q), lambda t, l: vc.check_eq(Fm.get((t, l)), mul(basis(rho, l, t), below(t)), "level %d: scaling basis times the level below" % j)); off = s.q; s.xn = old
            vc.forall((m[j], s.p), lambda t, l: vc.check_eq(Fm.get((t, add(off, l))), basis(poly, l, t), "level %d: trend basis" % j))
            return (vc.real("rlf%d" % j), PyDict({"beta": mkarr((n1, 1), lambda l, q: app("beta", num(j), l)), "gamma": mkarr((m[j], 1), lambda t, q: app("gamma", num(j), t))}), mkarr((s.h,), lambda c: app("th", num(j), c)))
        it.stubs["smt.surrogate_models.krg_based:KrgBased._optimize_hyperparam"] = fit
        def pls(it, a, kw):
            def fit(it, a, kw):
                vc.check_arr(a[-2], (m[L - 1], nx), lambda t, c: kx[L - 1].get((t, c)), "projection fitted to the highest level"); vc.check_arr(a[-1], (m[L - 1], 1), lambda t, c: ky[L - 1].get((t, c)), "projection fitted to the highest level"); r = Obj(None); r.c["x_rotations_"] = vc.arr("w", nx, s.h); return r
            p = Obj(None); p.c["fit"] = Native(fit, "fit"); return p
        it.natives["sklearn.cross_decomposition.PLSRegression"] = pls
        def corrf(j, p, t):
            j = idx(j)
            df = lambda c: sub(s.xn(p, c), mul(sub(kx[j].get((t, c)), app("off", c)), power(app("sc", c), -1)))
            if not s.pls: return kern("squar_exp", lambda c: app("th", num(j), c), lambda c: power(df(c), num(2)), nx)
            def dist(l): c = fresh("c"); return Sum(c, nx, mul(power(df(c), num(2)), power(app("w", c, l), num(2))))
            return kern("squar_exp", lambda c: app("th", num(j), c), dist, s.h)
        s.corrf = corrf
        vc.assume(*[lt(norm_T(add(s.p, s.q), it.ctx), m[j]) for j in range(L)])
        vc.method(o, "train")
        vc.check(TRUE if len(rec["fit"]) == L else FALSE, "every level fitted once")
        n = vc.dim("n"); x = vc.arr("x", n, nx); y = vc.method(o, "predict_values", x)
        vc.check_arr(y, (n, 1), lambda p, q: add(S(vc.real("ym")), mul(S(vc.real("ys")), s.scaled_value(p, L - 1))), "recursion over the fitted levels")
        for j in range(L): vc.check_arr(X[j], (m[j], nx), lambda t, c: kx[j].get((t, c)), "frame: inputs of level %d" % j); vc.check_arr(Y[j], (m[j], 1), lambda t, c: ky[j].get((t, c)), "frame: outputs of level %d" % j)
    return f
for L in (1, 2, 3):
    for names in NAMES[L]:
        for poly, rho in (("constant", "constant"), ("linear", "linear"), ("constant", "quadratic"), ("quadratic", "constant")):
            if L == 3 and poly != "constant" or rho == "quadratic" and L == 3: continue
            for one in (True, False):
                if not one or "linear" not in (poly, rho): contract("MFK trained on %d levels (names %s), %s trend, %s scaling, %s" % (L, names, poly, rho, "one input" if one else "several inputs"))(training("MFK", poly, rho, L, names, one))
for cls in ("MFKPLS", "MFKPLSK"):
    for L in (1, 2): contract("%s trained on %d levels" % (cls, L))(training(cls, "constant", "constant", L, NAMES[L][0], False))
# data checks
def reject(what, names, dims=None, rows=None):
    """data that do not describe levels 0, 1, ..., highest with the same inputs never reach the fit of a level"""
    def f(vc):
        from pyvc.interp import PathEnd
        setup(vc); nx, other = vc.dim("nx", 1), vc.dim("other", 1); vc.assume(not_(eq(nx, other)))
        o = vc.new(MODELS["MFK"], print_global=False, theta0=PyList([F("1/100")]))
        m = [vc.dim("n%d" % k, 5) for k in range(len(names))]; m2 = vc.dim("m2"); vc.assume(*[not_(eq(m2, q)) for q in m])
        vc.it.stubs["smt.utils.kriging_utils:standardization"] = lambda it, a, kw: (a[0], a[1], vc.arr("off", nx), mkarr((1,), lambda i: vc.real("ym")), vc.arr("sc", nx), mkarr((1,), lambda i: vc.real("ys")))
        def fit(it, a, kw): vc.require(False, "rejected: %s" % what); raise PathEnd()
        vc.it.stubs["smt.applications.mfk:MFK._new_train_iteration"] = fit
        def go():
            for k, q in enumerate(names): vc.method(o, "set_training_values", vc.arr("A%d" % k, m[k], other if dims == k else nx), vc.arr("B%d" % k, m2 if rows == k else m[k], 1), *([] if q is None else [q]))
            vc.method(o, "train")
        e, _ = vc.raises(go)
        if e is not None: vc.ok("rejected: %s" % what)
    return f
for what, a in {"level 0 missing": ([1, None],), "level 1 missing": ([0, 2, None],), "highest level missing": ([0, 1],), "no data": ([],), "unknown level name": ([0, "fine", None],), "negative level": ([-1, 0, None],), "levels counted from 1": ([1, 2, None],),
                "other number of inputs in level 0": ([0, None], 0), "other number of inputs in the highest level": ([0, None], 1), "other number of inputs in level 1": ([0, 1, None], 1), "outputs of level 0 do not match": ([0, None], None, 0), "outputs of the highest level do not match": ([0, None], None, 1)}.items():
    contract("rejected: %s" % what)(reject(what, *a))
