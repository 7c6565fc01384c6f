"""P12  Kriging building blocks match their definitions."""
from pyvc.contract import *
contract = Registry()
ASSUMPTIONS = ["machine arithmetic treated as real arithmetic", "sklearn's check_pairwise_arrays returns its two arguments as arrays"]
M = "smt.utils.kriging_utils:"
def F(x): return num(Fraction(x))
def s5(): return mk("^", (num(5), num(Fraction(1, 2))), "R")
def kern(name, th, d, n):
    """documented formula; th(c), d(c), n components"""
    c = fresh("c"); lin = Sum(c, n, mul(th(c), d(c)))
    if name in ("abs_exp", "squar_exp"): return power(EULER, neg(lin))
    c = fresh("c")
    if name == "matern52": q = power(num(5), F("1/2")); return mul(Prod(c, n, add(1, mul(q, th(c), d(c)), mul(F("5/3"), power(mul(th(c), d(c)), num(2))))), power(EULER, neg(mul(q, lin))))
    q = power(num(3), F("1/2")); return mul(Prod(c, n, add(1, mul(q, th(c), d(c)))), power(EULER, neg(mul(q, lin))))
KER = ("abs_exp", "squar_exp", "matern32", "matern52")
def val_(name):
    def f(vc):
        n, nc = vc.dim("n", 0), vc.dim("nc"); th, d = vc.arr("th", nc), vc.arr("d", n, nc)
        r = vc.call(M + name, th, d)
        vc.check_arr(r, (n, 1), lambda p, q: kern(name, lambda c: app("th", c), lambda c: app("d", p, c), nc), "%s values" % name)
        vc.check_arr(d, (n, nc), lambda p, c: app("d", p, c), "distances not modified"); vc.check_arr(th, (nc,), lambda c: app("th", c), "parameters not modified")
    return f
for k in KER: contract("%s: formula for every number of pairs and components" % k)(val_(k))
def dth(name, hess):
    """derivatives with respect to the parameters"""
    def f(vc):
        n, nc = vc.dim("n", 0), vc.dim("nc"); th, d = vc.arr("th", nc), vc.arr("d", n, nc); g, h = vc.int_("g"), vc.int_("h")
        vc.axiom("th", lambda c: [le(ZERO, app("th", c))]); vc.axiom("d", lambda p, c: [le(ZERO, app("d", p, c))])
        vc.assume(le(ZERO, g), lt(g, nc), le(ZERO, h), lt(h, nc))
        kw = dict(grad_ind=g)
        if hess == "other": kw["hess_ind"] = h; vc.assume(not_(eq(g, h)))
        if hess == "same": kw["hess_ind"] = g
        r = vc.call(M + name, th, d, **kw)
        def E(p, q):
            k = kern(name, lambda c: app("th", c), lambda c: app("d", p, c), nc); t = norm_T(vc.D(k, app("th", g)), vc.it.ctx)
            if hess: t = norm_T(vc.D(t, app("th", h if hess == "other" else g)), vc.it.ctx)
            return t
        vc.check_arr(r, (n, 1), E, "%s %s" % (name, "second derivative" if hess else "first derivative"))
    return f
for k in KER:
    for h in ("", "other", "same"): contract("%s: %s" % (k, {"": "first derivative in a parameter", "other": "mixed second derivative", "same": "second derivative in a parameter"}[h]))(dth(k, h))

# spatial derivatives
def dsp(name):
    def f(vc):
        n, nc = vc.dim("n", 0), vc.dim("nc"); th = vc.arr("th", nc); x = vc.arr("x", n, nc)
        K = lambda p: kern(name, lambda c: app("th", c), lambda c: absf(app("x", p, c)), nc)
        vc.axiom("th", lambda c: [le(ZERO, app("th", c))]); vc.axiom("x", lambda p, c: [not_(eq(app("x", p, c), ZERO))])
        d = mkarr((n, nc), lambda p, c: absf(app("x", p, c)))
        if name in ("matern32", "matern52"): r, dr = vc.call(M + name, th, d, derivative_params={"dx": x}); E = lambda p, k: vc.D(K(p), app("x", p, k))
        else:
            m = vc.dim("m"); r, dr = vc.call(M + name, th, d, derivative_params={"dd": vc.arr("dd", n, m)}); E = lambda p, k: neg(mul(K(p), app("dd", p, k)))
        vc.check_arr(r, (n, 1), lambda p, q: K(p), "%s values" % name)
        vc.check_arr(dr, (n, nc if name in ("matern32", "matern52") else m), E, "%s spatial derivative" % name)
    return f
for k in KER: contract("%s: spatial derivative" % k)(dsp(k))
def act(case):
    def f(vc):
        n, nc, ns = vc.dim("n", 0), vc.dim("nc"), vc.dim("ns"); d = vc.arr("d", n, nc); th = mkarr((norm_T(mul(ns, nc), vc.it.ctx),), lambda i: app("W", fdiv(i, nc), fmod(i, nc)))
        A = lambda s, c: app("W", s, c)
        def lin(p, s): c = fresh("c"); return Sum(c, nc, mul(app("d", p, c), A(s, c)))
        def K(p): s = fresh("s"); return power(EULER, mul(F("-1/2"), Sum(s, ns, power(lin(p, s), num(2)))))
        kw = {}; tg = []
        if case:
            s, c = vc.int_("s"), vc.int_("c"); vc.assume(le(ZERO, s), lt(s, ns), le(ZERO, c), lt(c, nc)); kw["grad_ind"] = norm_T(add(mul(s, nc), c), vc.it.ctx); tg.append(A(s, c))
        if case == "hess":
            s, c = vc.int_("s2"), vc.int_("c2"); vc.assume(le(ZERO, s), lt(s, ns), le(ZERO, c), lt(c, nc)); kw["hess_ind"] = norm_T(add(mul(s, nc), c), vc.it.ctx); tg.append(A(s, c))
        r = vc.call(M + "act_exp", th, d, **kw)
        def E(p, q):
            t = K(p)
            for g in tg: t = vc.D(t, g)
            return t
        vc.check_arr(r, (n, 1), E, "act_exp %s" % case)
    return f
for k in ("", "grad", "hess"): contract("act_exp: %s" % {"": "formula", "grad": "first derivative in a parameter", "hess": "second derivative in two parameters"}[k])(act(k))
@contract("act_exp: parameter vector that does not match the components is rejected")
def _(vc):
    e, _ = vc.raises(lambda: vc.call(M + "act_exp", vc.arr("th", 5), vc.arr("d", vc.dim("n"), 3)))
    vc.require(e is not None, "exception")

# component-wise distances
CORR = ("squar_exp", "abs_exp", "matern52", "matern32", "act_exp")
def cw(corr):
    def f(vc):
        n, nx = vc.dim("n", 0), vc.dim("nx"); x = vc.arr("x", n, nx)
        def g(p, c):
            v = app("x", p, c); return power(v, num(2)) if corr == "squar_exp" else v if corr == "act_exp" else absf(v)
        r = vc.call(M + "componentwise_distance", x, corr, nx); vc.check_arr(r, (n, nx), g, "component-wise distance")
        vc.check_arr(x, (n, nx), lambda p, c: app("x", p, c), "differences not modified")
        th = vc.arr("th", nx); vc.axiom("x", lambda p, c: [not_(eq(app("x", p, c), ZERO))])
        e, r = vc.raises(lambda: vc.call(M + "componentwise_distance", x, corr, nx, theta=th, return_derivative=True))
        if corr == "act_exp": vc.require(e is not None, "no derivative for the active kernel"); return
        vc.check_arr(r, (n, nx), lambda p, c: vc.D(mul(app("th", c), g(p, c)), app("x", p, c)), "spatial derivative of theta times the distance")
        vc.check_arr(x, (n, nx), lambda p, c: app("x", p, c), "differences not modified by the derivative")
        e, _ = vc.raises(lambda: vc.call(M + "componentwise_distance", x, corr, nx, return_derivative=True)); vc.require(e is not None, "derivative without theta is rejected")
    return f
for c in CORR: contract("componentwise_distance: %s" % c)(cw(c))
def pls(corr):
    def f(vc):
        n, nx, h = vc.dim("n", 0), vc.dim("nx"), vc.dim("h"); x = vc.arr("x", n, nx); w = vc.arr("w", nx, h)
        def g(p, l):
            c = fresh("c"); v, u = app("x", p, c), app("w", c, l)
            return Sum(c, nx, mul(power(v, num(2)), power(u, num(2))) if corr == "squar_exp" else mul(absf(v), absf(u)))
        r = vc.call(M + "componentwise_distance_PLS", x, corr, h, w); vc.check_arr(r, (n, h), g, "projected component-wise distance")
        th = vc.arr("th", h); vc.axiom("x", lambda p, c: [not_(eq(app("x", p, c), ZERO))])
        r = vc.call(M + "componentwise_distance_PLS", x, corr, h, w, theta=th, return_derivative=True)
        def E(p, c): l = fresh("l"); return vc.D(Sum(l, h, mul(app("th", l), g(p, l))), app("x", p, c))
        vc.check_arr(r, (n, nx), E, "spatial derivative of theta times the distance")
        vc.check_arr(x, (n, nx), lambda p, c: app("x", p, c), "differences not modified"); vc.check_arr(w, (nx, h), lambda p, c: app("w", p, c), "weights not modified")
        e, _ = vc.raises(lambda: vc.call(M + "componentwise_distance_PLS", x, corr, h, w, return_derivative=True)); vc.require(e is not None, "derivative without theta is rejected")
    return f
for c in ("squar_exp", "abs_exp"): contract("componentwise_distance_PLS: %s" % c)(pls(c))

# regression bases
@contract("constant and linear bases")
def _(vc):
    n, nx = vc.dim("n"), vc.dim("nx"); x = vc.arr("x", n, nx)
    vc.check_arr(vc.call(M + "constant", x), (n, 1), lambda p, c: ONE, "constant basis")
    vc.check_arr(vc.call(M + "linear", x), (n, norm_T(add(nx, 1), vc.it.ctx)), lambda p, c: ite(eq(c, ZERO), ONE, app("x", p, sub(c, 1))), "linear basis")
def quad(nx):
    def f(vc):
        n = vc.dim("n"); x = vc.arr("x", n, nx); r = vc.call(M + "quadratic", x)
        cols = [lambda p: ONE] + [lambda p, k=k: app("x", p, num(k)) for k in range(nx)] + [lambda p, k=k, l=l: mul(app("x", p, num(k)), app("x", p, num(l))) for k in range(nx) for l in range(k, nx)]
        vc.check_shape(r, (n, len(cols)), "quadratic basis")
        vc.forall((n,), lambda p: [vc.check_eq(r.get((p, num(q))), g(p), "column %d" % q) for q, g in enumerate(cols)])
    return f
for k in range(1, 8): contract("quadratic basis, %d inputs" % k)(quad(k))

# differences, standardisation
@contract("differences: every pair of rows")
def _(vc):
    n, m, nx = vc.dim("n"), vc.dim("m"), vc.dim("nx"); x, y = vc.arr("x", n, nx), vc.arr("y", m, nx)
    vc.it.natives["sklearn.metrics.pairwise.check_pairwise_arrays"] = lambda it, a, kw: (a[0], a[1])
    r = vc.call(M + "differences", x, y); vc.check_shape(r, (norm_T(mul(n, m), vc.it.ctx), nx), "differences")
    vc.forall((n, m, nx), lambda i, j, k: vc.check_eq(r.get((norm_T(add(mul(i, m), j), vc.it.ctx), k)), sub(app("x", i, k), app("y", j, k)), "row i*m+j is x_i - y_j"))
@contract("standardization: invertible, constant columns finite")
def _(vc):
    n, nx, ny = vc.dim("n", 2), vc.dim("nx"), vc.dim("ny"); x, y = vc.arr("x", n, nx), vc.arr("y", n, ny)
    xs, ys, xo, ym, sc, sd = vc.call(M + "standardization", x, y)
    for a, o, s, nm, w, raw in ((xs, xo, sc, "x", nx, x), (ys, ym, sd, "y", ny, y)):
        vc.check_shape(a, (n, w), nm); vc.check_shape(o, (w,), nm + " offset"); vc.check_shape(s, (w,), nm + " scale")
        def mean(c): p = fresh("p"); return div(Sum(p, n, app(nm, p, c)), n)
        def var_(c): p = fresh("p"); return div(Sum(p, n, power(sub(app(nm, p, c), mean(c)), num(2))), sub(n, 1))
        def el(p, c):
            z = s.get((c,)); vc.check_eq(o.get((c,)), mean(c), nm + " offset is the mean")
            sdev = power(var_(c), F("1/2"))
            vc.check(or_(not_(eq(sdev, ZERO)), eq(z, ONE)), nm + " scale of a constant column is one"); vc.check(or_(eq(sdev, ZERO), eq(z, sdev)), nm + " scale is the standard deviation")
            vc.check(not_(eq(z, ZERO)), nm + " scale is not zero")
            save = vc.it.ctx
            for cond in (eq(sdev, ZERO), not_(eq(sdev, ZERO))):
                vc.assume(cond); vc.check_eq(add(mul(a.get((p, c)), z), o.get((c,))), app(nm, p, c), nm + " scaled data times scale plus offset gives the data back"); vc.it.ctx = save
        vc.forall((n, w), el); vc.check_arr(raw, (n, w), lambda p, c: app(nm, p, c), nm + " not modified")

# the table of pairs
def off(k): return app("off", k, s="I")
@contract("cross_distances: every unordered pair exactly once")
def _(vc):
    it = vc.it; n, nx = vc.dim("n", 2), vc.dim("nx"); x = vc.arr("x", n, nx); I, J = vc.int_("I"), vc.int_("J"); vc.assume(le(ZERO, I), lt(I, J), lt(J, n))
    # off(k): first row of the pairs (k, .) ; lemma 'rows' below
    N = off(norm_T(sub(n, 1), it.ctx)); width = lambda k: sub(sub(n, k), 1)
    vc.assume(eq(off(ZERO), ZERO), eq(fdiv(mul(n, sub(n, 1)), num(2)), N), le(ONE, N), eq(off(add(I, 1)), add(off(I), width(I))), le(ZERO, off(I)), le(add(off(I), width(I)), N))
    P = norm_T(add(off(I), sub(sub(J, I), 1)), it.ctx); st = {}
    def inv(env, k):
        out = [("row counter is the first row of the pairs (k, .)", eq(S(env.c["ll_1"]), off(k)))]
        if st.pop("assume", 0): return out
        c2 = norm_cond(lt(I, k), it.ctx)
        if c2 is not FALSE:
            save = it.ctx; vc.assume(c2)
            vc.check_eq(env.c["ij"].get((P, ZERO)), I, "first index of the pair (invariant)"); vc.check_eq(env.c["ij"].get((P, ONE)), J, "second index of the pair (invariant)")
            vc.forall((nx,), lambda c: vc.check_eq(env.c["D"].get((P, c)), sub(app("x", I, c), app("x", J, c)), "difference of the pair (invariant)")); it.ctx = save
        return out
    def extra(env, k):
        st["assume"] = 1; kn = norm_T(k, it.ctx)
        if not it.decide(eq(I, k)): vc.assume(or_(not_(lt(k, I)), le(add(off(k), width(k)), off(I))), or_(not_(lt(I, k)), le(add(off(I), width(I)), off(k))))
        vc.assume(le(ZERO, off(k)), or_(not_(lt(k, sub(n, 1))), and_(eq(off(add(k, 1)), add(off(k), width(k))), le(off(add(k, 1)), N))))
        p, c = fresh("p"), fresh("c"); done = and_(eq(p, P), lt(I, k))
        env.c["ij"].store.put("fn", ((p, c), ite(done, ite(eq(c, ZERO), I, J), app("HI", p, c, s="I"))))
        env.c["D"].store.put("fn", ((p, c), ite(done, sub(app("x", I, c), app("x", J, c)), app("HD", p, c))))
    vc.invariant(M + "cross_distances", inv, havoc={"ll_1": lambda k: off(k)}, extra=extra)
    D, ij = vc.call(M + "cross_distances", x)
    vc.check_shape(D, (N, nx), "one row per pair"); vc.check_shape(ij, (N, 2), "one index row per pair")
    vc.check_eq(ij.get((P, ZERO)), I, "first index of the pair"); vc.check_eq(ij.get((P, ONE)), J, "second index of the pair")
    vc.forall((nx,), lambda c: vc.check_eq(D.get((P, c)), sub(app("x", I, c), app("x", J, c)), "difference of the pair"))
    vc.check_arr(x, (n, nx), lambda p, c: app("x", p, c), "points not modified")
@contract("lemma rows: the rows of the pairs are consecutive, disjoint and n(n-1)/2 in number")
def _(vc):
    n, k, i, j, a, b = (vc.int_(q) for q in ("n", "k", "i", "j", "a", "b")); two = lambda k: sub(mul(num(2), k, n), mul(k, add(k, 1)))     # 2 off(k)
    vc.check_eq(two(ZERO), ZERO, "off(0) = 0"); vc.check_eq(two(add(k, 1)), add(two(k), mul(num(2), sub(sub(n, k), 1))), "off(k+1) = off(k) + n-k-1"); vc.check_eq(two(sub(n, 1)), mul(n, sub(n, 1)), "off(n-1) = n(n-1)/2")
    # monotone: induction on k from i+1
    w = lambda k: sub(sub(n, k), 1); vc.assume(le(ZERO, i), le(ZERO, k), lt(k, n), eq(off(add(k, 1)), add(off(k), w(k))), eq(off(add(i, 1)), add(off(i), w(i))))
    save = vc.it.ctx; vc.assume(eq(k, add(i, 1)), eq(off(k), off(add(i, 1)))); vc.check(le(add(off(i), w(i)), off(k)), "base"); vc.it.ctx = save
    vc.assume(lt(i, k), le(add(off(i), w(i)), off(k))); vc.check(le(add(off(i), w(i)), off(add(k, 1))), "step"); vc.it.ctx = save
    # distinct pairs have distinct rows
    vc.assume(lt(i, j), lt(j, n), lt(a, b), lt(b, n), le(ZERO, a), or_(not_(lt(i, a)), le(add(off(i), w(i)), off(a)))); row = lambda i, j: add(off(i), sub(sub(j, i), 1))
    save = vc.it.ctx; vc.assume(lt(i, a)); vc.check(lt(row(i, j), row(a, b)), "rows of different first indices differ"); vc.it.ctx = save
    vc.assume(eq(i, a), lt(j, b)); vc.check(lt(sub(sub(j, i), 1), sub(sub(b, a), 1)), "rows of the same first index differ")

# bounds of the kernels
@contract("kernels are 1 at distance zero and lie in (0, 1]")
def _(vc):
    nc = vc.dim("nc"); t = vc.real("t")
    for name in KER: vc.check_eq(kern(name, lambda c: app("th", c), lambda c: ZERO, nc), ONE, "%s at zero" % name)
    vc.assume(le(ZERO, t))
    # per component: 1 + q t <= exp(q t) and 1 + q t + q^2 t^2 / 3 <= exp(q t), from monotonicity: zero at t = 0 and nonnegative derivative of exp(q t) - polynomial by repeated differentiation
    q = vc.real("q"); vc.assume(lt(ZERO, q)); E = power(EULER, mul(q, t))
    f = lambda g, u: norm_T(subst(norm_T(g, vc.it.ctx), {t: u}), vc.it.ctx)
    for lbl, pol in (("1 + q t", add(1, mul(q, t))), ("1 + q t + q^2 t^2 / 3", add(1, mul(q, t), mul(F("1/3"), power(q, 2), power(t, 2))))):
        g = sub(E, pol); d1 = vc.D(g, t); d2 = vc.D(d1, t)
        vc.check_eq(f(g, ZERO), ZERO, lbl + ": equal at zero"); vc.check_eq(f(d1, ZERO), ZERO, lbl + ": equal slope at zero")
        # second derivative q^2 (E - 0) resp. q^2 (E - 2/3), nonnegative because E >= 1 for q t >= 0
        rest = norm_T(sub(d2, mul(power(q, 2), E)), vc.it.ctx); vc.check(le(neg(power(q, 2)), rest), lbl + ": curvature at least q^2 (exp - 1)")
@contract("standardization to the unit cube: invertible, constant columns finite")
def _(vc):
    n, nx = vc.dim("n"), vc.dim("nx"); x, y = vc.arr("x", n, nx), vc.arr("y", n, 1)
    xs, ys, xo, ym, sc, sd = vc.call(M + "standardization", x, y, True)
    def el(p, c):
        q = fresh("q"); lo = norm_T(binder("min*", q, n, app("x", q, c)), vc.it.ctx); q = fresh("q"); hi = norm_T(binder("max*", q, n, app("x", q, c)), vc.it.ctx); z = sc.get((c,)); w = sub(hi, lo)
        vc.check_eq(xo.get((c,)), lo, "offset is the minimum"); save = vc.it.ctx
        for cond, want in ((eq(w, ZERO), ONE), (not_(eq(w, ZERO)), w)):
            vc.assume(cond); vc.check_eq(z, want, "scale is the range, one for a constant column"); vc.check_eq(add(mul(xs.get((p, c)), z), xo.get((c,))), app("x", p, c), "scaled data times scale plus offset gives the data back"); vc.it.ctx = save
    vc.forall((n, nx), el)
