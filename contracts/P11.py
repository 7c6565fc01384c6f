"""P11  Infill criteria and virtual points follow their formulas.

The surrogate is any object: its mean mu(x) and variance v(x) >= 0 are arbitrary functions of the whole point."""
import ast
from pyvc.contract import *
contract = Registry()
M = "smt.applications.ego:EGO."
ASSUMPTIONS = ["the surrogate is an arbitrary object whose predicted variance is nonnegative (decided for kriging by P14)",
    "Phi and phi are the normal distribution and density functions with z Phi(z) + phi(z) >= 0 for every real z (the integral of Phi from minus infinity to z)"]
def row(x, p, n): k = fresh("k"); return Lam(k, n, x.get((p, k)))
def mu(r): return app("mu", r)
def var_(r): return app("v", r)
def ego(vc, nx, **opt):
    vc.axiom("v", lambda r: [le(ZERO, app("v", r))])
    g = Obj(None); log = []
    def nat(q, f):
        def h(it, a, kw):
            x = it.np.asarr(list(a)[0]); log.append((q, x)); vc.require(x.ndim == 2, "points given to the surrogate are two-dimensional"); vc.check(eq(x.shape[1], num(nx)), "width of the points given to the surrogate")
            return mkarr((x.shape[0], 1), lambda p, c: f(row(x, p, x.shape[1])))
        g.c[q] = Native(h, q)
    nat("predict_values", mu); nat("predict_variances", var_)
    o = vc.obj("smt.applications.ego:EGO"); o.put("gpr", g); o.put("options", PyDict(opt))
    return o, log
def best(m):
    l = fresh("l"); return binder("min*", l, m, app("y", l, ZERO))
def ei(m, r):
    s = power(var_(r), num("1/2")); d = sub(best(m), mu(r)); z = mul(d, power(s, -1))
    return add(mul(d, mk("fn_Phi", (z,), "R")), mul(s, mk("fn_phi", (z,), "R")))
def normal(vc):
    """z Phi(z) + phi(z) >= 0"""
    vc.axiom("phi", lambda z: [le(ZERO, add(mul(z, mk("fn_Phi", (z,), "R")), mk("fn_phi", (z,), "R")))])
    vc.axiom("Phi", lambda z: [le(ZERO, add(mul(z, mk("fn_Phi", (z,), "R")), mk("fn_phi", (z,), "R")))])

def expected(vc):
    nx, n, m = vc.dim("nx"), vc.dim("n"), vc.dim("m"); o, log = ego(vc, nx); x, y = vc.arr("x", n, nx), vc.arr("y", m, 1); kx, ky = vc.snapshot(x), vc.snapshot(y)
    r = vc.method(o, "EI", x, y); X = lambda p: row(kx, p, nx)
    if not isinstance(r, Arr):
        # one point of zero variance
        vc.check(eq(n, ONE), "scalar result for a single point only"); vc.check(eq(var_(X(ZERO)), ZERO), "scalar result where the variance vanishes only"); vc.check_eq(r, ZERO, "zero improvement at a point of zero variance")
    else:
        vc.check_shape(r, (n, 1), "expected improvement")
        def el(p):
            v = r.get((p, ZERO)); save = vc.it.ctx
            if not vc.it.decide(eq(n, ONE)): vc.assume(eq(var_(X(p)), ZERO)); vc.check_eq(v, ZERO, "zero where the variance vanishes")      # a single such point gives the scalar above
            vc.it.ctx = save; vc.assume(lt(ZERO, var_(X(p)))); vc.check_eq(v, ei(m, X(p)), "improvement formula where the variance is positive")
            vc.it.ctx = save
        if vc.it.decide(eq(n, ONE)): el(ZERO)
        else: vc.forall((n,), el)
    vc.check_arr(x, (n, nx), lambda i, j: kx.get((i, j)), "frame: points"); vc.check_arr(y, (m, 1), lambda i, j: ky.get((i, j)), "frame: data")
contract("EI: formula at every point")(expected)

def nonnegative(vc):
    """lemma: the formula is s (z Phi(z) + phi(z))"""
    d, s = vc.real("d"), vc.real("s"); vc.assume(lt(ZERO, s)); z = mul(d, power(s, -1))
    e = add(mul(d, mk("fn_Phi", (z,), "R")), mul(s, mk("fn_phi", (z,), "R"))); g = add(mul(z, mk("fn_Phi", (z,), "R")), mk("fn_phi", (z,), "R"))
    vc.check_eq(e, mul(s, g), "formula is the standard deviation times z Phi(z) + phi(z)")
    vc.assume(le(ZERO, g)); vc.check(le(ZERO, mul(s, g)), "expected improvement is not negative")
contract("EI: never negative (lemma)")(nonnegative)

def tunneling(vc):
    """with the penalisation of known points the criterion of every point is nonnegative and at most the plain one"""
    nx, n, m = vc.dim("nx"), vc.dim("n"), vc.dim("m"); o, log = ego(vc, nx); x, y, xd = vc.arr("x", n, nx), vc.arr("y", m, 1), vc.arr("xd", m, nx)
    it = vc.it; q = M + "EI"; X = lambda p: row(x, p, nx); t = vc.int_("t"); vc.assume(le(ZERO, t), lt(t, n), lt(ZERO, var_(X(t))))
    plain = ei(m, X(t)); vc.assume(le(ZERO, plain))      # lemma above
    vc.axiom("plain", lambda r: [le(ZERO, app("plain", r))])
    def single(it_, a, kw):
        """contract of EI without penalisation at one point: a nonnegative number"""
        a = list(a)
        if kw.get("enable_tunneling"): return PASS
        p = it.np.asarr(a[1]); vc.require(a[2] is y and len(a) == 3, "same data"); vc.check(eq(p.shape[0], ONE), "one point")
        return mkarr((1, 1), lambda i, j: app("plain", row(p, ZERO, nx)))
    it.stubs[q] = single; H = [0]
    def inv(env, k):
        v = env.c["ei"].get((t, ZERO))
        return [("criterion nonnegative so far", le(ZERO, v)), ("criterion at most the plain one", le(v, plain))]
    def extra(env, k):
        H[0] += 1; p, c = fresh("p"), fresh("c"); env.c["ei"].store.put("fn", ((p, c), app("ei%d" % H[0], p, c)))
    vc.invariant(q, inv, extra=extra)
    r = vc.method(o, "EI", x, y, enable_tunneling=True, x_data=xd)
    if not isinstance(r, Arr): vc.check_eq(r, ZERO, "zero improvement at a point of zero variance"); return
    vc.check_shape(r, (n, 1), "criterion"); vc.check(le(ZERO, r.get((t, ZERO))), "never negative"); vc.check(le(r.get((t, ZERO)), plain), "not above the plain criterion")
contract("EI: penalised criterion never negative")(tunneling)

def simple(crit):
    def f(vc):
        nx, n = vc.dim("nx"), vc.dim("n"); o, log = ego(vc, nx); x = vc.arr("x", n, nx); kx = vc.snapshot(x)
        r = vc.method(o, crit, x); s = lambda p: power(var_(row(kx, p, nx)), num("1/2"))
        vc.check_arr(r, (n, 1), lambda p, c: mu(row(kx, p, nx)) if crit == "SBO" else sub(mu(row(kx, p, nx)), mul(num(3), s(p))), {"SBO": "predicted mean", "UCB": "mean minus three standard deviations"}[crit])
        vc.check_arr(x, (n, nx), lambda i, j: kx.get((i, j)), "frame: points")
    return f
for c in ("SBO", "UCB"): contract("%s: formula at every point" % c)(simple(c))

def virtual(q):
    def f(vc):
        nx, m = vc.dim("nx"), vc.dim("m"); o, log = ego(vc, nx, qEI=q); x, y = vc.arr("x", 1, nx), vc.arr("y", m, 1); R = row(x, ZERO, nx); s = power(var_(R), num("1/2"))
        draws = []
        def randn(it, a, kw): vc.require(not list(a), "one draw"); draws.append(vc.real("draw%d" % len(draws))); return draws[-1]
        vc.it.natives["numpy.random.randn"] = randn
        r = vc.method(o, "_get_virtual_point", x, y)
        if q == "CLmin":
            vc.check_eq(S(r), best(m), "minimum of the data"); return
        if q == "KBRand": vc.require(len(draws) == 1, "one random multiple")
        conf = {"KB": ZERO, "KBUB": num(3), "KBLB": num(-3), "KBRand": draws[0] if draws else ZERO}[q]
        vc.check_arr(r, (1, 1), lambda p, c: add(mu(R), mul(conf, s)), "prediction plus the multiple of the standard deviation")
    return f
for q in ("KB", "KBLB", "KBUB", "KBRand", "CLmin"): contract("virtual point: %s" % q)(virtual(q))
