"""P04  Samples have the requested size and lie in the requested box."""
from pyvc.contract import *
contract = Registry()
ASSUMPTIONS = ["pyDOE2.lhs(n, samples, criterion, random_state) returns samples x n numbers in [0, 1]; numpy.random.rand numbers in [0, 1)",
    "the exchange optimisation only permutes within columns (decided by P05)", "real arithmetic: lo + s (hi - lo) is compared without rounding"]
S_ = "smt.sampling_methods."

def box(vc, nx):
    vc.axiom("xl", lambda i, j: [or_(ne(j, ZERO), le(app("xl", i, ZERO), app("xl", i, ONE)))])
    return vc.arr("xl", nx, 2)
def in_box(vc, x, n, nx, xl, what):
    vc.check_shape(x, (n, nx), what)
    def f(i, k):
        lo, hi = app("xl", k, ZERO), app("xl", k, ONE)
        vc.check(le(lo, x.get((i, k))), what + ": coordinate not below the lower limit"); vc.check(le(x.get((i, k)), hi), what + ": coordinate not above the upper limit")
    vc.forall((n, nx), f)
    vc.check_arr(xl, (nx, 2), lambda i, j: app("xl", i, j), what + ": limits not modified")

def scaling(vc):
    n, nx = vc.dim("n"), vc.dim("nx"); xl = vc.arr("xl", nx, 2)
    s = vc.arr("s", n, nx)
    r = vc.call(S_ + "sampling_method:_scale_to_xlimits", s, xl)
    lo, hi = (lambda k: app("xl", k, ZERO)), (lambda k: app("xl", k, ONE))
    vc.check_arr(r, (n, nx), lambda i, k: add(lo(k), mul(app("s", i, k), sub(hi(k), lo(k)))), "per-column affine map of the unit cube")
    vc.check_arr(xl, (nx, 2), lambda i, j: app("xl", i, j), "limits not modified")
    for v, w in ((ZERO, lo), (ONE, hi)):
        r = vc.call(S_ + "sampling_method:_scale_to_xlimits", mkarr((n, nx), lambda i, k: v), xl)
        vc.check_arr(r, (n, nx), lambda i, k: w(k), "%s goes to the %s limit" % (v, "lower" if v is ZERO else "upper"))
contract("_scale_to_xlimits")(scaling)

def unit(vc, n, nx):
    """a sampling method returning arbitrary unit-cube points"""
    vc.axiom("u", lambda i, j: [le(ZERO, app("u", i, j)), le(app("u", i, j), ONE)])
    return vc.arr("u", n, nx)
def base(vc):
    n, nx = vc.dim("n"), vc.dim("nx"); xl = box(vc, nx)
    sm = vc.new(S_ + "random:Random", xlimits=xl)
    vc.it.stubs[S_ + "random:Random._compute"] = lambda it, a, kw: (vc.check_eq(S(a[1]), n, "number of points reaches the method"), unit(vc, n, nx))[1]
    in_box(vc, vc.call(sm, n), n, nx, xl, "ScaledSamplingMethod.__call__ on any unit-cube method")
contract("ScaledSamplingMethod.__call__")(base)

def random(vc):
    n, nx = vc.dim("n"), vc.dim("nx"); xl = box(vc, nx)
    in_box(vc, vc.call(vc.new(S_ + "random:Random", xlimits=xl), n), n, nx, xl, "Random")
contract("Random()")(random)

def lhs(crit, seed):
    def f(vc):
        n, nx = vc.dim("n"), vc.dim("nx"); xl = box(vc, nx); it = vc.it
        def ext(it, a, kw):
            args = dict(zip(("n", "samples", "criterion", "iterations", "random_state"), a)); args.update(kw)
            vc.check_eq(S(args["n"]), nx, "one column per dimension requested"); vc.check_eq(S(args["samples"]), n, "requested number of points")
            want = None if crit == "ese" else crit
            vc.require(args.get("criterion") == want, "criterion reaches the generator")
            vc.require(args.get("random_state") is it.getattr(sm, "random_state"), "random state reaches the generator")
            return unit(vc, n, nx)
        it.natives["pyDOE2.lhs"] = ext
        rec = []
        def rs(it, a, kw):
            o = Opaque("RandomState"); rec.append(a); return o
        it.natives["numpy.random.RandomState"] = rs
        def maximin(it, a, kw):
            P = a[1]; vc.axiom("pi", lambda i, k: [or_(lt(i, ZERO), le(n, i), and_(le(ZERO, app("pi", i, k, s="I")), lt(app("pi", i, k, s="I"), n)))])
            Q = mkarr((n, nx), lambda i, k: P.get((app("pi", i, k, s="I"), k)))
            return (Q, PyDict({})) if kw.get("return_hist") else Q
        it.stubs[S_ + "lhs:LHS._maximinESE"] = maximin
        it.stubs[S_ + "lhs:LHS._PhiP"] = lambda it, a, kw: vc.real("phip")
        kw = dict(xlimits=xl, criterion=crit)
        if seed is not None: kw["random_state"] = seed
        sm = vc.new(S_ + "lhs:LHS", **kw)
        in_box(vc, vc.call(sm, n), n, nx, xl, "LHS %s" % crit)
        if seed is not None: vc.require(rec == [[seed]], "the given seed initialises the generator")
    return f
for c in ("center", "maximin", "centermaximin", "correlation", "c", "m", "cm", "corr", "ese"): contract("LHS() criterion %s" % c)(lhs(c, 7 if c in ("c", "ese") else None))

def factorial(nx, clip):
    """the unit-cube points are level fractions c/(m-1) with 0 <= c < m; together with the contract of
    ScaledSamplingMethod.__call__ (any unit-cube method) the sample lies in the box"""
    def f(vc):
        n = vc.dim("n"); xl = box(vc, nx); F = S_ + "full_factorial:FullFactorial"
        sm = vc.new(F, xlimits=xl, clip=clip)
        vc.axiom("lev", lambda i: [le(ONE, app("lev", i, s="I"))])
        def extra(env, k):
            v = fresh("n"); env.c["num_list"].store.put("fn", ((v,), app("lev", v, s="I")))
        vc.invariant(F + "._compute", lambda env, k: [("level counts are positive (%d)" % q, le(ONE, env.c["num_list"].get((num(q),)))) for q in range(nx)], extra=extra, match=lambda st: type(st).__name__ == "While")
        x = vc.method(sm, "_compute", n)
        lev = [norm_T(app("lev", num(q), s="I"), vc.it.ctx) for q in range(nx)]
        total = ONE
        for q in lev: total = mul(total, q)
        N = total if clip else n
        vc.check_shape(x, (N, nx), "FullFactorial")
        def row(r):
            vc.assume(lt(r, total)); st = ONE
            for q in range(nx - 1, -1, -1):
                c = fdiv(r, st); c = fmod(c, lev[q]) if q else c; st = norm_T(mul(st, lev[q]), vc.it.ctx)
                vc.check_eq(x.get((r, num(q))), ite(lt(ONE, lev[q]), mul(c, power(sub(lev[q], 1), -1)), ZERO), "coordinate %d is the fraction c/(levels-1) (0 for one level)" % q)
                vc.check(and_(le(ZERO, c), lt(c, lev[q])), "level number %d is between 0 and levels-1" % q)
        vc.forall((N,), row)
        vc.check_arr(xl, (nx, 2), lambda i, j: app("xl", i, j), "limits not modified")
    return f
for nx in (1, 2, 3, 4):
    for clip in (False, True): contract("FullFactorial._compute nx=%d clip=%s" % (nx, clip))(factorial(nx, clip))
def fraction(vc):
    c, m = vc.int_("c"), vc.dim("m", 2); vc.assume(le(ZERO, c), le(c, sub(m, 1)))
    v = mul(c, power(sub(m, 1), -1))
    vc.check(le(ZERO, v), "lemma: level fraction not below 0"); vc.check(le(v, ONE), "lemma: level fraction not above 1")
contract("lemma: level fractions lie in [0, 1]")(fraction)
