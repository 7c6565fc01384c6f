"""P26  Line searches, for an arbitrary objective and gradient (uninterpreted functions of the point), start, direction and parameters.

Every return of a search is x + a dx with the sufficient decrease condition (and the strong curvature condition for the bracketing searches) at a.
The loops run under loop invariants (arbitrary iteration), so for any number of steps; partial correctness (termination is not claimed)."""
from pyvc.contract import *
from pyvc.interp import Native, PyRaise
contract = Registry()
LS = "smt.utils.line_search:"
ASSUMPTIONS = ["partial correctness: a search that returns is covered, termination is not claimed",
               "numpy.linalg.solve and numpy.roots (interpolation of the quadratic and cubic searches) return arbitrary numbers",
               "func and grad are deterministic functions of the point"]

class World: pass
def world(vc, cls, u=True):
    w = World(); n = vc.dim("n"); i = fresh("i"); w.n = n
    w.x, w.dx = vc.arr("x", n), vc.arr("dx", n)
    lam = lambda a: Lam(i, n, add(app("x", i), mul(a, app("dx", i))))
    pt = lambda x: Lam(i, n, x.get((i,)))
    func = Native(lambda it, a, kw: app("F", norm_T(pt(a[0]), it.ctx)), "func")
    def gr(it, a, kw):
        p = norm_T(pt(a[0]), it.ctx); j = fresh("j")
        return Arr(Store((n,), (j,), app("G", p, j)))
    w.phi = lambda a: app("F", norm_T(lam(a), vc.it.ctx))
    def dphi(a):
        j = fresh("j")
        return Sum(j, n, mul(app("G", norm_T(lam(a), vc.it.ctx), j), app("dx", j)))
    w.dphi = dphi
    kw = {}
    w.u1, w.u2 = Fraction("1.0e-4"), Fraction("0.9")
    if u:
        w.u1, w.u2 = vc.real("u1"), vc.real("u2"); kw = dict(u1=w.u1, u2=w.u2)
    w.ls = vc.new(LS + cls, w.x, w.dx, func, Native(gr, "grad"), **kw)
    w.dec = lambda a: le(w.phi(a), add(w.phi(ZERO), mul(w.u1, a, w.dphi(ZERO))))
    w.curv = lambda a: le(tm_abs(w.dphi(a)), tm_abs(mul(w.u2, w.dphi(ZERO))))
    return w
def tm_abs(t): return ite(lt(t, ZERO), neg(t), t)

def step_of(vc, w, r, env):
    """the step a of a returned point x + a dx, among the scalar locals of the search"""
    if not isinstance(r, Arr): return None
    for v in list(env.values()):
        if isinstance(v, bool) or not isinstance(v, (int, Fraction, T)) or isinstance(v, T) and v.s not in ("I", "R"): continue
        save = vc.it.obligations; vc.it.obligations = []
        ok = vc.check_arr(r, (w.n,), lambda i: add(app("x", i), mul(num(v), app("dx", i))), "candidate")
        vc.it.obligations = save
        if ok: return num(v)
    return None

def backtracking(vc):
    w = world(vc, "BacktrackingLineSearch")
    a0, rho = vc.real("a0"), vc.real("rho")
    vc.assume(lt(ZERO, rho), lt(rho, ONE), lt(ZERO, a0))
    loc = {}
    def inv(env, k):
        loc.update(env.c)
        if "a" not in env.c: raise Unsupported("local variable a")
        j = fresh("j")
        return [("(step = initial step times rho^k)", eq(num(env.c["a"]), mul(a0, power(rho, k)))),
                ("(no earlier step satisfied the condition)", binder("forall", j, num(k), not_(w.dec(mul(a0, power(rho, j))))))]
    K = []
    def inv2(env, k): K.append(k); return inv(env, k)
    vc.invariant(LS + "BacktrackingLineSearch.__call__", inv2, havoc={"a": lambda k: mul(a0, power(rho, k))}, kind="While")
    r = vc.call(w.ls, a0, rho)
    k = var("W0.k", "I")
    vc.check_arr(r, (w.n,), lambda i: add(app("x", i), mul(a0, power(rho, k), app("dx", i))), "returned point is x + initial_a rho^k dx")
    vc.check(w.dec(mul(a0, power(rho, k))), "sufficient decrease at the returned step")
contract("BacktrackingLineSearch.__call__")(backtracking)

def zoom(vc, cls):
    w = world(vc, cls)
    def cm(it, a, kw):
        t = var("t%d" % len(used), "R"); used.append(t)
        return (t, w.phi(t), w.dphi(t))
    used = []
    C = cls if cls != "X" else None
    vc.it.stubs[LS + "BracketedLineSearch._compute_minimum"] = cm
    for c in ("QuadraticLineSearch", "CubicLineSearch"): vc.it.stubs[LS + c + "._compute_minimum"] = cm
    loc = {}
    def inv(env, k): loc["e"] = env; return []
    vc.invariant(LS + "BracketedLineSearch._zoom", inv, kind="While")
    a1, a2 = vc.real("a1"), vc.real("a2")
    r = vc.method(w.ls, "_zoom", a1, w.phi(a1), w.dphi(a1), a2, w.phi(a2), w.dphi(a2))
    a = step_of(vc, w, r, {**{str(t): t for t in used}})
    if a is None: return vc.fail("the zoom returns a point of the search line at a trial step")
    vc.check(w.dec(a), "sufficient decrease at the returned step")
    vc.check(w.curv(a), "curvature condition at the returned step")
for cls in ("BracketedLineSearch", "QuadraticLineSearch", "CubicLineSearch"):
    contract("%s._zoom" % cls)(lambda vc, cls=cls: zoom(vc, cls))

def bracket(vc, cls):
    w = world(vc, cls)
    z = []
    def zm(it, a, kw):
        t = var("zoomed", "R"); z.append(t)
        it.ctx = it.ctx.extend(norm_cond(w.dec(t), it.ctx), norm_cond(w.curv(t), it.ctx))      # contract of _zoom
        for p, q, d in ((1, 2, 3), (4, 5, 6)):
            vc.check_eq(num(a[q]), w.phi(num(a[p])), "precondition of _zoom: value at its step", "pre")
            vc.check_eq(num(a[d]), w.dphi(num(a[p])), "precondition of _zoom: slope at its step", "pre")
        i = fresh("i")
        return Arr(Store((w.n,), (i,), add(app("x", i), mul(t, app("dx", i)))))
    vc.it.stubs[LS + "BracketedLineSearch._zoom"] = zm
    loc = {}
    def inv(env, k):
        loc["e"] = env.c
        c = env.c; out = []
        for a, p, d in (("a1", "p1", "dp1"), ("a2", "p2", "dp2")):
            if not all(x in c for x in (a, p, d)): raise Unsupported("locals of the bracketing phase")
            out += [("(%s is the value at %s)" % (p, a), eq(num(c[p]), w.phi(num(c[a])))), ("(%s is the slope at %s)" % (d, a), eq(num(c[d]), w.dphi(num(c[a]))))]
        return out
    vc.invariant(LS + "BracketedLineSearch.__call__", inv, havoc={n: "R" for n in ("a1", "a2", "p1", "p2", "dp1", "dp2")})
    a0 = vc.real("a0")
    r = vc.call(w.ls, a0)
    if r is None: return vc.ok("no step found within the iteration limit")
    a = step_of(vc, w, r, {**loc.get("e", {}), **{"z%d" % k: t for k, t in enumerate(z)}})
    if a is None: return vc.fail("the search returns a point of the search line")
    vc.check(w.dec(a), "sufficient decrease at the returned step")
    vc.check(w.curv(a), "curvature condition at the returned step")
for cls in ("BracketedLineSearch", "QuadraticLineSearch", "CubicLineSearch"):
    contract("%s.__call__" % cls)(lambda vc, cls=cls: bracket(vc, cls))

def trial(vc, cls, roots):
    w = world(vc, cls)
    vc.it.natives["numpy.linalg.solve"] = lambda it, a, kw: PyList([var("c%d" % k, "R") for k in range(len(it.iterate(a[1])[1]))])
    vc.it.natives["numpy.roots"] = lambda it, a, kw: PyList([var("r%d" % k, "R") for k in range(roots)])
    vc.it.natives["numpy.isreal"] = lambda it, a, kw: app("isreal", num(a[0]), s="B")
    a1, a2 = vc.real("a1"), vc.real("a2")
    a, p, d = vc.it.iterate(vc.method(w.ls, "_compute_minimum", a1, w.phi(a1), w.dphi(a1), a2, w.phi(a2), w.dphi(a2)))[1]
    if a is None: return vc.fail("a trial step is returned")
    a = num(a)
    vc.check_eq(num(p), w.phi(a), "value at the trial step"); vc.check_eq(num(d), w.dphi(a), "slope at the trial step")
    if cls != "QuadraticLineSearch":
        vc.check(or_(and_(le(a1, a), le(a, a2)), and_(le(a2, a), le(a, a1))), "the trial step lies in the bracket")
contract("BracketedLineSearch._compute_minimum")(lambda vc: trial(vc, "BracketedLineSearch", 0))
contract("QuadraticLineSearch._compute_minimum")(lambda vc: (vc.assume(ne(var("c2", "R"), ZERO)), trial(vc, "QuadraticLineSearch", 0)))
for k in (0, 1, 2):
    contract("CubicLineSearch._compute_minimum (%d roots)" % k)(lambda vc, k=k: trial(vc, "CubicLineSearch", k))

def null(vc):
    n = vc.dim("n"); x, dx = vc.arr("x", n), vc.arr("dx", n)
    ls = vc.new(LS + "NullLineSearch", x, dx, None, None)
    a = vc.real("a")
    vc.check_arr(vc.call(ls, a), (n,), lambda i: add(app("x", i), mul(a, app("dx", i))), "full step")
contract("NullLineSearch.__call__")(null)
def table(vc):
    for k, c in (("backtracking", "Backtracking"), ("bracketed", "Bracketed"), ("quadratic", "Quadratic"), ("cubic", "Cubic"), ("null", "Null")):
        vc.require(vc.call(LS + "get_line_search_class", k) is vc.load(LS + c + "LineSearch"), "name %s selects its search" % k)
contract("get_line_search_class")(table)
