"""P23  Benchmark problems return true derivatives and correct shapes.

Contract on Problem.__call__ / _evaluate of every problem class, for every number of points n, every dimension
and every direction kx:
  value   : result[i,0] == documented formula of row i
  deriv   : result[i,0] == d(value[i,0]) / d x[i,kx]
  shape   : (n, 1);  frame: x is unchanged;  wrong column count / out-of-range kx raise."""
from pyvc.contract import *
contract = Registry()
ASSUMPTIONS = [
 "complex arithmetic carries real values except in the complex-step idiom imag(f(x+ih))/h, which is taken as the exact derivative of the analytic f (error O(h^2) with h=1e-20)",
 "derivatives are those of the real-valued formula at points where it is differentiable (denominators and logarithm/root arguments positive)",
 "use_FD=True (scipy.misc.derivative finite differences) is approximate by design: covered by the bounded replay check only",
]
def common(vc, p, n, nx, spec=None, ks=None, dense=None, pos=False, kconc=None):
    x = vc.arr("x", n, nx); keep = vc.snapshot(x)
    y = vc.call(p, x)
    vc.check_shape(y, (n, 1), "value")
    if spec is not None:
        vc.forall((n,), lambda i: vc.check_eq(y.get((i, ZERO)), spec(lambda c: app("x", i, c)), "value formula"))
    def one(k):
        d = vc.call(p, x, kx=k)
        vc.check_shape(d, (n, 1), "derivative")
        vc.forall((n,), lambda i: vc.check_eq(d.get((i, ZERO)), vc.D(y.get((i, ZERO)), app("x", i, num(k))), "derivative kx=%s" % (k,)))
    if kconc is None:
        kx = vc.int_("kx"); vc.assume(le(ZERO, kx), lt(kx, nx)); one(kx)
    else:
        for k in range(kconc): one(k)
    vc.check_arr(x, (n, nx), lambda i, c: keep.get((i, c)), "frame: caller's points unchanged")

def reject(vc, p, n, nx):
    m = vc.dim("m"); vc.assume(ne(m, nx))
    e, _ = vc.raises(lambda: vc.call(p, vc.arr("x", n, m)))
    vc.require(e is not None, "wrong number of columns is rejected")
    kb = vc.int_("kb"); vc.assume(or_(lt(kb, ZERO), le(nx, kb)))
    e, _ = vc.raises(lambda: vc.call(p, vc.arr("x", n, nx), kx=kb))
    vc.require(e is not None, "out-of-range direction is rejected")

def fam(cls, spec=None, lo=1, ndim=None, stride=None, **opts):
    def mk(vc):
        n = vc.dim("n")
        if stride: nx = mul(stride, vc.dim("m"))
        elif ndim: nx = num(ndim)
        else: nx = vc.dim("nx", lo)
        p = vc.new(cls, ndim=ndim or nx, **opts) if not (ndim and stride is None and opts.get("fixed")) else vc.new(cls)
        return p, n, nx
    name = cls.split(":")[1] + "".join("[%s=%s]" % kv for kv in opts.items())
    contract.add(name, lambda vc: common(vc, *mk(vc), spec=spec))
    contract.add(name + " rejects", lambda vc: reject(vc, *mk(vc)))

l = var("l", "I"); q = var("q", "I")
def S_(n, f): 
    v = fresh("s"); return Sum(v, n, f(v))
def vnx(x): return var("nx", "I")
fam("smt.problems.sphere:Sphere", lambda x: S_(var("nx", "I"), lambda c: power(x(c), 2)))
fam("smt.problems.rosenbrock:Rosenbrock", lambda x: S_(sub(var("nx", "I"), 1), lambda c: add(mul(100, power(sub(x(add(c, 1)), power(x(c), 2)), 2)), power(sub(1, x(c)), 2))), lo=2)
for f, g in (("cos", lambda t: fn("cos", mul(PI, t))), ("exp", exp), ("tanh", lambda t: fn("tanh", t))):
    for w in (1, Fraction(5, 2)):
        def spec(x, g=g, w=w):
            v = fresh("s"); return Prod(v, var("nx", "I"), g(mul(w, x(v))))
        fam("smt.problems.tensor_product:TensorProduct", spec, func=f, width=w)
def gspec(x):
    v = fresh("s"); return Prod(v, var("nx", "I"), exp(mul(-2, Fraction(3, 2), power(x(v), 2))))
fam("smt.problems.tensor_product:TensorProduct", gspec, func="gaussian", width=Fraction(3, 2))

def cant(x):
    m = var("m", "I")
    def seg(e): return S_(sub(m, e), lambda t: x(add(mul(3, add(t, e)), 2)))
    return mul(div(50000, mul(3, 200000000000)), S_(m, lambda e: mul(div(12, mul(x(mul(3, e)), power(x(add(mul(3, e), 1)), 3))),
           sub(power(seg(e), 3), power(S_(sub(m, add(e, 1)), lambda t: x(add(mul(3, add(t, e, 1)), 2))), 3)))))
fam("smt.problems.cantilever_beam:CantileverBeam", cant, stride=3)
def robot(x):
    m = var("m", "I")
    ang = lambda e: S_(add(e, 1), lambda t: x(add(mul(2, t), 1)))
    u = S_(m, lambda e: mul(x(mul(2, e)), fn("cos", ang(e)))); v = S_(m, lambda e: mul(x(mul(2, e)), fn("sin", ang(e))))
    return sqrt(add(power(u, 2), power(v, 2)))
fam("smt.problems.robot_arm:RobotArm", robot, stride=2)

for order in (1, 2, 3, 5):
    fam("smt.problems.lp_norm:LpNorm", lambda x, order=order: power(S_(var("nx", "I"), lambda c: power(absf(x(c)), order)), Fraction(1, order)), order=order)

def branin(x):
    x0, x1 = x(ZERO), x(ONE)
    u = add(x1, mul(Fraction(-51, 40), power(PI, -2), power(x0, 2)), mul(5, power(PI, -1), x0), -6)
    return add(power(u, 2), mul(10, sub(1, div(1, mul(8, PI))), fn("cos", x0)), 10)
def wf(x, two, one):
    L = fn("log", div(x(1), x(0)))
    return div(mul(two, x(2), sub(x(3), x(5))), mul(L, add(one, div(mul(2, x(6), x(2)), mul(L, power(x(0), 2), x(7))), div(x(2), x(4)))))
def wing(x):
    c = fn("cos", mul(div(x(3), 180), PI)); F = lambda a, b: Fraction(a, b)
    return add(mul(F(36, 1000), power(x(0), F(758, 1000)), power(x(1), F(35, 10000)), div(x(2), power(c, 2)), power(x(4), F(6, 1000)), power(x(5), F(4, 100)),
               power(div(mul(100, x(6)), c), F(-3, 10)), power(mul(x(7), x(8)), F(49, 100))), mul(x(0), x(9)))
def welded(x):
    t1 = div(6000, mul(sqrt(num(2)), x(1), x(2))); R = sqrt(mul(Fraction(1, 4), add(power(x(2), 2), power(add(x(1), x(0)), 2))))
    t2 = div(mul(6000, add(14, mul(Fraction(1, 2), x(2))), R), mul(2, Fraction(707, 1000), x(1), x(2), add(div(x(2), 12), mul(Fraction(1, 4), power(add(x(1), x(0)), 2)))))
    return sqrt(add(power(t1, 2), power(t2, 2), div(mul(x(2), t1, t2), R)))
def torsion(x):
    K = lambda a, b, c: div(mul(PI, a, b), mul(32, c))
    K1, K2, K3 = K(x(2), x(0), x(1)), K(x(8), x(6), x(7)), K(x(4), x(9), x(3)); g = Fraction(980665, 100000)
    M1 = div(mul(x(11), PI, x(10), x(5)), mul(4, g)); M2 = div(mul(x(14), PI, x(13), x(12)), mul(4, g))
    J1 = mul(Fraction(1, 2), M1, power(div(x(5), 2), 2)); J2 = mul(Fraction(1, 2), M2, power(div(x(12), 2), 2))
    b = neg(add(div(add(K1, K2), J1), div(add(K2, K3), J2))); c = div(add(mul(K1, K2), mul(K2, K3), mul(K3, K1)), mul(J1, J2))
    return div(sqrt(div(sub(neg(b), sqrt(sub(power(b, 2), mul(4, c)))), 2)), mul(2, PI))
FIXED = [("branin:Branin", 2, branin), ("water_flow:WaterFlow", 8, lambda x: wf(x, mul(2, PI), 1)), ("water_flow_lfidelity:WaterFlowLFidelity", 8, lambda x: wf(x, 5, Fraction(3, 2))),
         ("wing_weight:WingWeight", 10, wing), ("welded_beam:WeldedBeam", 3, welded), ("torsion_vibration:TorsionVibration", 15, torsion)]
def fixed(cls, nd, spec):
    def pr(vc):
        n = vc.dim("n"); p = vc.new("smt.problems." + cls)
        vc.positive(*([] if nd == 2 else ["x"]))
        common(vc, p, n, num(nd), spec=lambda x: spec(lambda c: x(num(c))), kconc=nd)
    contract.add(cls.split(":")[1], pr)
    def rj(vc):
        n = vc.dim("n"); p = vc.new("smt.problems." + cls); reject(vc, p, n, num(nd))
    contract.add(cls.split(":")[1] + " rejects", rj)
for f in FIXED: fixed(*f)

# ReducedProblem: for ANY inner problem meeting the derivative contract (uninterpreted value P, derivative P.d0)
def inner_stub(vc, n, N):
    c = var("c", "I")
    def inner_eval(it, args, kw):
        x, kx = args[1], (args[2] if len(args) > 2 else kw.get("kx"))
        if not isinstance(x, Arr): raise Unsupported("inner problem input")
        vc.check_shape(x, (n, N), "inner problem receives full-dimensional points")
        if kx is not None: vc.check(and_(le(ZERO, num(kx)), lt(num(kx), N)), "inner direction in range", "pre")
        i = fresh("i"); lam = Lam(c, N, x.get((i, c)))
        return Arr(Store((n, ONE), (i, fresh("j")), app("P", lam) if kx is None else app("P.d0", lam, num(kx))))
    vc.it.stubs["smt.problems.problem:Problem._evaluate"] = inner_eval
def reduced(vc, mode, stride=1):
    n = vc.dim("n"); N = vc.dim("N"); w = vc.real("w"); c = var("c", "I")
    inner_stub(vc, n, N)
    inner = vc.new("smt.problems.problem:Problem", ndim=N)
    vc.method(vc.attr(inner, "options"), "declare", "name", "inner")
    inner.put("xlimits", vc.arr("xl", N, 2))
    if mode == "int":
        nx = vc.dim("nx"); vc.assume(le(nx, N)); dims = nx; sel = lambda j: j
    elif mode == "arange":
        nx = vc.dim("nx"); lo = vc.dim("lo", 0); st = num(stride); vc.assume(le(add(lo, mul(st, nx)), add(N, st, -1)))
        vc.assume(lt(add(lo, mul(st, sub(nx, 1))), N))
        dims = mkarr((nx,), lambda j: add(lo, mul(st, j)), "i"); sel = lambda j: add(lo, mul(st, j))
    else:
        k = mode; nx = num(k); ds = [vc.int_("d%d" % i) for i in range(k)]
        for a in range(k):
            vc.assume(le(ZERO, ds[a]), lt(ds[a], N))
            for b in range(a): vc.assume(ne(ds[a], ds[b]))
        dims = ds; sel = lambda j: ite(eq(j, ZERO), ds[0], ite(eq(j, ONE), ds[1], ds[-1]))
    p = vc.new("smt.problems.reduced_problem:ReducedProblem", inner, dims, w=w)
    x = vc.arr("x", n, nx)
    vc.check(eq(num(vc.method(vc.attr(p, "options"), "__getitem__", "ndim")), nx), "ndim is the number of selected inputs")
    y = vc.call(p, x); vc.check_shape(y, (n, 1), "value")
    # the inner point: selected inputs come from x, the others sit at fraction w of their range
    def chk_point(i):
        t = y.get((i, ZERO))
        lam = next((a for a in find_apps(t, "P")), None)
        vc.require(lam is not None, "value is the inner problem's value")
        if lam is None: return
        L = lam.a[1]
        v = L.a[0][0][0]
        j = var("j", "I"); vc.assume(le(ZERO, j), lt(j, nx))
        vc.check_eq(subst(L.a[1], {v: sel(j)}), app("x", i, j), "selected input j reaches its inner dimension")
        o = var("o", "I"); vc.assume(le(ZERO, o), lt(o, N))
        if mode == "int": vc.assume(le(nx, o))
        elif mode == "arange": vc.assume(lt(o, var("lo", "I")))
        else: vc.assume(*[ne(o, d) for d in ds])
        vc.check_eq(subst(L.a[1], {v: o}), add(mul(sub(1, w), app("xl", o, ZERO)), mul(w, app("xl", o, ONE))), "unselected input sits at fraction w")
        vc.check_eq(t, lam, "value is the inner problem's value there")
    vc.forall((n,), chk_point)
    kx = vc.int_("kx"); vc.assume(le(ZERO, kx), lt(kx, nx))
    d = vc.call(p, x, kx=kx); vc.check_shape(d, (n, 1), "derivative")
    vc.forall((n,), lambda i: vc.check_eq(d.get((i, ZERO)), vc.D(y.get((i, ZERO)), app("x", i, kx)), "derivative"))
    xl = vc.attr(p, "xlimits")
    vc.check_arr(xl, (nx, 2), lambda j, b: app("xl", sel(j), b), "xlimits are those of the selected inputs")
def find_apps(t, name):
    out = []
    def f(a):
        if a.a[0] == name and a not in out: out.append(a)
        return None
    replace_apps(t, f)
    return out
for m_, s_ in (("int", 1), ("arange", 1), ("arange", 2), ("arange", 3), (2, 1), (3, 1)):
    contract.add("ReducedProblem[%s,%s]" % (m_, s_), lambda vc, m_=m_, s_=s_: reduced(vc, m_, s_))

def wrapper(vc, cls, innercls, N, off, st, total):
    """Ndim*: delegation to the reduced inner problem (constructor indices included), for every ndim"""
    n = vc.dim("n"); nd = vc.dim("nd")
    p = vc.new(cls, ndim=nd)
    x = vc.arr("x", n, nd)
    y = vc.call(p, x); vc.check_shape(y, (n, 1), "value")
    kx = vc.int_("kx"); vc.assume(le(ZERO, kx), lt(kx, nd))
    d = vc.call(p, x, kx=kx); vc.check_shape(d, (n, 1), "derivative")
    vc.forall((n,), lambda i: vc.check_eq(d.get((i, ZERO)), vc.D(y.get((i, ZERO)), app("x", i, kx)), "derivative"))
for c_ in ("ndim_rosenbrock:NdimRosenbrock", "ndim_step_function:NdimStepFunction", "ndim_cantilever_beam:NdimCantileverBeam", "ndim_robot_arm:NdimRobotArm"):
    contract.add(c_.split(":")[1], lambda vc, c_=c_: wrapper(vc, "smt.problems." + c_, None, None, None, None, None))
    def rj(vc, c_=c_):
        nd = vc.dim("nd"); p = vc.new("smt.problems." + c_, ndim=nd); reject(vc, p, vc.dim("n"), nd)
    contract.add(c_.split(":")[1] + " rejects", rj)
