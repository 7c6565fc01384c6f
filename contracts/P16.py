"""P16  Inverse-distance weighting interpolates with convex weights."""
from pyvc.contract import *
contract = Registry()
ASSUMPTIONS = ["training points are distinct, the power is above 1 where the derivative at a training point is concerned",
    "C++: machine integers and doubles as mathematical numbers (no overflow of r^-p); memory is bounds-checked by obligations, deallocation is not modelled"]
R = "smt.surrogate_models.idw:IDW"

def model(vc, yt=None):
    nt, nx, ny = vc.dim("nt"), vc.dim("nx"), vc.dim("ny")
    sm = vc.new(R, print_global=False)
    vc.it.setitem(vc.attr(sm, "options"), "p", vc.real("p"))
    vc.positive("p")
    vc.method(sm, "set_training_values", vc.arr("xt", nt, nx), vc.arr("yt", nt, ny) if yt is None else yt(nt, ny))
    vc.method(sm, "train")
    if getattr(vc, "again", None): vc.again(vc, sm, nt, nx, ny); vc.method(sm, "train")
    else: sm.put("nt", nt)
    return sm, nt, nx, ny
def r2(nx, x, t):
    k = fresh("k"); return Sum(k, nx, power(sub(x(k), app("xt", t, k)), 2))
def w(nx, x, t): return power(r2(nx, x, t), mul(Fraction(-1, 2), var("p", "R")))
def wsum(nx, nt, x):
    t = fresh("t"); return Sum(t, nt, w(nx, x, t))
def idw(nx, nt, x, y):
    t = fresh("t"); return mul(Sum(t, nt, mul(w(nx, x, t), y(t))), power(wsum(nx, nt, x), -1))
def row(i): return lambda k: app("x", i, k)
def away(vc, nx, nt, i):
    """x[i] is not a training point: its least squared distance is positive"""
    m, a = vc.lemma_min(nt, lambda t: r2(nx, row(i), t))
    vc.assume(lt(ZERO, m))

def values(vc):
    sm, nt, nx, ny = model(vc); n = vc.dim("n"); x = vc.arr("x", n, nx)
    y = vc.method(sm, "_predict_values", x)
    vc.check_shape(y, (n, ny), "prediction")
    def f(i, c):
        away(vc, nx, nt, i)
        vc.check_eq(y.get((i, c)), idw(nx, nt, row(i), lambda t: app("yt", t, c)), "prediction is the weighted average of the outputs")
    vc.forall((n, ny), f)
contract("IDW._predict_values away from training points")(values)

def derivs(vc):
    sm, nt, nx, ny = model(vc); n = vc.dim("n"); x = vc.arr("x", n, nx)
    kx = vc.int_("kx"); vc.assume(le(ZERO, kx), lt(kx, nx))
    dy = vc.method(sm, "_predict_derivatives", x, kx)
    vc.check_shape(dy, (n, ny), "derivatives")
    def f(i, c):
        away(vc, nx, nt, i)
        vc.check_eq(dy.get((i, c)), vc.D(idw(nx, nt, row(i), lambda t: app("yt", t, c)), app("x", i, kx)), "derivative in direction kx is the partial derivative of the prediction")
    vc.forall((n, ny), f)
    vc.check_arr(x, (n, nx), lambda i, k: app("x", i, k), "evaluation points not modified")
contract("IDW._predict_derivatives away from training points")(derivs)

def convex(vc):
    """outputs at or above lo (below hi) give predictions at or above lo (below hi); the weights sum to one"""
    vc.positive("d", "wt")
    for s, lab in ((1, "not below the least output"), (-1, "not above the greatest output")):
        sm, nt, nx, ny = model(vc, lambda nt, ny: mkarr((nt, ny), lambda t, c: add(app("lo", c), mul(s, app("d", t, c))))); n = vc.dim("n"); x = vc.arr("x", n, nx)
        y = vc.method(sm, "_predict_values", x)
        W = vc.it.getitem(vc.method(sm, "_predict_output_derivatives", x), None)
        vc.check_shape(W, (n, nt, ny), "output derivatives")
        def f(i, c):
            away(vc, nx, nt, i)
            t = fresh("t")
            vc.check_eq(mul(s, sub(y.get((i, c)), app("lo", c))), mul(Sum(t, nt, mul(w(nx, row(i), t), app("d", t, c))), power(wsum(nx, nt, row(i)), -1)), "weights sum to one: prediction = bound + weighted average of the nonnegative excess (%s)" % lab)
            t = fresh("t")
            vc.check_eq(Sum(t, nt, W.get((i, t, c))), ONE, "output derivatives sum to one")
        vc.forall((n, ny), f)
        def g(i, t, c):
            away(vc, nx, nt, i)
            vc.check_eq(W.get((i, t, c)), mul(w(nx, row(i), t), power(wsum(nx, nt, row(i)), -1)), "derivative with respect to output t is its weight: a power of a distance over the sum of those powers")
        vc.forall((n, nt, ny), g)
contract("IDW convex weights and output derivatives")(convex)

def at_training(vc):
    sm, nt, nx, ny = model(vc); n = vc.dim("n")
    vc.axiom("loc", lambda i: [or_(lt(i, ZERO), le(n, i), and_(le(ZERO, app("loc", i, s="I")), lt(app("loc", i, s="I"), nt)))])
    loc = lambda i: app("loc", i, s="I")
    x = mkarr((n, nx), lambda i, k: app("xt", loc(i), k))
    y = vc.method(sm, "_predict_values", x)
    kx = vc.int_("kx"); vc.assume(le(ZERO, kx), lt(kx, nx))
    dy = vc.method(sm, "_predict_derivatives", x, kx)
    W = vc.it.getitem(vc.method(sm, "_predict_output_derivatives", x), None)
    vc.check_shape(y, (n, ny), "prediction"); vc.check_shape(dy, (n, ny), "derivatives"); vc.check_shape(W, (n, nt, ny), "output derivatives")
    def f(i, t, c):
        E = lambda t: r2(nx, lambda k: app("xt", loc(i), k), t)
        m, a = vc.lemma_min(nt, E, loc(i))
        vc.assume(le(ZERO, m))                          # a minimum of sums of squares
        vc.assume(or_(ne(E(a), ZERO), eq(a, loc(i))))   # the training points are distinct
        vc.check_eq(m, ZERO, "least squared distance is zero")
        vc.check_eq(y.get((i, c)), app("yt", loc(i), c), "prediction at a training point is its output")
        vc.check_eq(dy.get((i, c)), ZERO, "derivative at a training point is zero (exponent above one)")
        vc.check_eq(W.get((i, t, c)), ite(eq(t, loc(i)), ONE, ZERO), "only that output has weight one")
    vc.forall((n, nt, ny), f)
contract("IDW at training points")(at_training)
