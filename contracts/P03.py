"""P03  Prediction calls validate their input and dispatch faithfully.

Contracts on SurrogateModel.predict_values / predict_derivatives / predict_output_derivatives / predict_variances /
predict_variance_derivatives, checked against uninterpreted model functions _predict_* (an arbitrary model):
  pre-rejection: wrong column count or undeclared support raises and no _predict_* runs;
  dispatch     : the model receives exactly the caller's points (1-d read as a column) and kx, once, and its answer is returned
                 as (n, ny);
  frame        : values/variances pass the model a private copy (an in-place model cannot reach the caller's array)."""
from pyvc.contract import *
contract = Registry()
MOD = "smt.surrogate_models.surrogate_model:SurrogateModel"
Q = {"values": "_predict_values", "derivatives": "_predict_derivatives", "output_derivatives": "_predict_output_derivatives",
     "variances": "_predict_variances", "variance_derivatives": "_predict_variance_derivatives"}
PUB = {"values": "predict_values", "derivatives": "predict_derivatives", "output_derivatives": "predict_output_derivatives",
       "variances": "predict_variances", "variance_derivatives": "predict_variance_derivatives"}
ANY = dict(values=True)
def model(vc, what, support, shape, mutate, printing=False):
    """arbitrary model: _predict_* returns F(row content, kx, output) and may overwrite its argument"""
    sm = vc.new(MOD, print_global=printing); log = []
    nx, ny = vc.dim("nx"), vc.dim("ny"); sm.put("nx", nx); sm.put("ny", ny); sm.put("nt", vc.dim("nt"))
    for q in Q:
        if q != "values": vc.it.setitem(vc.attr(sm, "supports"), q, support)
    vc.it.stubs[MOD.replace("SurrogateModel", "SurrogateModel.name")] = lambda it, a, kw: "Model"
    def mk(q):
        def f(it, a, kw):
            x = a[1]; kx = a[2] if len(a) > 2 else kw.get("kx", ZERO)
            log.append((q, x.copy(), kx)); n = x.shape[0]; c = fresh("c")
            if shape == "flat": r = mkarr((norm_T(mul(n, ny), it.ctx),), lambda k: app("F", fdiv(k, ny), sub(k, mul(ny, fdiv(k, ny))), kx))
            else: r = mkarr((n, ny), lambda i, j: app("F", i, j, kx))
            if mutate: it.setitem(x, Ellipsis, Fraction(9))
            if q == "output_derivatives": return PyDict({None: r})
            return r
        return f
    for q in Q: vc.it.stubs["%s.%s" % (MOD, Q[q])] = mk(q)
    return sm, log, nx, ny
def call(vc, sm, q, x, kx=None):
    return vc.method(sm, PUB[q], x, kx) if q == "derivatives" else vc.method(sm, PUB[q], x)

def dispatch(q, onedim, shape, printing=False):
    def f(vc):
        mutate = q in ("values", "variances")
        sm, log, nx, ny = model(vc, q, True, shape, mutate, printing)
        n = vc.dim("n"); kx = vc.int_("kx"); vc.assume(le(ZERO, kx), lt(kx, nx))
        if onedim: sm.put("nx", 1); x = vc.arr("x", n); kx = 0
        else: x = vc.arr("x", n, nx)
        keep = vc.snapshot(x)
        r = call(vc, sm, q, x, kx)
        vc.require([l[0] for l in log] == [q], "the model's %s is evaluated exactly once" % Q[q])
        if len(log) != 1: return
        _, xr, kr = log[0]
        vc.check_arr(xr, (n, ONE) if onedim else (n, nx), (lambda i, c: app("x", i)) if onedim else (lambda i, c: app("x", i, c)), "the model is evaluated at the caller's points")
        if q == "derivatives": vc.check_eq(kr, num(kx), "direction passed on")
        K = num(kx) if q == "derivatives" else ZERO
        if q == "output_derivatives": r = vc.it.getitem(r, None)
        vc.check_arr(r, (n, ny), lambda i, j: app("F", i, j, K), "the model's answer is returned, one row per point and one column per output")
        vc.check_arr(x, tuple(keep.shape), lambda *i: keep.get(i), "frame: caller's array unmodified")
    return f
for q in Q:
    contract(PUB[q])(dispatch(q, False, "2d"))
    contract(PUB[q] + " 1-d input")(dispatch(q, True, "2d"))
    if q in ("values", "derivatives", "variances"): contract(PUB[q] + " flat model answer")(dispatch(q, False, "flat"))

def reject(q):
    def f(vc):
        sm, log, nx, ny = model(vc, q, True, "2d", False)
        n, m = vc.dim("n"), vc.dim("m"); vc.assume(ne(m, nx))
        e, _ = vc.raises(lambda: call(vc, sm, q, vc.arr("x", n, m), 0))
        vc.require(e is not None, "wrong number of columns is rejected"); vc.require(not log, "before the model is evaluated")
        e, _ = vc.raises(lambda: call(vc, sm, q, vc.arr("x", n, m, m), 0))
        vc.require(e is not None, "rank-3 input is rejected"); vc.require(not log, "before the model is evaluated")
        vc.assume(lt(ONE, nx))
        e, _ = vc.raises(lambda: call(vc, sm, q, vc.arr("x", n), 0))
        vc.require(e is not None, "1-d input of a multi-dimensional model is rejected"); vc.require(not log, "before the model is evaluated")
        if q != "values":
            vc.it.setitem(vc.attr(sm, "supports"), q, False)
            e, _ = vc.raises(lambda: call(vc, sm, q, vc.arr("x", n, nx), 0))
            vc.require(e is not None, "undeclared support is rejected"); vc.require(not log, "before the model is evaluated")
    return f
for q in Q: contract(PUB[q] + " rejects")(reject(q))

def defaults(vc):
    """a freshly built base model declares no optional feature"""
    sm = vc.new(MOD)
    for q in list(Q)[1:] + ["training_derivatives", "adjoint_api"]:
        vc.require(vc.it.getitem(vc.attr(sm, "supports"), q) is False, "no support declared by default: " + q)
contract("SurrogateModel defaults")(defaults)
