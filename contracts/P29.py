"""P29  compute_rms_error: |prediction - reference| / |reference|, for every model, data set and requested direction."""
from pyvc.contract import *
from pyvc.interp import Native
contract = Registry()
ASSUMPTIONS = ["the model's prediction calls return one row per point and one column (P03)"]

def model(vc, ny=1):
    sm = vc.new("smt.surrogate_models.ls:LS", print_global=False)
    vc.it.setitem(vc.attr(sm, "supports"), "training_derivatives", True)
    asked = []
    def pred(what):
        def f(it, a, kw):
            x = a[1]; q = fresh("q"); c = var("cc", "I")
            k = num(a[2]) if len(a) > 2 else num(kw["kx"]) if "kx" in kw else ZERO
            asked.append((what, k))
            return Arr(Store((x.shape[0], num(ny)), (q, o_), app("pred" + what, Lam(c, x.shape[1], x.get((q, c))), k, o_)))
        return f
    o_ = fresh("o")
    for m, w in (("predict_values", "V"), ("predict_derivatives", "D")): vc.it.stubs["smt.surrogate_models.surrogate_model:SurrogateModel." + m] = pred(w)
    return sm
def P(w, x, nx, q, o, k=ZERO):
    c = var("cc", "I"); return app("pred" + w, Lam(c, nx, app(x, q, c)), num(k), o)

def ratio(vc, r, n, ny, pred, ref, label):
    """r = sqrt(sum (pred-ref)^2) / sqrt(sum ref^2)"""
    q, o = fresh("q"), fresh("o")
    num_ = Sum(q, n, Sum(o, ny, power(sub(pred(q, o), ref(q, o)), 2)))
    den = Sum(q, n, Sum(o, ny, power(ref(q, o), 2)))
    h = Fraction(1, 2)
    vc.check_eq(num(r), mul(power(num_, h), power(den, neg(h) if isinstance(h, T) else -h)), label)

def given(vc, kx, flat):
    n, nx = vc.dim("n"), vc.dim("nx")
    sm = model(vc)
    xe = vc.arr("xe", n, nx)
    ye = vc.arr("ye", n) if flat else vc.arr("ye", n, 1)
    k = None
    if kx: k = vc.int_("kx"); vc.assume(le(ZERO, k), lt(k, nx))
    r = vc.call("smt.utils.misc:compute_rms_error", sm, xe, ye, k) if kx else vc.call("smt.utils.misc:compute_rms_error", sm, xe, ye)
    ref = (lambda q, o: app("ye", q)) if flat else (lambda q, o: app("ye", q, o))
    if kx: ratio(vc, r, n, 1, lambda q, o: P("D", "xe", nx, q, o, k), ref, "given points, derivative direction kx")
    else: ratio(vc, r, n, 1, lambda q, o: P("V", "xe", nx, q, o), ref, "given points, values")
for kx in (False, True):
    for flat in (False, True):
        contract("compute_rms_error(sm, xe, ye%s)%s" % (", kx" if kx else "", " one-dimensional ye" if flat else ""))(lambda vc, kx=kx, flat=flat: given(vc, kx, flat))

def training(vc, kx):
    nt, nx, ny = vc.dim("nt"), vc.dim("nx"), vc.dim("ny")
    sm = model(vc, ny)
    xt, yt = vc.arr("xt", nt, nx), vc.arr("yt", nt, ny)
    vc.method(sm, "set_training_values", xt, yt)
    if kx is None:
        r = vc.call("smt.utils.misc:compute_rms_error", sm)
        ratio(vc, r, nt, ny, lambda q, o: P("V", "xt", nx, q, o), lambda q, o: app("yt", q, o), "training points, values")
    else:
        vc.assume(lt(num(1), nx))
        nd = vc.dim("nd"); xd, yd, yo = vc.arr("xd", nd, nx), vc.arr("yd", nd, ny), vc.arr("yo", nd, ny)
        vc.method(sm, "set_training_derivatives", xd, yd, kx)
        vc.method(sm, "set_training_derivatives", xd, yo, 1 - kx)
        r = vc.call("smt.utils.misc:compute_rms_error", sm, kx=kx)
        ratio(vc, r, nd, ny, lambda q, o: P("D", "xd", nx, q, o, num(kx)), lambda q, o: app("yd", q, o), "training points, derivatives of the direction asked for")
for kx in (None, 0, 1):
    contract("compute_rms_error(sm%s) on training data" % ("" if kx is None else ", kx=%d" % kx))(lambda vc, kx=kx: training(vc, kx))
def absent(vc):
    nt, nx = vc.dim("nt"), vc.dim("nx")
    sm = model(vc)
    vc.method(sm, "set_training_values", vc.arr("xt", nt, nx), vc.arr("yt", nt, 1))
    e, _ = vc.raises(lambda: vc.call("smt.utils.misc:compute_rms_error", sm, kx=0))
    vc.require(e is not None, "direction without training data is rejected")
contract("compute_rms_error rejects a direction without data")(absent)
