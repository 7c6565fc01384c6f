"""P20  Polynomial models reproduce the least-squares polynomial.

QP._response_surface : result[i,m] is the m-th monomial of degree <= 2 (each exactly once, in the documented order)
QP._new_train        : coef = (X'X)^-1 X'y for X the response surface of the training inputs
QP/LS predict_values : the affine / full quadratic polynomial with the fitted coefficients
QP/LS predict_derivatives(kx) : its partial derivative, for every dimension, direction and number of outputs
All through the public wrappers of SurrogateModel, for every nt, nx, ny, n."""
from pyvc.contract import *
contract = Registry()
ASSUMPTIONS = ["sklearn.linear_model.LinearRegression: fit stores coef_ (ny,nx) and intercept_ (ny) minimising squared error, predict(x) = x coef_^T + intercept_",
               "numpy.linalg.inv(M) is the matrix inverse of M (full-rank design)"]

def K(i, j, d):   # column of x_i x_j (i<j) in the documented layout
    return norm_T(add(mul(2, d), 1, mul(i, d), neg(mul(Fraction(1, 2), add(i, 1), i)), sub(j, add(i, 1))), TOP)

def model(vc, name, nt, nx, ny):
    sm = vc.new("smt.surrogate_models.%s" % name, print_global=False)
    xt, yt = vc.arr("xt", nt, nx), vc.arr("yt", nt, ny)
    vc.method(sm, "set_training_values", xt, yt)
    return sm

def surface(vc):
    nx, n = vc.dim("nx"), vc.dim("n")
    sm = vc.obj("smt.surrogate_models.qp:QP", nx=nx)
    x = vc.arr("x", n, nx); keep = vc.snapshot(x)
    M = vc.method(sm, "_response_surface", x)
    nm = norm_T(mul(Fraction(1, 2), add(nx, 1), add(nx, 2)), TOP)
    vc.check_shape(M, (n, nm), "one column per monomial of degree <= 2")
    def rows(r):
        vc.check_eq(M.get((r, ZERO)), ONE, "column 0 is the constant")
        def one(c):
            vc.check_eq(M.get((r, add(c, 1))), app("x", r, c), "columns 1..nx are the inputs")
            vc.check_eq(M.get((r, add(nx, c, 1))), power(app("x", r, c), 2), "columns nx+1..2nx are the squares")
        vc.forall((nx,), one)
        # cross products: against an arbitrary coefficient vector the tail is sum_{i<j} a(K(i,j)) x_i x_j
        c = fresh("c")
        full = Sum(c, nm, mul(M.get((r, c)), app("a", c)))
        i, j = fresh("i"), fresh("j")
        spec = add(app("a", ZERO), Sum(i, nx, mul(app("a", add(i, 1)), app("x", r, i))), Sum(i, nx, mul(app("a", add(nx, i, 1)), power(app("x", r, i), 2))),
                   Sum(i, nx, Sum(j, sub(sub(nx, i), 1), mul(app("a", K(i, add(i, j, 1), nx)), app("x", r, i), app("x", r, add(i, j, 1))))))
        vc.check_eq(full, spec, "each monomial of degree <= 2 occurs exactly once")
    vc.forall((n,), rows)
    vc.check_arr(x, (n, nx), lambda i, c: keep.get((i, c)), "frame: x unchanged")
contract("QP._response_surface")(surface)

def qp_predict(vc):
    nx, ny, n = vc.dim("nx"), vc.dim("ny"), vc.dim("n")
    nm = norm_T(mul(Fraction(1, 2), add(nx, 1), add(nx, 2)), TOP)
    sm = vc.new("smt.surrogate_models.qp:QP", print_global=False)
    for k, v in (("nx", nx), ("ny", ny), ("nt", vc.dim("nt")), ("coef", vc.arr("a", nm, ny))): sm.put(k, v)
    x = vc.arr("x", n, nx)
    y = vc.method(sm, "predict_values", x); vc.check_shape(y, (n, ny), "values")
    i, j = fresh("i"), fresh("j")
    spec = lambda r, o: add(app("a", ZERO, o), Sum(i, nx, mul(app("a", add(i, 1), o), app("x", r, i))), Sum(i, nx, mul(app("a", add(nx, i, 1), o), power(app("x", r, i), 2))),
            Sum(i, nx, Sum(j, sub(sub(nx, i), 1), mul(app("a", K(i, add(i, j, 1), nx), o), app("x", r, i), app("x", r, add(i, j, 1))))))
    vc.check_arr(y, (n, ny), spec, "values are the full quadratic polynomial")
    kx = vc.int_("kx"); vc.assume(le(ZERO, kx), lt(kx, nx))
    d = vc.method(sm, "predict_derivatives", x, kx)
    vc.check_arr(d, (n, ny), lambda r, o: vc.D(spec(r, o), app("x", r, kx)), "derivative of the polynomial")
contract("QP.predict_values/derivatives")(qp_predict)

def qp_train(vc, again=None):
    nx, ny, nt = vc.dim("nx"), vc.dim("ny"), vc.dim("nt")
    nm = norm_T(mul(Fraction(1, 2), add(nx, 1), add(nx, 2)), TOP)
    vc.assume(le(nm, nt))
    c2 = var("cc", "I")
    def rs(it, a, kw):   # contract proved above: row r, column c is a function of the row of x and of c
        x = a[1]; r, c = fresh("r"), fresh("c")
        return Arr(Store((x.shape[0], nm), (r, c), app("mono", Lam(c2, nx, x.get((r, c2))), c)))
    c2 = var("cc", "I")
    vc.it.stubs["smt.surrogate_models.qp:QP._response_surface"] = rs
    sm = model(vc, "qp:QP", nt, nx, ny)
    if again: again(vc, sm, nt, nx, ny)
    vc.method(sm, "train")
    X = lambda r, c: app("mono", Lam(c2, nx, app("xt", r, c2)), c)
    t = fresh("t"); l = fresh("l"); p, q = fresh("p"), fresh("q")
    G = Lam(p, nm, Lam(q, nm, Sum(t, nt, mul(X(t, p), X(t, q)))))
    vc.check_arr(vc.attr(sm, "coef"), (nm, ny), lambda m, o: Sum(l, nm, mul(app("inv", norm_T(G, vc.it.ctx), m, l), Sum(t, nt, mul(X(t, l), app("yt", t, o))))), "coef = (X'X)^-1 X'y")
contract("QP._new_train")(qp_train)
def qp_train_few(vc):
    nx, ny, nt = vc.dim("nx"), vc.dim("ny"), vc.dim("nt")
    vc.assume(lt(nt, norm_T(mul(Fraction(1, 2), add(nx, 1), add(nx, 2)), TOP)))
    sm = model(vc, "qp:QP", nt, nx, ny)
    e, _ = vc.raises(lambda: vc.method(sm, "_new_train"))
    vc.require(e is not None, "too few points are rejected")
contract("QP._new_train rejects")(qp_train_few)

def ls(vc, again=None):
    nx, ny, n, nt = vc.dim("nx"), vc.dim("ny"), vc.dim("n"), vc.dim("nt")
    log = []
    lr = LinReg(vc, log)
    vc.it.natives["sklearn.linear_model.LinearRegression"] = lambda it, a, kw: lr.make(a, kw)
    sm = model(vc, "ls:LS", nt, nx, ny)
    if again: again(vc, sm, nt, nx, ny); vc.require(len(log) == 1, "the first regression is fitted once")
    vc.method(sm, "train")
    w = ""
    if again and len(log) == 2: w = "1"; log = log[1:]
    vc.require(len(log) == 1, "the regression is fitted exactly once with default settings")
    if log:
        X, Y = log[0]
        vc.check_arr(X, (nt, nx), lambda i, c: app("xt", i, c), "fitted on the training inputs")
        vc.check_arr(Y, (nt, ny), lambda i, c: app("yt", i, c), "fitted on the training outputs")
    x = vc.arr("x", n, nx)
    y = vc.method(sm, "predict_values", x)
    c = fresh("c")
    spec = lambda r, o: add(Sum(c, nx, mul(app("x", r, c), app("coef" + w, o, c))), app("icpt" + w, o))
    vc.check_arr(y, (n, ny), spec, "values are the fitted affine function")
    kx = vc.int_("kx"); vc.assume(le(ZERO, kx), lt(kx, nx))
    d = vc.method(sm, "predict_derivatives", x, kx)
    vc.check_arr(d, (n, ny), lambda r, o: vc.D(spec(r, o), app("x", r, kx)), "derivative of the affine function")
class LinReg:
    """assumed contract of sklearn's LinearRegression"""
    def __init__(self, vc, log): self.vc = vc; self.log = log
    def make(self, a, kw):
        vc = self.vc
        if a or kw: raise Unsupported("LinearRegression options")
        o = vc.obj("smt.utils.options_dictionary:OptionsDictionary")
        st = {}
        def fit(it, a, kw):
            X, Y = a[0], a[1]
            if not (isinstance(X, Arr) and isinstance(Y, Arr) and Y.ndim == 2): raise Unsupported("fit arguments")
            self.log.append((X.copy(), Y.copy())); st["d"] = (X.shape[1], Y.shape[1])
            st["w"] = w = "" if len(self.log) == 1 else str(len(self.log) - 1)
            o.put("coef_", symarr("coef" + w, Y.shape[1], X.shape[1])); o.put("intercept_", symarr("icpt" + w, Y.shape[1]))
            return o
        def predict(it, a, kw):
            X = a[0]; nx, ny = st["d"]; c = fresh("c")
            vc.check_shape(X, (X.shape[0], nx), "predict input")
            return mkarr((X.shape[0], ny), lambda i, j: add(Sum(c, nx, mul(X.get((i, c)), app("coef" + st["w"], j, c))), app("icpt" + st["w"], j)))
        o.put("fit", Native(fit, "fit")); o.put("predict", Native(predict, "predict"))
        return o
contract("LS train/predict")(ls)
