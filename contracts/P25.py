"""P25  Network data handling neither loses nor alters data."""
from pyvc.contract import *
contract = Registry()
NN = "smt.utils.neural_net."
ASSUMPTIONS = ["numpy.random.permutation(m) returns a permutation of 0..m-1", "numpy.std of non-constant data is positive"]
def setup(it):
    def std(it_, a, kw):
        x = a[0]
        if kw or len(a) != 1 or not isinstance(x, Arr) or x.ndim != 1: raise Unsupported("std form")
        c = var("sc", "I"); return app("std", Lam(c, x.shape[0], x.get((c,))))
    it.natives["numpy.std"] = std
def pos(vc): vc.positive("std")

def norm_data(hasJ):
    def f(vc):
        pos(vc)
        nx, ny, m = vc.dim("nx"), vc.dim("ny"), vc.dim("m")
        X, Y = vc.arr("X", nx, m), vc.arr("Y", ny, m); J = vc.arr("J", ny, nx, m) if hasJ else None
        Xn, Yn, Jn, mx, sx, my, sy = vc.it.iterate(vc.call(NN + "data:normalize_data", X, Y, J))[1]
        for (Z, n, Zn, mu, sg, nm) in ((X, nx, Xn, mx, sx, "X"), (Y, ny, Yn, my, sy, "Y")):
            vc.check_shape(mu, (n, ONE), "offset of " + nm); vc.check_shape(sg, (n, ONE), "scale of " + nm); vc.check_shape(Zn, (n, m), "normalised " + nm)
            c = fresh("c"); sc = var("sc", "I")
            vc.check_arr(mu, (n, ONE), lambda i, j: mul(power(m, -1), Sum(c, m, app(nm, i, c))), "offset is the mean of " + nm)
            vc.check_arr(sg, (n, ONE), lambda i, j: app("std", Lam(sc, m, app(nm, i, sc))), "scale is the standard deviation of " + nm)
            def inv(i, j): return sub(add(mul(Zn.get((i, j)), sg.get((i, ZERO))), mu.get((i, ZERO))), app(nm, i, j))
            vc.forall((n, m), lambda i, j: vc.check_eq(inv(i, j), ZERO, "normalised %s scaled back gives the data" % nm))
            vc.check_arr(Z, (n, m), lambda i, j: app(nm, i, j), "frame: %s unchanged" % nm)
        if hasJ:
            vc.check_shape(Jn, (ny, nx, m), "normalised J")
            vc.forall((ny, nx, m), lambda i, k, j: vc.check_eq(mul(Jn.get((i, k, j)), sy.get((i, ZERO)), power(sx.get((k, ZERO)), -1)), app("J", i, k, j), "normalised Jacobian scaled back gives the data"))
            vc.check_arr(J, (ny, nx, m), lambda i, k, j: app("J", i, k, j), "frame: J unchanged")
        else: vc.require(Jn is None, "no Jacobian stays no Jacobian")
    return f
contract("normalize_data", setup=setup)(norm_data(True)); contract("normalize_data without Jacobian", setup=setup)(norm_data(False))

def roundtrip(vc):
    """Model._load_training_data followed by training_data returns the data"""
    pos(vc)
    nx, ny, m = vc.dim("nx"), vc.dim("ny"), vc.dim("m")
    M = vc.new(NN + "model:Model"); M.put("_n_x", nx); M.put("_n_y", ny)
    vc.method(M, "_load_training_data", vc.arr("X", nx, m), vc.arr("Y", ny, m), vc.arr("J", ny, nx, m))
    X, Y, J = vc.it.iterate(vc.attr(M, "training_data"))[1]
    vc.check_arr(X, (nx, m), lambda i, j: app("X", i, j), "training inputs restored")
    vc.check_arr(Y, (ny, m), lambda i, j: app("Y", i, j), "training outputs restored")
    vc.check_arr(J, (ny, nx, m), lambda i, k, j: app("J", i, k, j), "training Jacobian restored")
    vc.check_eq(vc.attr(M, "_m"), m, "number of examples recorded")
contract("Model._load_training_data / training_data", setup=setup)(roundtrip)

def perm_model(vc, m):
    """assumed contract of numpy.random.permutation"""
    vc.axiom("perm", lambda i: [or_(lt(i, ZERO), le(m, i), and_(le(ZERO, app("perm", i, s="I")), lt(app("perm", i, s="I"), m)))])
    def perm(it, a, kw):
        vc.check_eq(S(a[0]), m, "permutation of all examples")
        return mkarr((m,), lambda i: app("perm", i, s="I"), dtype="i")
    vc.it.natives["numpy.random.permutation"] = perm
    vc.it.natives["numpy.random.seed"] = lambda it, a, kw: None
def batches(mode, hasJ=True):
    def f(vc):
        nx, ny, m, b = vc.dim("nx"), vc.dim("ny"), vc.dim("m"), vc.dim("b")
        q = vc.dim("q")      # number of full batches
        if mode == "large": vc.assume(le(m, b)); size = m; q = ONE; rest = ZERO
        elif mode == "exact": m = norm_T(mul(q, b), vc.it.ctx); size = b; rest = ZERO
        else: rest = vc.dim("r"); vc.assume(lt(rest, b)); m = norm_T(add(mul(q, b), rest), vc.it.ctx); size = b
        perm_model(vc, m)
        X, Y = vc.arr("X", nx, m), vc.arr("Y", ny, m); J = vc.arr("J", ny, nx, m) if hasJ else None
        bs = vc.call(NN + "data:random_mini_batches", X, Y, J, b, 3)
        nb = vc.call("len", bs) if False else vc.it.natives["len"](vc.it, [bs], {})
        total = add(q, 0 if rest is ZERO else 1)
        vc.check_eq(S(nb), total, "number of batches covers the data")
        def batch(k, start, count):
            x, y, j = vc.it.iterate(vc.it.getitem(bs, k))[1]
            p = lambda c: app("perm", add(start, c), s="I")
            vc.check_arr(x, (nx, count), lambda r, c: app("X", r, p(c)), "batch inputs are the next examples of the permutation")
            vc.check_arr(y, (ny, count), lambda r, c: app("Y", r, p(c)), "batch outputs belong to the same examples")
            if hasJ: vc.check_arr(j, (ny, nx, count), lambda r, s, c: app("J", r, s, p(c)), "batch derivatives belong to the same examples")
            else: vc.require(j is None, "no derivatives")
        vc.forall((q,), lambda k: batch(k, norm_T(mul(k, size), vc.it.ctx), size))
        if rest is not ZERO: batch(q, norm_T(mul(q, b), vc.it.ctx), rest)
        vc.check_arr(X, (nx, m), lambda r, c: app("X", r, c), "frame: inputs unchanged")
    return f
for mode in ("large", "exact", "rest"): contract("random_mini_batches %s" % mode)(batches(mode))
contract("random_mini_batches without derivatives")(batches("rest", False))

GE = "smt.surrogate_models.genn:"
def to_genn(vc):
    """smt_to_genn: surrogate layout (rows = points, one entry per direction) -> network layout, any number of inputs"""
    m, nx, ny = vc.dim("m"), vc.dim("nx"), vc.dim("ny")
    xt = vc.arr("xt", m, nx); yt = vc.arr("yt", m, ny)
    def item(i):
        i = norm_T(S(i), vc.it.ctx)
        if i is ZERO: return PyList([xt, yt])
        return PyList([xt, mkarr((m, ny), lambda r, o: app("dy", r, o, sub(i, 1)))])
    l = PyList([]); l.c["items"] = SymSeq(add(nx, 1), item)
    X, Y, J = vc.it.iterate(vc.call(GE + "smt_to_genn", PyDict({None: l})))[1]
    vc.check_arr(X, (nx, m), lambda k, r: app("xt", r, k), "X is the transposed inputs")
    vc.check_arr(Y, (ny, m), lambda o, r: app("yt", r, o), "Y is the transposed outputs")
    vc.check_arr(J, (ny, nx, m), lambda o, k, r: app("dy", r, o, k), "J[o,k,r] is the derivative of output o in direction k at point r")
contract("smt_to_genn")(to_genn)

def roundtrip_smt(nx, onedim):
    def f(vc):
        m = vc.dim("m")
        sm = vc.new(GE + "GENN", print_global=False)
        xt = vc.arr("xt", m) if onedim else vc.arr("xt", m, nx); yt = vc.arr("yt", m) if onedim else vc.arr("yt", m, 1)
        dy = vc.arr("dy", m) if onedim else vc.arr("dy", m, nx)
        vc.call(GE + "load_smt_data", sm, xt, yt, dy)
        X, Y, J = vc.it.iterate(vc.call(GE + "smt_to_genn", vc.attr(sm, "training_points")))[1]
        ix = (lambda s, r, k: app(s, r)) if onedim else (lambda s, r, k: app(s, r, k))
        vc.check_arr(X, (num(nx), m), lambda k, r: ix("xt", r, k), "inputs reach the network")
        vc.check_arr(Y, (ONE, m), lambda k, r: ix("yt", r, ZERO), "outputs reach the network")
        vc.check_arr(J, (ONE, num(nx), m), lambda o, k, r: ix("dy", r, k), "derivatives reach the network")
    return f
for nx in (1, 2, 3): contract("load_smt_data / smt_to_genn nx=%d" % nx)(roundtrip_smt(nx, False))
contract("load_smt_data / smt_to_genn 1-d arrays")(roundtrip_smt(1, True))

def trained(vc):
    """GENN.train hands the network exactly the stored data in network layout and the declared hyper-parameters"""
    m, nx = vc.dim("m"), 2
    sm = vc.new(GE + "GENN", print_global=False, is_print=False, gamma=Fraction(1, 2), seed=3)
    vc.call(GE + "load_smt_data", sm, vc.arr("xt", m, nx), vc.arr("yt", m, 1), vc.arr("dy", m, nx))
    log = []
    vc.it.stubs["smt.utils.neural_net.model:Model.train"] = lambda it, a, kw: log.append(kw)
    vc.method(sm, "train")
    vc.require(len(log) == 1, "the network is trained once")
    kw = log[0]
    vc.check_arr(kw["X"], (num(nx), m), lambda k, r: app("xt", r, k), "training inputs")
    vc.check_arr(kw["Y"], (ONE, m), lambda k, r: app("yt", r, ZERO), "training outputs")
    vc.check_arr(kw["J"], (ONE, num(nx), m), lambda o, k, r: app("dy", r, k), "training derivatives")
    for k in ("alpha", "beta1", "beta2", "lambd", "gamma", "mini_batch_size", "num_epochs", "num_iterations", "seed"):
        vc.check(eq(S(kw[k]), S(vc.it.getitem(vc.attr(sm, "options"), k))), "option %s reaches the network" % k)
contract("GENN.train hand-over")(trained)
