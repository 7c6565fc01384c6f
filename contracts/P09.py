"""P09  A mixed-integer model sees only projected points."""
from pyvc.contract import *
contract = Registry()
ASSUMPTIONS = ["the wrapped model is any object following the surrogate-model interface; its prediction is an arbitrary function of the points it is given",
    "expansion, folding and projection are the functions decided by P08 (their contracts are used here, not their bodies)", "the wrapped sampling method returns points with one column per relaxed dimension (decided by P04, P06)"]
M = "smt.applications.mixed_integer:"
def row(x, p, n):
    """the row as one object: any function of the whole row"""
    k = fresh("k"); return Lam(k, n, x.get((p, k)) if isinstance(x, Arr) else x(p, k))
def NAT(name, f): return Native(f, name)
def setup(vc, folded):
    """stubs by the contracts of P08: expansion and projection act row by row"""
    it = vc.it; N, D = vc.dim("N"), vc.dim("D"); T, X = PyList(["float_type"]), PyList([PyList([0, 1])])
    it.stubs[M + "check_xspec_consistency"] = lambda it, a, kw: vc.require(a[0] is T and a[1] is X, "specification checked")
    def expand(it, a, kw):
        t, x = args(a, kw); vc.require(t is T, "own types"); x = it.np.asarr(x); tag(x, N); return mkarr((x.shape[0], D), lambda p, c: app("expand", c, row(x, p, N)))
    def project(it, a, kw):
        t, x = args(a, kw); vc.require(t is T, "own types"); x = it.np.asarr(x); tag(x, D); return mkarr((x.shape[0], D), lambda p, c: app("project", c, row(x, p, D)))
    def fold(it, a, kw):
        t, x = args(a, kw); vc.require(t is T, "own types"); x = it.np.asarr(x); tag(x, D); return mkarr((x.shape[0], N), lambda p, c: app("fold", c, row(x, p, D)))
    def args(a, kw): a = list(a); return a[0] if a else kw["xtypes"], a[1] if len(a) > 1 else kw["x"]
    def tag(x, w): vc.require(x.ndim == 2, "two-dimensional points"); vc.check(eq(x.shape[1], w), "width of the points")
    it.stubs[M + "unfold_with_enum_mask"] = expand; it.stubs[M + "cast_to_discrete_values"] = project; it.stubs[M + "fold_with_enum_index"] = fold
    E = lambda x: (lambda p, c: app("expand", c, row(x, p, N)))
    P = lambda x: (lambda p, c: app("project", c, row(x, p, D)))
    Fd = lambda x: (lambda p, c: app("fold", c, row(x, p, D)))
    return N, D, T, X, E, P, Fd
def wrapped(vc, log, name="KRG"):
    it = vc.it; s = Obj(None); ny = vc.dim("ny")
    def rec(q):
        def f(it, a, kw): log.append((q, list(a), dict(kw.items()))); return None
        return NAT(q, f) 
    for q in ("set_training_values", "update_training_values", "_train", "train"): s.c[q] = rec(q)
    for q in ("predict_values", "predict_variances"):
        def f(it, a, kw, q=q):
            x = it.np.asarr(list(a)[0]); log.append((q, [x], {})); return mkarr((x.shape[0], ny), lambda p, c: app(q, c, row(x, p, x.shape[1])))
        s.c[q] = NAT(q, f)
    s.c["supports"] = PyDict({"derivatives": True, "variances": True, "training_derivatives": True}); s.c["name"] = name
    return s, ny
def model(folded):
    def f(vc):
        it = vc.it; N, D, T, X, E, P, Fd = setup(vc, folded); log = []; s, ny = wrapped(vc, log); W = N if folded else D
        o = vc.new(M + "MixedIntegerSurrogateModel", T, X, s, folded)
        vc.require(vc.attr(o, "name") == "MixedIntegerKRG", "name")
        for name in (None, 2):
            n = vc.dim("n"); x, y = vc.arr("xt", n, W), vc.arr("yt", n, ny); del log[:]
            vc.method(o, "set_training_values", x, y, *(() if name is None else (name,)))
            vc.require([q for q, *_ in log] == ["set_training_values"], "training data reach the wrapped model once")
            _, a, kw = log[0]; a = a + [kw[k] for k in ("xt", "yt", "name")[len(a):] if k in kw]
            want = E(lambda p, c: app("xt", p, c)) if folded else (lambda p, c: app("xt", p, c))
            vc.check_arr(a[0], (n, D), want, "training inputs of the wrapped model are the expansion of the given ones")
            vc.check_arr(a[1], (n, ny), lambda p, c: app("yt", p, c), "training outputs"); vc.require((a[2] if len(a) > 2 else None) == name, "name of the training data")
            pts = it.getitem(it.getattr(o, "training_points"), name); vc.check_arr(it.getitem(it.getitem(pts, 0), 0), (n, D), want, "own training inputs"); vc.check_arr(it.getitem(it.getitem(pts, 0), 1), (n, ny), lambda p, c: app("yt", p, c), "own training outputs")
            vc.check_arr(x, (n, W), lambda p, c: app("xt", p, c), "given inputs not modified")
            del log[:]; y2 = vc.arr("y2", n, ny); vc.method(o, "update_training_values", y2, name)
            vc.require([q for q, *_ in log] == ["update_training_values"] and log[0][1][0] is y2, "updated outputs reach the wrapped model"); _, a, kw = log[0]
            vc.require((a[1] if len(a) > 1 else kw.get("name")) == name, "name of the updated data")
            vc.check_arr(it.getitem(it.getitem(pts, 0), 1), (n, ny), lambda p, c: app("y2", p, c), "own outputs updated")
        del log[:]; vc.method(o, "_train"); vc.require([q for q, *_ in log] == ["_train"], "training trains the wrapped model")
        m = vc.dim("m"); z = vc.arr("z", m, W); e = E(lambda p, c: app("z", p, c)) if folded else (lambda p, c: app("z", p, c)); pe = P(e)
        for q in ("predict_values", "predict_variances"):
            r = vc.method(o, q, z)
            vc.check_arr(r, (m, ny), lambda p, c: app(q, c, row(pe, p, D)), "%s is the wrapped one at the projection" % q)
        vc.check_arr(z, (m, W), lambda p, c: app("z", p, c), "prediction points not modified")
    return f
def sampling(folded):
    def f(vc):
        it = vc.it; N, D, T, X, E, P, Fd = setup(vc, folded); U = vc.arr("U", D, 2); log = []
        it.stubs[M + "unfold_xlimits_with_continuous_limits"] = lambda it, a, kw: U
        def call(it, a, kw): n = S(list(a)[0]); return mkarr((n, D), lambda p, c: app("doe", p, c))
        def make(it, a, kw): log.append((list(a), dict(kw.items()))); return NAT("sampling", call)
        kw = {"criterion": "ese"}
        if folded is not None: kw["output_in_folded_space"] = folded
        o = vc.call(M + "MixedIntegerSamplingMethod", T, X, NAT("Sampling", make), **kw)
        a, k = log[0]; vc.require(not a and k.get("xlimits") is U and k.get("criterion") == "ese" and set(k) == {"xlimits", "criterion"}, "wrapped sampling: relaxed limits and the given options")
        n = vc.dim("n"); r = vc.call(it.getattr(o, "__call__"), n); p = P(lambda p, c: app("doe", p, c))
        if folded is not False: vc.check_arr(r, (n, N), Fd(p), "folded projection of the sample")
        else: vc.check_arr(r, (n, D), p, "projection of the sample")
    return f
for f in (True, False):
    contract("MixedIntegerSurrogateModel, inputs %s" % ("folded" if f else "expanded"))(model(f))
for f in (None, True, False): contract("MixedIntegerSamplingMethod, output %s" % {None: "default", True: "folded", False: "expanded"}[f])(sampling(f))
@contract("MixedIntegerContext builds consistent models and samplings")
def _(vc):
    it = vc.it; N, D, T, X, E, P, Fd = setup(vc, True); U = vc.arr("U", D, 2); s, ny = wrapped(vc, [])
    it.stubs[M + "unfold_xlimits_with_continuous_limits"] = lambda it, a, kw: U
    for w in (None, True, False):
        o = vc.call(M + "MixedIntegerContext", T, X, *(() if w is None else (w,))); want = w is not False
        sm = vc.method(o, "build_surrogate_model", s)
        vc.require(vc.attr(sm, "_surrogate") is s and vc.attr(sm, "_xtypes") is T and vc.attr(sm, "_xlimits") is X and vc.attr(sm, "_input_in_folded_space") is want, "model uses the specification and the encoding of the context")
        made = []; cls = NAT("Sampling", lambda it, a, kw: (made.append(dict(kw.items())), Obj(None))[1])
        d = vc.method(o, "build_sampling_method", cls, criterion="ese")
        vc.require(vc.attr(d, "_xtypes") is T and vc.attr(d, "_output_in_folded_space") is want and made[0].get("xlimits") is U and made[0].get("criterion") == "ese", "sampling uses the specification and the encoding of the context")
