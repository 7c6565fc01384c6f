"""P32  A model trained again is the model of its current data and options.

Every contract runs a first, arbitrary training (other sizes) and prediction on the object, gives it new data, trains
again, and then states the same postconditions as for a fresh object."""
from pyvc.contract import *
from contracts import P16, P17, P20
contract = Registry()
ASSUMPTIONS = ["as P16, P17 and P20 for the same functions", "standardization, cross_distances and _optimize_hyperparam by their contracts (P12, P15): functions of their arguments and of the model's options",
    "sklearn's PLSRegression.fit is a function of its arguments"]
def before(pred=True, enough=False, same=False):
    """history: data of other (or the same) sizes, a training, a prediction; then the current data are set"""
    def go(vc, sm, nt, nx, ny):
        n0, x0, y0, q = (nt, nx, ny, vc.dim("q0")) if same else (vc.dim("nt0"), vc.dim("nx0"), vc.dim("ny0"), vc.dim("q0"))
        if enough and not same: vc.assume(le(norm_T(mul(Fraction(1, 2), add(x0, 1), add(x0, 2)), TOP), n0))
        vc.method(sm, "set_training_values", vc.arr("xt0", n0, x0), vc.arr("yt0", n0, y0)); vc.method(sm, "train")
        if pred: vc.method(sm, "predict_values", vc.arr("x0", q, x0))
        vc.method(sm, "set_training_values", vc.arr("xt", nt, nx), vc.arr("yt", nt, ny))
    return go
def idw(what, same):
    def f(vc): vc.again = before(same=same); getattr(P16, what)(vc)
    return f
for same in (False, True):
    w_ = "data of the same sizes" if same else "data of other sizes"
    for w in ("values", "derivs"): contract("IDW trained again, %s: %s" % (w_, w))(idw(w, same))
    for d in (-1, 0, 1): contract("RBF trained again, %s, degree %d" % (w_, d))(P17.train(d, before(pred=False, same=same)))
    contract("QP trained again, %s" % w_)(lambda vc, same=same: P20.qp_train(vc, before(pred=False, enough=True, same=same)))
    contract("LS trained again, %s" % w_)(lambda vc, same=same: P20.ls(vc, before(same=same)))

CLS = {"KRG": "smt.surrogate_models.krg:KRG", "KPLS": "smt.surrogate_models.kpls:KPLS", "KPLSK": "smt.surrogate_models.kplsk:KPLSK"}
def kriging(cls, noise, poly, fail=False, same=False):
    def f(vc):
        it = vc.it; nx = vc.dim("nx", 2); nts = [vc.dim("n0", 5)] * 2 if same else [vc.dim("n%d" % r, 5) for r in range(2)]; K = "smt.utils.kriging_utils:"; pls = cls != "KRG"
        vc.assume(*[lt(add(nx, 1), n) for n in nts])
        o = vc.new(CLS[cls], print_global=False, poly=poly, eval_noise=noise, **({"n_comp": 2} if pls else {})); r = [0]; calls = []
        n_opt = 2 if pls else None
        def cur(a, b, what):
            k = r[0]; vc.check_arr(a, (nts[k], nx), lambda i, c: app("A%d" % k, i, c), "%s: inputs of training %d" % (what, k)); vc.check_arr(b, (nts[k], 1), lambda i, c: app("B%d" % k, i, c), "%s: outputs of training %d" % (what, k))
        def std(it, a, kw):
            k = r[0]; cur(a[0], a[1], "standardised")
            return (vc.arr("xn%d" % k, nts[k], nx), vc.arr("yn%d" % k, nts[k], 1), vc.arr("off%d" % k, nx), vc.arr("ym%d" % k, 1), vc.arr("sc%d" % k, nx), vc.arr("ys%d" % k, 1))
        def cd(it, a, kw):
            k = r[0]; vc.check_arr(a[0], (nts[k], nx), lambda i, c: app("xn%d" % k, i, c), "distances of the scaled inputs of training %d" % k)
            m = norm_T(mul(Fraction(1, 2), nts[k], sub(nts[k], 1)), it.ctx); return (vc.arr("D%d" % k, m, nx), vc.arr("ij%d" % k, m, 2, s="I"))
        def fit(it, a, kw):
            k = r[0]; g = lambda n: vc.attr(o, n); calls.append(k); m = norm_T(mul(Fraction(1, 2), nts[k], sub(nts[k], 1)), it.ctx)
            vc.check_arr(a[-1], (m, nx), lambda i, c: app("D%d" % k, i, c), "search on the distances of training %d" % k)
            vc.check_arr(g("ij"), (m, 2), lambda i, c: app("ij%d" % k, i, c, s="I"), "index pairs of training %d" % k)
            vc.check_arr(g("X_norma"), (nts[k], nx), lambda i, c: app("xn%d" % k, i, c), "scaled inputs of training %d" % k); vc.check_arr(g("y_norma"), (nts[k], 1), lambda i, c: app("yn%d" % k, i, c), "scaled outputs of training %d" % k)
            p = ONE if poly == "constant" else norm_T(add(nx, 1), it.ctx)
            vc.check_arr(g("F"), (nts[k], p), lambda i, l: ONE if poly == "constant" else ite(eq(l, ZERO), ONE, app("xn%d" % k, i, sub(l, 1))), "regression matrix of training %d" % k)
            vc.check(eq(S(g("nt")), nts[k]), "number of points of training %d" % k); vc.check(eq(S(g("nx")), nx), "number of inputs of training %d" % k)
            if pls: vc.check_arr(g("coeff_pls"), (nx, 2), lambda i, c: app("w%d" % k, i, c), "projection of training %d" % k)
            opts("when the search of training %d starts" % k)
            d = num(2) if cls == "KPLS" else nx; opt = vc.attr(o, "options")
            if cls == "KPLSK":   # the search ends in the original space and leaves its own settings behind
                it.setitem(opt, "n_comp", 77); it.setitem(opt, "theta0", vc.arr("left%d" % k, nx))
                if fail and k == 0: raise PyRaise(ExcVal("ValueError", ["ill-conditioned"]))
            e = add(d, 1) if noise else d
            return (vc.real("rlf%d" % k), PyDict({"run": k}), vc.arr("th%d" % k, norm_T(e, it.ctx)))
        def opts(when):
            q = vc.attr(o, "options"); t = it.getitem(q, "theta0"); d = num(2) if pls else nx
            if pls: vc.check(eq(S(it.getitem(q, "n_comp")), num(2)), "n_comp is the user's %s" % when)
            ta = it.np.asarr(t); th = lambda i: vc.check_eq(ta.get((i,)), num(Fraction(1, 100)), "theta0 is the user's %s" % when); vc.forall((ta.shape[0],), th)
            vc.check(or_(eq(ta.shape[0], ONE), eq(ta.shape[0], d)), "one start value, or one per parameter, %s" % when)
        def plsr(it, a, kw):
            vc.require(a and a[0] == 2 or kw.get("n_components") == 2, "the configured number of components")
            def pf(it, a, kw): k = r[0]; cur(a[-2], a[-1], "projection"); z = Obj(None); z.c["x_rotations_"] = vc.arr("w%d" % k, nx, 2); return z
            p = Obj(None); p.c["fit"] = Native(pf, "fit"); return p
        it.natives["sklearn.cross_decomposition.PLSRegression"] = plsr
        it.stubs[K + "standardization"] = std; it.stubs[K + "cross_distances"] = cd; it.stubs["smt.surrogate_models.krg_based:KrgBased._optimize_hyperparam"] = fit
        it.setitem(vc.attr(o, "options"), "theta0", PyList([Fraction(1, 100)]))
        for k in range(2):
            r[0] = k; A, B = vc.arr("A%d" % k, nts[k], nx), vc.arr("B%d" % k, nts[k], 1)
            vc.method(o, "set_training_values", A, B)
            if fail and k == 0:
                e, _ = vc.raises(lambda: vc.method(o, "train")); vc.require(e is not None, "the failure of the search is reported")
            else: vc.method(o, "train")
            opts("after training %d" % k)
            vc.check_arr(A, (nts[k], nx), lambda i, c: app("A%d" % k, i, c), "frame: inputs"); vc.check_arr(B, (nts[k], 1), lambda i, c: app("B%d" % k, i, c), "frame: outputs")
        vc.require(calls == [0, 1], "one search per training"); g = lambda n: vc.attr(o, n); d = num(2) if cls == "KPLS" else nx
        vc.check_eq(S(g("optimal_rlf_value")), S(vc.real("rlf1")), "likelihood of the last training"); vc.require(g("optimal_par").d["run"] == 1, "factors of the last training")
        vc.check_arr(g("optimal_theta"), (d,), lambda i: app("th1", i), "parameters of the last training")
        for n, w in (("X_offset", "off1"), ("X_scale", "sc1")): vc.check_arr(g(n), (nx,), lambda i: app(w, i), "%s of the last training" % n)
        for n, w in (("y_mean", "ym1"), ("y_std", "ys1")): vc.check_arr(g(n), (1,), lambda i: app(w, i), "%s of the last training" % n)
        if noise: vc.check_eq(S(g("optimal_noise")), app("th1", d), "noise of the last training")
    return f
for cls in CLS:
    for poly in ("constant", "linear"):
        for noise in (False, True): contract("%s trained again, %s trend%s" % (cls, poly, ", evaluated noise" if noise else ""))(kriging(cls, noise, poly))
contract("KPLSK trained again after a failed training")(kriging("KPLSK", False, "constant", True))
for cls in CLS: contract("%s trained again, as many points" % cls)(kriging(cls, False, "linear", same=True))
