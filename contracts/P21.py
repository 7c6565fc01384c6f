"""P21  Variable-fidelity bridges combine predictions correctly.

The two surrogates are arbitrary: their predictions and derivatives are arbitrary functions of the whole point, chosen when they are trained."""
import ast
from pyvc.contract import *
contract = Registry()
M = "smt.applications.vfm:VFM."
ASSUMPTIONS = ["a trained surrogate predicts by a function of the point, one column per output, and its derivative calls return the partial derivatives of that function (decided per model by P04-P20 and P13)"]
def row(x, p, n): k = fresh("k"); return Lam(k, n, x.get((p, k)))
def V(w, r, o): return app("V" + w, r, o)
def DV(w, r, k, o): return app("D" + w, r, k, o)

class Sub:
    """a surrogate class with uninterpreted predictions"""
    def __init__(s, vc, w, nx, ny, derivs=True):
        s.vc, s.w, s.nx, s.ny, s.built, s.values, s.dvals, s.trained, s.derivs = vc, w, nx, ny, [], [], [], False, derivs
        s.cls = Native(s.make, w)
    def make(s, it, a, kw):
        s.vc.require(not list(a), "options by keyword"); s.built.append(dict(kw)); o = Obj(None); vc = s.vc
        def values(it, a, kw): a = list(a); s.values.append(tuple(a)); 
        def dv(it, a, kw):
            if it.merging: raise MergeFail("training derivatives")
            s.dvals.append(tuple(list(a)))
        def train(it, a, kw):
            vc.require(s.values, "trained after the data are set"); s.trained = True
        def pv(it, a, kw): return s.pred(it, list(a), kw, False)
        def pd(it, a, kw): return s.pred(it, list(a), kw, True)
        o.c.update(options=PyDict({}), nx=s.nx, ny=s.ny, supports=PyDict({"derivatives": s.derivs}), set_training_values=Native(values, "values"), set_training_derivatives=Native(dv, "dv"), train=Native(train, "train"),
                   predict_values=Native(pv, "pv"), predict_derivatives=Native(pd, "pd"))
        s.o = o; return o
    def pred(s, it, a, kw, d):
        vc = s.vc; vc.require(s.trained, "predictions of the trained model"); x = it.np.asarr(a[0] if a else kw["x"]); vc.require(x.ndim == 2, "points are two-dimensional"); vc.check(eq(x.shape[1], num(s.nx)), "width of the points")
        if not d: return mkarr((x.shape[0], s.ny), lambda p, o: V(s.w, row(x, p, x.shape[1]), o))
        vc.require(s.derivs, "derivatives of a model that has them"); k = num(a[1] if len(a) > 1 else kw["kx"]); vc.check(and_(le(ZERO, k), lt(k, num(s.nx))), "direction of the derivative")
        return mkarr((x.shape[0], s.ny), lambda p, o: DV(s.w, row(x, p, x.shape[1]), k, o))

def bridge(kind, ny1, lf, br, derivs=True):
    def f(vc):
        nx, nl, nh, n = vc.dim("nx"), vc.dim("nl"), vc.dim("nh"), vc.dim("n"); ny = ONE if ny1 else vc.dim("ny")
        A, B = Sub(vc, "L", nx, ny, derivs), Sub(vc, "B", nx, ny, derivs)
        XL, YL, XH, YH, DL, DH = vc.arr("XL", nl, nx), vc.arr("YL", nl, ny), vc.arr("XH", nh, nx), vc.arr("YH", nh, ny), vc.arr("DL", nl, nx), vc.arr("DH", nh, nx)
        data = [XL, YL, XH, YH, DL, DH]; keep = [vc.snapshot(d) for d in data]
        oL, oB = PyDict({"option": vc.real("aL")}), PyDict({"other": vc.real("aB")})
        if lf is not None: oL.d["deriv"] = lf
        if br is not None: oB.d["deriv"] = br
        kL, kB = dict(oL.d), dict(oB.d)
        kw = dict(type_bridge=kind, name_model_LF=A.cls, name_model_bridge=B.cls, X_LF=XL, y_LF=YL, X_HF=XH, y_HF=YH, options_LF=oL, options_bridge=oB)
        if lf: kw["dy_LF"] = DL
        if br: kw["dy_HF"] = DH
        o = vc.new("smt.applications.vfm:VFM", **kw)
        mul_ = kind == "Multiplicative"; X = lambda x, p: row(x, p, nx)
        # training derivatives: one call per direction (checked for an arbitrary direction)
        loops, last = [0], []
        def inv(env, k):
            for S_, pts, ref, what in ((A, keep[0], lambda p, k: keep[4].get((p, k)), "low-fidelity training derivatives"), (B, keep[2], dref, "bridge training derivatives")):
                c = S_.dvals[:]; S_.dvals.clear()
                for a in c:
                    kk = num(a[2]); vc.check_eq(add(kk, 1), k, "%s: direction of the iteration" % what); vc.check_arr(a[0], pts.shape, lambda i, j: pts.get((i, j)), "%s: points" % what)
                    y = a[1]; q = (nl if S_ is A else nh); vc.require(y.ndim in (1, 2), "%s: shape" % what); vc.check_eq(y.shape[0], q, "%s: rows" % what)
                    vc.forall((q,), lambda p: vc.check_eq(y.get((p,) + (ZERO,) * (y.ndim - 1)), ref(p, kk), "%s: derivatives of the combination" % what))
                if c: vc.require(len(c) == 1, "%s: one call per direction" % what)
            return [("direction within the inputs", le(k, nx))]
        def reached(env, k): loops[0] += 1; last.append(k)
        called = reaching("smt.applications.vfm", "set_training_derivatives")
        def has(st): return isinstance(st, ast.For) and any(called(z) for b in st.body for z in ast.walk(b))
        def dref(p, k):
            r = row(keep[2], p, nx)
            if not mul_: return sub(keep[5].get((p, k)), DV("L", r, k, ZERO))
            return mul(sub(mul(keep[5].get((p, k)), V("L", r, ZERO)), mul(keep[3].get((p, ZERO)), DV("L", r, k, ZERO))), power(V("L", r, ZERO), -2))
        vc.invariant(M + "_apply", inv, extra=reached, match=has)
        x = vc.arr("x", n, nx); kx_ = vc.snapshot(x)
        y = vc.method(o, "predict_values", x)
        for S_ in (A, B): vc.require(len(S_.built) == 1 and len(S_.values) == 1 and S_.trained, "each model is built, given its data and trained once")
        if loops[0] != bool(lf) + bool(br) and (A.dvals or B.dvals): raise Unsupported("training derivatives set outside a loop over the directions")
        vc.require(loops[0] == bool(lf) + bool(br), "derivatives are set for exactly the models asked for")
        for k in last: vc.check_eq(k, nx, "derivatives are set in every direction")
        vc.require(set(A.built[0]) == {"option"} and A.built[0]["option"] is kL["option"] and set(B.built[0]) == {"other"} and B.built[0]["other"] is kB["other"], "options of the models")
        (xl, yl), (xh, yh) = A.values[0], B.values[0]
        vc.check_arr(xl, (nl, nx), lambda i, j: keep[0].get((i, j)), "low-fidelity points"); vc.check_arr(yl, (nl, ny), lambda i, j: keep[1].get((i, j)), "low-fidelity values")
        vc.check_arr(xh, (nh, nx), lambda i, j: keep[2].get((i, j)), "high-fidelity points")
        vc.check_arr(yh, (nh, ny), lambda p, c: mul(keep[3].get((p, c)), power(V("L", X(keep[2], p), c), -1)) if mul_ else sub(keep[3].get((p, c)), V("L", X(keep[2], p), c)), "bridge data")
        comb = lambda r, c: mul(V("B", r, c), V("L", r, c)) if mul_ else add(V("B", r, c), V("L", r, c))
        vc.check_arr(y, (n, ny), lambda p, c: comb(X(kx_, p), c), "combined prediction")
        def dcomb(r, k, c):
            if mul_: return add(mul(DV("B", r, k, c), V("L", r, c)), mul(V("B", r, c), DV("L", r, k, c)))
            return add(DV("B", r, k, c), DV("L", r, k, c))
        if derivs:
            k = vc.int_("kx"); vc.assume(le(ZERO, k), lt(k, nx)); d = vc.method(o, "predict_derivatives", x, k)
            vc.check_arr(d, (n, ny), lambda p, c: dcomb(X(kx_, p), k, c), "derivative of the combination")
            if ny1:
                d = vc.method(o, "predict_derivatives", x, None); vc.check_arr(d, (n, nx), lambda p, q: dcomb(X(kx_, p), q, ZERO), "all derivatives of the combination")
        y = vc.method(o, "predict_values", x); vc.require(len(A.built) == 1, "trained once"); vc.check_arr(y, (n, ny), lambda p, c: comb(X(kx_, p), c), "same prediction again")
        vc.require(oL.d == kL and oB.d == kB, "the user's option dictionaries are unchanged")
        for d, q, nm in zip(data, keep, ("X_LF", "y_LF", "X_HF", "y_HF", "dy_LF", "dy_HF")): vc.check_arr(d, tuple(q.shape), lambda i, j: q.get((i, j)), "frame: " + nm)
        vc.check_arr(x, (n, nx), lambda i, j: kx_.get((i, j)), "frame: points")
    return f
for kind in ("Additive", "Multiplicative"):
    for ny1, lf, br in ((False, None, None), (False, False, False), (True, True, None), (True, None, True), (True, True, True), (True, False, True)):
        contract("VFM %s, %s, LF derivatives %s, bridge derivatives %s" % (kind, "one output" if ny1 else "any number of outputs", lf, br))(bridge(kind, ny1, lf, br))
    contract("VFM %s, models without derivatives" % kind)(bridge(kind, False, None, None, False))

def names(vc):
    """every documented model name stands for the model of that name; others are rejected"""
    N = ("KRG", "LS", "QP", "KPLS", "KPLSK", "GEKPLS", "RBF", "RMTC", "RMTB", "IDW")
    for a in N:
        b = N[(N.index(a) + 3) % len(N)]; o = vc.new("smt.applications.vfm:VFM", name_model_LF=a, name_model_bridge=b); vc.method(o, "_check_param"); opt = vc.attr(o, "options")
        A, B = vc.it.getitem(opt, "name_model_LF"), vc.it.getitem(opt, "name_model_bridge")
        vc.require(getattr(A, "name", None) == a and getattr(B, "name", None) == b, "models named %s and %s" % (a, b))
contract("VFM: model names")(names)

def missing(gone):
    def f(vc):
        n, nx = vc.dim("n"), vc.dim("nx"); kw = {k: vc.arr(k, n, nx if k[0] == "X" else 1) for k in ("X_LF", "y_LF", "X_HF", "y_HF") if k != gone}
        A, B = Sub(vc, "L", nx, ONE), Sub(vc, "B", nx, ONE); o = vc.new("smt.applications.vfm:VFM", name_model_LF=A.cls, name_model_bridge=B.cls, **kw)
        e, _ = vc.raises(lambda: vc.method(o, "predict_values", vc.arr("x", n, nx))); vc.require(e is not None, "rejected without %s" % gone)
    return f
for g in ("X_LF", "y_LF", "X_HF", "y_HF"): contract("VFM rejects missing %s" % g)(missing(g))
