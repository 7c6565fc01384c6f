"""P10  Optimisation returns the best of truly evaluated points.

The objective is an arbitrary function F of the whole point; the internal search is used by its contract (it returns one point and a flag,
decided separately below); the projection and folding of mixed-integer points are the functions decided by P08."""
import ast
from pyvc.contract import *
contract = Registry()
M = "smt.applications.ego:EGO."
ASSUMPTIONS = ["the objective is a deterministic function of one point, applied row by row; the evaluator is the default one",
    "an internal search that fails ends the iteration: the history then stays valid but grows by fewer points (stated separately)",
    "projection and folding of mixed-integer points are the functions decided by P08 (their contracts are used here); scipy.optimize.minimize returns a result with x, fun and success or raises ValueError"]
def row(x, p, n): k = fresh("k"); return Lam(k, n, x(p, k) if callable(x) else x.get((p, k)))
def F(r): return app("F", r)

class W:
    """one optimisation: options, objective, internal search"""
    def __init__(s, vc, mixint, allok, doe="sampled", ydoe=False):
        s.vc = vc; it = s.it = vc.it; s.nx, s.N, s.q, s.n0, s.n_iter = vc.dim("nx"), vc.dim("N"), vc.dim("q"), vc.dim("n0"), vc.dim("n_iter", 0)
        s.mix = mixint; s.calls = 0
        s.D = lambda p, c: app("doe", p, c)
        s.fold = (lambda x: (lambda p, c: app("fold", c, row(x, p, s.nx)))) if mixint else (lambda x: x)
        s.proj = (lambda x: (lambda p, c: app("proj", c, row(x, p, s.nx)))) if mixint else (lambda x: x)
        s.true = lambda x, p: F(row(s.fold(x), p, s.N if mixint else s.nx))
        s.o = o = vc.obj("smt.applications.ego:EGO")
        if mixint:
            m = Obj(None)
            def tag(f, w):
                def g(it, a, kw):
                    x = it.np.asarr(list(a)[0])
                    if x.ndim == 1: r_ = x; x = mkarr((1, x.shape[0]), lambda i, j: r_.get((j,)))
                    vc.check(eq(x.shape[1], s.nx), "width of the relaxed points"); return mkarr((x.shape[0], w), lambda p, c: f(lambda a_, b_: x.get((a_, b_)))(p, c))
                return g
            m.c["fold_with_enum_index"] = Native(tag(s.fold, s.N), "fold"); m.c["cast_to_discrete_values"] = Native(tag(s.proj, s.nx), "proj")
            s.m = m
        def fun(it_, a, kw):
            x = it.np.asarr(list(a)[0]); vc.require(x.ndim == 2, "points given to the objective are two-dimensional"); vc.check(eq(x.shape[1], s.N if mixint else s.nx), "points given to the objective have the user's dimension")
            return mkarr((x.shape[0], 1), lambda p, c: F(row(x, p, x.shape[1])))
        s.fun = Native(fun, "fun")
        s.ev = vc.new("smt.applications.ego:Evaluator")
        def find(it_, a, kw):
            """contract of the internal search: some point, some flag"""
            s.calls += 1; k = s.calls
            st = vc.it.np.asarr(list(a)[1]), vc.it.np.asarr(list(a)[2]); vc.check(eq(st[0].shape[0], st[1].shape[0]), "internal search: as many points as values")
            ok = True if allok else bool(it.decide(var("ok%d" % k, "B")))
            if not ok: return (mkarr((1, 1), lambda i, j: ZERO, "i"), False)
            return (mkarr((1, s.nx), lambda i, j: app("cand%d" % k, j)), True)
        it.stubs[M + "_find_best_point"] = find
        def virt(it_, a, kw): vc.check(eq(it.np.asarr(list(a)[1]).shape[0], ONE), "virtual value of one point"); return mkarr((1, 1), lambda i, j: vc.real("virtual"))
        it.stubs[M + "_get_virtual_point"] = virt

def pick(outer): return lambda st: any(isinstance(z, ast.For) for b in st.body for z in ast.walk(b)) == outer and (outer or st.target.id == "p")
def run(mixint, allok):
    def f(vc):
        w = W(vc, mixint, allok); it = vc.it; n0, q, nx, o = w.n0, w.q, w.nx, w.o
        Y0 = (lambda p: app("ydoe", p)) if allok else (lambda p: w.true(w.D, p))      # an unsuccessful search may evaluate points of the initial design again
        def setup(it_, a, kw):
            """contract of _setup_optimizer: initial points and their values"""
            o.put("_evaluator", w.ev); o.put("mixint", w.m if mixint else None)
            return (symarr("doe", n0, nx), mkarr((n0, 1), lambda p, c: Y0(p)))
        it.stubs[M + "_setup_optimizer"] = setup
        o.put("options", PyDict({"n_iter": w.n_iter, "n_parallel": q, "enable_tunneling": False, "verbose": False}))
        t, c = vc.int_("t"), vc.int_("c"); vc.assume(le(ZERO, t), le(ZERO, c), lt(c, nx))
        st = {}
        # state of the history: rows of the initial design, further rows H, trusted up to row `good`
        def state(env, H, rows, good):
            X = lambda p, cc: ite(lt(p, n0), w.D(p, cc), app(H, p, cc))
            if mixint: X = lambda p, cc: ite(lt(p, n0), w.D(p, cc), w.proj(lambda a_, b_: app(H, a_, b_))(p, cc))
            env.put("x_data", mkarr((rows, nx), X))
            env.put("y_data", mkarr((rows, 1), lambda p, cc: ite(lt(p, n0), Y0(p), ite(lt(p, good), w.true(lambda a_, b_: app(H, a_, b_) if not mixint else w.proj(lambda a2, b2: app(H, a2, b2))(a_, b_), p), app(H + "y", p)))))
        def check(env, rows, good):
            """an arbitrary row t of the history"""
            x, y = env.c["x_data"], env.c["y_data"]; vc.check_shape(x, (rows, nx), "points"); vc.check_shape(y, (rows, 1), "values"); save = it.ctx
            vc.assume(lt(t, n0)); vc.check_eq(x.get((t, c)), w.D(t, c), "initial design is the prefix (points)"); vc.check_eq(y.get((t, ZERO)), Y0(t), "initial design is the prefix (values)"); it.ctx = save
            vc.assume(le(n0, t), lt(t, good)); vc.check_eq(y.get((t, ZERO)), w.true(lambda a_, b_: x.get((a_, b_)), t), "value of an evaluated point is the objective there"); it.ctx = save
            if mixint:
                for cond, what in ((lt(t, sub(rows, ONE)), "earlier"), (eq(t, sub(rows, ONE)), "latest")):
                    vc.assume(le(n0, t), cond)
                    if not it.ctx.infeasible():
                        z = norm_T(x.get((t, c)), it.ctx); vc.require(z.op == "app" and z.a[0] == "proj" and z.a[1] is norm_T(c, it.ctx), "added points are feasible (%s)" % what)
                    it.ctx = save
        rows_of = (lambda k: add(n0, mul(k, q))) if allok else None
        def inv_outer(env, k):
            if st.pop("assume", 0): return []
            R = rows_of(k) if allok else env.c["x_data"].shape[0]
            out = []
            if not allok: out = [("history keeps the initial design", le(n0, R))]
            check(env, R, R); return out
        def hav_outer(env, k):
            st["assume"] = 1; st["k"] = k
            if allok: R = rows_of(k)
            else: R = vc.int_("R"); vc.assume(le(n0, R))
            st["R"] = R; state(env, "H", R, R)
        def inv_inner(env, p):
            if st.pop("assume", 0): return []
            R = add(st["R"], p); check(env, R, st["R"]); return []
        def hav_inner(env, p):
            st["assume"] = 1; state(env, "G", add(st["R"], p), st["R"])
        z = dict(x_data="R", y_data="R")
        vc.invariant(M + "optimize", inv_outer, havoc={k_: (lambda k: None) for k_ in ("x_data", "y_data")}, extra=hav_outer, match=pick(True))
        vc.invariant(M + "optimize", inv_inner, havoc={k_: (lambda k: None) for k_ in ("x_data", "y_data")}, extra=hav_inner, match=pick(False))
        r = it.iterate(vc.call(vc.attr(o, "optimize"), w.fun))[1]; xo, yo, ib, x, y = r
        R = add(n0, mul(w.n_iter, q)) if allok else x.shape[0]
        vc.check_shape(x, (R, nx), "returned history: points"); vc.check_shape(y, (R, 1), "returned history: values")
        fin = lambda p: y.get((p, ZERO)); ib = S(ib); _, n_ = vc.argmin_def(ib, t); vc.check(eq(n_, R), "search over the whole history")
        vc.check_eq(S(yo), fin(ib), "reported value is that of the reported index")
        save = it.ctx; vc.assume(lt(t, R)); vc.check(le(S(yo), fin(t)), "no value of the history is smaller"); it.ctx = save
        if mixint: vc.forall((w.N,), lambda cc: vc.check_eq(xo.get((cc,)), w.fold(lambda a_, b_: x.get((a_, b_)))(ib, cc), "reported point is the folded point of that index"))
        else: vc.forall((nx,), lambda cc: vc.check_eq(xo.get((cc,)), x.get((ib, cc)), "reported point is that of the reported index"))
    return f
for mix in (False, True):
    for ok in (True, False):
        contract("optimize: %s variables, internal search %s" % ("mixed" if mix else "continuous", "always succeeds: exactly n_parallel points per iteration" if ok else "may fail: history stays valid"), timeout=400)(run(mix, ok))

def start(mixint, xgiven, ygiven):
    def f(vc):
        it = vc.it; nx, N, n, nd = vc.dim("nx"), vc.dim("N"), vc.dim("n"), vc.dim("nd"); log = []
        unfold = lambda x: (lambda p, c: app("unfold", c, row(x, p, N))); fold = lambda x: (lambda p, c: app("fold", c, row(x, p, nx)))
        sm, wrapped = Obj(None), Obj(None); lim = vc.arr("xlimits", N if mixint else nx, 2); xt = PyList(["float_type", "int_type"])
        def sampler(it_, a, kw): log.append(("sample", list(a)[0])); return mkarr((nd, nx), lambda p, c: app("sample", p, c))
        smp = Obj(None); smp.c["__call__"] = Native(sampler, "sampling")
        def ctxt(it_, a, kw):
            a = list(a)[1:]; vc.require(a[0] is xt and a[1] is lim and kw.get("work_in_folded_space") is False, "mixed-integer context of the given specification, in the relaxed space")
            m = Obj(None)
            def b(it__, a_, k): vc.require(list(a_)[0] is sm, "the given surrogate is wrapped"); return wrapped
            m.c["build_surrogate_model"] = Native(b, "build_surrogate_model")
            def bs(it__, a_, k): vc.require(list(a_)[0] is vc.load("smt.sampling_methods.lhs:LHS"), "Latin hypercube start"); vc.require(k.get("random_state") == 7, "random state"); return smp
            m.c["build_sampling_method"] = Native(bs, "build_sampling_method")
            m.c["unfold_with_enum_mask"] = Native(lambda it__, a_, k: (lambda x: mkarr((x.shape[0], nx), unfold(lambda i, j: x.get((i, j)))))(it.np.asarr(list(a_)[0])), "unfold")
            m.c["fold_with_enum_index"] = Native(lambda it__, a_, k: (lambda x: mkarr((x.shape[0], N), fold(lambda i, j: x.get((i, j)))))(it.np.asarr(list(a_)[0])), "fold")
            log.append(("context", m)); return m
        it.stubs["smt.applications.mixed_integer:MixedIntegerContext"] = ctxt
        def lhs(it_, a, kw): vc.require(kw.get("xlimits") is lim and kw.get("random_state") == 7, "sampling over the given limits"); return smp
        it.stubs["smt.sampling_methods.lhs:LHS"] = lhs
        def fun(it_, a, kw):
            x = it.np.asarr(list(a)[0]); vc.require(x.ndim == 2, "points given to the objective are two-dimensional"); vc.check(eq(x.shape[1], N if mixint else nx), "points given to the objective have the user's dimension")
            return mkarr((x.shape[0], 1), lambda p, c: F(row(x, p, x.shape[1])))
        ev = vc.new("smt.applications.ego:Evaluator"); xd = vc.arr("xdoe", n, N if mixint else nx) if xgiven else None; yd = vc.arr("ydoe", n if xgiven else nd, 1) if ygiven else None
        o = vc.obj("smt.applications.ego:EGO"); o.put("options", PyDict({"surrogate": sm, "xlimits": lim, "xtypes": xt if mixint else None, "random_state": 7, "evaluator": ev, "xdoe": xd, "n_doe": nd, "ydoe": yd, "verbose": False}))
        x, y = it.iterate(vc.method(o, "_setup_optimizer", Native(fun, "fun")))[1]
        X0 = (lambda p, c: app("sample", p, c)) if not xgiven else unfold(lambda i, j: app("xdoe", i, j)) if mixint else (lambda p, c: app("xdoe", p, c)); rows = n if xgiven else nd
        vc.check_arr(x, (rows, nx), X0, "initial points: those given, or the sampled ones")
        vc.check_arr(y, (rows, 1), lambda p, c: app("ydoe", p, c) if ygiven else F(row(fold(X0) if mixint else X0, p, N if mixint else nx)), "initial values: those given, or the objective at the initial points")
        vc.require(vc.attr(o, "gpr") is (wrapped if mixint else sm), "surrogate"); vc.require(vc.attr(o, "_sampling") is smp and vc.attr(o, "_evaluator") is ev, "sampling and evaluator")
        vc.require((vc.attr(o, "mixint") is None) == (not mixint), "mixed-integer context")
    return f
for mix in (False, True):
    for xg in (False, True):
        for yg in (False, True): contract("initial design: %s variables, points %s, values %s" % ("mixed" if mix else "continuous", "given" if xg else "sampled", "given" if yg else "evaluated"))(start(mix, xg, yg))

def search(crit, mixint, n_start, n_max):
    """the internal search returns the point of a successful run with the smallest criterion, or reports failure when every run of every attempt fails"""
    def f(vc):
        it = vc.it; nx, n = vc.dim("nx"), vc.dim("n"); g = Obj(None); log = []
        g.c["set_training_values"] = Native(lambda it_, a, kw: log.append(("data", list(a))), "set_training_values"); g.c["train"] = Native(lambda it_, a, kw: log.append(("train",)), "train")
        o = vc.obj("smt.applications.ego:EGO"); xl, ul = vc.arr("xlimits", nx, 2), vc.arr("ulimits", nx, 2); o.put("gpr", g); o.put("xlimits", xl)
        m = None
        if mixint: m = Obj(None); m.c["get_unfolded_xlimits"] = Native(lambda it_, a, kw: ul, "limits")
        o.put("mixint", m); o.put("options", PyDict({"criterion": crit, "n_start": n_start, "n_max_optim": n_max, "verbose": False}))
        smp = Obj(None); ns = [0]
        def sampler(it_, a, kw): ns[0] += 1; k = ns[0]; vc.require(list(a)[0] == n_start, "number of starting points"); return mkarr((n_start, nx), lambda p, c: app("start%d" % k, p, c))
        smp.c["__call__"] = Native(sampler, "sampling"); o.put("_sampling", smp)
        x, y = vc.arr("x", n, nx), vc.arr("y", n, 1)
        for q in ("EI", "SBO", "UCB"):
            def cr(it_, a, kw, q=q):
                a = list(a)[1:]; p = it.np.asarr(a[0]); vc.require(p.ndim == 2, "one point per row")
                if q == "EI": vc.require(a[1] is y and a[2] is tun and a[3] is x, "data of the criterion")
                return mkarr((p.shape[0], 1), lambda i, j: app(q, row(p, i, nx)))
            it.stubs[M + q] = cr
        tun = True; runs = []
        def minimize(it_, a, kw):
            a = list(a); k = len(runs); z = vc.arr("z%d" % k, nx); v = vc.call(a[0], z)
            vc.check_eq(v, mul(-1 if crit == "EI" else 1, app(crit, Lam(*(lambda kk: (kk, nx, app("z%d" % k, kk)))(fresh("k"))))), "the search minimises %s" % {"EI": "minus the expected improvement", "SBO": "the predicted mean", "UCB": "the lower confidence bound"}[crit])
            b = kw.get("bounds"); vc.require(b is (ul if mixint else xl), "search within the limits")
            if it.decide(var("raise%d" % k, "B")): runs.append(None); raise PyRaise(ExcVal("ValueError", ["x0 violates bound constraints"]))
            ok = bool(it.decide(var("ok%d" % k, "B"))); runs.append((ok, vc.real("fun%d" % k)))
            return PyDict({"success": ok, "fun": vc.real("fun%d" % k), "x": vc.arr("opt%d" % k, nx)})
        it.natives["scipy.optimize.minimize"] = minimize
        r, okf = it.iterate(vc.method(o, "_find_best_point", x, y, tun))[1]
        vc.require([e[0] for e in log] == ["data", "train"] and log[0][1][0] is x and log[0][1][1] is y, "trained on the data of the history")
        good = [(k, e[1]) for k, e in enumerate(runs) if e and e[0]]
        vc.require(okf is bool(good), "success reported exactly when a run succeeded")
        if good:
            vc.check_shape(r, (1, nx), "point")
            # the point is that of a successful run whose criterion is smallest among the successful runs
            for k, fk in good:
                save = it.ctx; vc.assume(*[lt(fk, fj) for j, fj in good if j != k])
                if not it.ctx.infeasible(): vc.forall((nx,), lambda c: vc.check_eq(r.get((ZERO, c)), app("opt%d" % k, c), "best successful run"))
                it.ctx = save
        else: vc.require(len(runs) == n_start * n_max, "every attempt is made before failure is reported")
    return f
for cr in ("EI", "SBO", "UCB"): contract("internal search: %s, one attempt of two runs" % cr, maxpaths=100)(search(cr, False, 2, 1))
contract("internal search: mixed variables", maxpaths=100)(search("EI", True, 1, 2))
contract("internal search: two attempts", maxpaths=400, timeout=400)(search("SBO", False, 2, 2))
