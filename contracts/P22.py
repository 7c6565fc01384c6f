"""P22  Mixture of experts: memberships, recombination, split of the data, choice of the experts.

The experts are arbitrary trained surrogates (arbitrary functions of the whole point), the number of clusters, of points and of inputs is symbolic."""
from pyvc.contract import *
contract = Registry()
M = "smt.applications.moe:MOE."
ASSUMPTIONS = ["a trained expert predicts by a function of the point (decided per model by P04-P15)",
               "scipy.stats.multivariate_normal(mean, cov).pdf / .logpdf is a positive function of the point and its logarithm; sklearn's GaussianMixture has positive weights_ summing to one, and predict returns labels in 0..n_components-1",
               "scikit-learn >= 0.20 (the installed one has no sklearn.mixture.GMM)"]

def new(vc, **kw):
    vc.it.stubs[M + "_get_enabled_expert_types"] = lambda it, a, k: PyDict({})
    o = vc.new("smt.applications.moe:MOE", **kw)
    del vc.it.stubs[M + "_get_enabled_expert_types"]
    return o
def row(x, p, n): k = fresh("k"); return Lam(k, n, x.get((p, k)))
def point(vc, it, x, nx):
    x = it.np.asarr(x); vc.require(x.ndim == 2, "an expert is asked for two-dimensional points"); vc.check(eq(x.shape[1], num(nx)), "width of the points")
    return x
def EV(w, j, r, o): return app("E" + w, j, r, o)
def experts(vc, K, nx, ny):
    def at(j):
        o = Obj(None)
        def pr(w):
            def f(it, a, kw):
                a = list(a); x = point(vc, it, a[0] if a else kw["x"], nx)
                return mkarr((x.shape[0], ny), lambda p, c: EV(w, j, row(x, p, nx), c))
            return Native(f, w)
        o.c.update(predict_values=pr("V"), predict_variances=pr("S"), supports=PyDict({"variances": True, "derivatives": True}))
        return o
    l = PyList([]); l.c["items"] = SymSeq(K, lambda j: at(num(j))); return l
def LP(h, k, r): return app("logpdf" + h, k, r)
def pdf(h, k, r): return power(EULER, LP(h, k, r))
def dists(vc, K, nx, h=""):
    def at(j):
        o = Obj(None)
        def pr(log):
            def f(it, a, kw):
                x = it.np.asarr(list(a)[0])
                if x.ndim == 2: vc.check(eq(x.shape[0], ONE), "one point at a time"); r = row(x, ZERO, nx)
                else: vc.require(x.ndim == 1, "a point"); k = fresh("k"); r = Lam(k, nx, x.get((k,)))
                vc.check(eq(x.shape[-1], num(nx)), "width of the point")
                return LP(h, j, r) if log else pdf(h, j, r)
            return Native(f, "pdf")
        o.c.update(pdf=pr(False), logpdf=pr(True)); return o
    l = PyList([]); l.c["items"] = SymSeq(K, lambda j: at(num(j))); return l
def gmm(vc, K):
    o = Obj(None); o.c["weights_"] = vc.arr("w", K); vc.positive("w"); return o
def state(vc, many=True, **kw):
    K = vc.dim("K", 2) if many else ONE
    nx, ny, n = vc.dim("nx"), vc.dim("ny"), vc.dim("n")
    m = new(vc, **kw)
    m.c.update(n_clusters=K, _experts=experts(vc, K, nx, ny), cluster=gmm(vc, K), distribs=dists(vc, K, nx), ndim=nx, smooth_recombination=kw.get("smooth_recombination", True))
    return m, K, nx, ny, n
W = lambda k: app("w", k)

def member(given):
    """memberships of arbitrary points: posterior probabilities of the clusters"""
    def f(vc):
        m, K, nx, ny, n = state(vc)
        x = vc.arr("x", n, nx); kx = vc.snapshot(x)
        h = "D" if given else ""
        p = vc.method(m, "_proba_cluster", x, dists(vc, K, nx, "D")) if given else vc.method(m, "_proba_cluster", x)
        if not vc.check_shape(p, (n, K), "memberships"): return
        q = fresh("q"); k = fresh("k"); j = fresh("j")
        def body(q):
            r = row(kx, q, nx)
            tot = Sum(j, K, mul(W(j), pdf(h, j, r)))
            vc.check_eq(Sum(k, K, p.get((q, k))), ONE, "memberships sum to one")
        vc.forall((n,), body)
        def each(q, k):
            r = row(kx, q, nx)
            vc.check(le(ZERO, p.get((q, k))), "memberships are nonnegative")
            vc.check_eq(p.get((q, k)), mul(W(k), pdf(h, k, r), power(Sum(j, K, mul(W(j), pdf(h, j, r))), -1)), "membership: weighted density over the sum of the weighted densities")
        vc.forall((n, K), each)
        vc.check_arr(x, (n, nx), lambda i, c: kx.get((i, c)), "frame: points")
    return f
contract("_proba_cluster")(member(False))
contract("_proba_cluster with given distributions")(member(True))
@contract("_proba_cluster, one cluster")
def _(vc):
    m, K, nx, ny, n = state(vc, many=False)
    p = vc.method(m, "_proba_cluster", vc.arr("x", n, nx))
    vc.check_arr(p, (n, 1), lambda i, k: ONE, "membership of the only cluster")

def probs(vc, m, K, n, nx):
    """contract of _proba_cluster used by its callers: memberships of each point"""
    def st(it, a, kw):
        a = list(a); x = it.np.asarr(a[1] if len(a) > 1 else kw["x"]); d = a[2] if len(a) > 2 else kw.get("distribs")
        vc.require(d is None or d is m.c["distribs"] or getattr(d, "c", {}).get("own"), "distributions of the mixture"); vc.require(x.ndim == 2, "points"); vc.check(eq(x.shape[1], num(nx)), "width")
        return mkarr((x.shape[0], K), lambda p, k: app("P", row(x, p, nx), k))
    vc.it.stubs[M + "_proba_cluster"] = st
def P(r, k): return app("P", r, k)

def smooth(what, direct, many):
    def f(vc):
        m, K, nx, ny, n = state(vc, many, variances_support=True); probs(vc, m, K, n, nx)
        x = vc.arr("x", n, nx); kx = vc.snapshot(x); var_ = what == "S"
        if direct: y = vc.method(m, "_predict_smooth_output", x, output_variances=var_)
        else: y = vc.method(m, "predict_variances" if var_ else "predict_values", x)
        j = fresh("j")
        def ref(p, o):
            r = row(kx, p, nx)
            t = lambda j: mul(power(P(r, j), 2) if var_ else P(r, j), EV(what, j, r, o))
            return Sum(j, K, t(j)) if many else t(ZERO)
        vc.check_arr(y, (n, ny), ref, "variance: sum of squared memberships times the experts' variances" if var_ else "prediction: sum of memberships times the experts' predictions")
        vc.check_arr(x, (n, nx), lambda i, c: kx.get((i, c)), "frame: points")
    return f
def hard(what, direct, many):
    def f(vc):
        m, K, nx, ny, n = state(vc, many, variances_support=True, smooth_recombination=False); probs(vc, m, K, n, nx)
        x = vc.arr("x", n, nx); kx = vc.snapshot(x); var_ = what == "S"
        if direct: y = vc.method(m, "_predict_hard_output", x, output_variances=var_)
        else: y = vc.method(m, "predict_variances" if var_ else "predict_values", x)
        if not vc.check_shape(y, (n, ny), "prediction"): return
        def one(p, o):
            r = row(kx, p, nx)
            if not many: return vc.check_eq(y.get((p, o)), EV(what, ZERO, r, o), "prediction of the only expert")
            k = fresh("k"); a = norm_T(binder("argmax*", k, K, P(r, k)), vc.it.ctx)
            vc.check_eq(y.get((p, o)), EV(what, a, r, o), "prediction of the expert with the largest membership")
        vc.forall((n, ny), one)
        vc.check_arr(x, (n, nx), lambda i, c: kx.get((i, c)), "frame: points")
    return f
for what, nm_ in (("V", "values"), ("S", "variances")):
    for many in (True, False):
        for d in (True, False):
            contract("smooth %s%s%s" % (nm_, "" if many else ", one cluster", " (_predict_smooth_output)" if d else ""))(smooth(what, d, many))
            contract("hard %s%s%s" % (nm_, "" if many else ", one cluster", " (_predict_hard_output)" if d else ""))(hard(what, d, many))
@contract("variances are refused when the experts were not chosen for them")
def _(vc):
    for s in (True, False):
        m, K, nx, ny, n = state(vc, smooth_recombination=s); probs(vc, m, K, n, nx)
        e, _ = vc.raises(lambda: vc.method(m, "predict_variances", vc.arr("x", n, nx)))
        vc.require(e is not None, "rejected")

@contract("_extract_part: a partition of the rows")
def _(vc):
    n, d, q = vc.dim("n"), vc.dim("d"), vc.dim("q")
    v = vc.arr("v", n, d); kv = vc.snapshot(v)
    r = vc.call(M[:-1] + "._extract_part", v, q) if False else vc.it.call(vc.attr(vc.load("smt.applications.moe:MOE"), "_extract_part"), [v, q])
    a, b = vc.it.seq_of(r)
    partition(vc, a, b, kv, n, d)
def partition(vc, a, b, kv, n, d):
    """a and b are the rows of v selected by complementary conditions"""
    masks = []
    for r, w in ((a, "extracted"), (b, "remaining")):
        if not (isinstance(r, Arr) and r.ndim == 2 and r.shape[0].op == "app" and r.shape[0].a[0] == "count!"): vc.fail(w + " rows: a selection of the rows"); return
        L = r.shape[0].a[1]; masks.append(L)
        vc.check_eq(L.a[0][0][1], n, "selection among all rows")
        vc.check_arr(r, (app("count!", L, s="I"), d), lambda i, c: kv.get((app("nth!", L, i, s="I"), c)), w + " rows: rows of the data, whole")
    at = lambda L, k: subst(L.a[1], {L.a[0][0][0]: k})
    vc.forall((n,), lambda k: vc.check(and_(or_(at(masks[0], k), at(masks[1], k)), not_(and_(at(masks[0], k), at(masks[1], k)))), "each row is in exactly one part"))

# ---------------------------------------------------------------- training
@contract("_create_clusters_distributions: marginals of the mixture, scaled")
def _(vc):
    m, K, nx, ny, n = state(vc); h = vc.real("h"); d = vc.dim("d"); vc.assume(le(nx, d))
    g = m.c["cluster"]; mean, cov = vc.arr("mean", K, d), vc.arr("cov", K, d, d); g.c.update(means_=mean, covariances_=cov)
    km, kc = vc.snapshot(mean), vc.snapshot(cov)
    def mvn(it, a, kw):
        a = list(a); mu = a[0] if a else kw["mean"]; c = a[1] if len(a) > 1 else kw["cov"]
        vc.require(set(kw) <= {"mean", "cov"} and len(a) <= 2, "arguments of the distribution")
        return (mu, c)
    vc.it.natives["scipy.stats.multivariate_normal"] = mvn
    ds = vc.it.iterate(vc.method(m, "_create_clusters_distributions", h))
    vc.require(ds[0] == "sym", "one distribution per cluster"); vc.check_eq(ds[1], K, "one distribution per cluster")
    def one(k):
        mu, c = ds[2](k)
        vc.check_arr(mu, (nx,), lambda i: km.get((k, i)), "mean of the cluster in the inputs")
        vc.check_arr(c, (nx, nx), lambda i, j: mul(h, kc.get((k, i, j))), "scaled covariance of the cluster in the inputs")
    vc.forall((K,), one)
    vc.check_arr(cov, (K, d, d), lambda i, j, k: kc.get((i, j, k)), "frame: covariances")

def sel(lab, k, n):
    i = fresh("i"); return Lam(i, n, eq(lab.get((i,)), k))
@contract("_cluster_values: the values of each cluster")
def _(vc):
    m, K, nx, ny, n = state(vc); d = vc.dim("d"); v, lab = vc.arr("v", n, d), vc.arr("lab", n, s="I")
    vc.axiom("lab", lambda i: [le(ZERO, app("lab", i, s="I")), lt(app("lab", i, s="I"), K)])
    kv = vc.snapshot(v)
    cs = vc.method(m, "_cluster_values", v, lab)
    groups(vc, cs, kv, lab, K, n, d)
    vc.check_arr(v, (n, d), lambda i, j: kv.get((i, j)), "frame: values")
def groups(vc, cs, kv, lab, K, n, d):
    it = vc.it.iterate(cs); vc.require(it[0] == "sym", "a list per cluster"); vc.check_eq(it[1], K, "one list per cluster")
    def one(k):
        rows = vc.it.np.asarr(it[2](k)); L = norm_T(sel(lab, k, n), vc.it.ctx)
        vc.check_arr(rows, (app("count!", L, s="I"), d), lambda i, j: kv.get((app("nth!", L, i, s="I"), j)), "values of a cluster: exactly those with its label, in order")
    vc.forall((K,), one)
def fit_state(vc):
    m, K, nx, ny, n = state(vc); nc = vc.dim("nc")
    x, y, c = vc.arr("x", n, nx), vc.arr("y", n, 1), vc.arr("c", n, nc)
    vc.axiom("lab", lambda q, i: [le(ZERO, app("lab", q, i, s="I")), lt(app("lab", q, i, s="I"), K)])
    asked = []
    def predict(it, a, kw):
        z = it.np.asarr(list(a)[0]); asked.append(z); r = fresh("i"); k = fresh("k"); L = norm_T(Lam(r, z.shape[0], app("whole", row(z, r, z.shape[1]))), it.ctx)
        return mkarr((z.shape[0],), lambda i: app("lab", L, i, s="I"), "i")
    m.c["cluster"].c.update(predict=Native(predict, "predict"))
    fac = m.c["heaviside_factor"] = vc.real("h"); made = []
    def cd(it, a, kw):
        made.append(list(a)[1:] + list(kw.values())); return app("distributions", num(made[-1][0]) if made[-1] else ONE, s="U")
    vc.it.stubs[M + "_create_clusters_distributions"] = cd
    def clustering():
        vc.require(len(asked) == 1, "the data are classified once")
        z = asked[0]; vc.check_arr(z, (n, add(nx, nc)), lambda i, j: ite(lt(j, nx), x.get((i, j)), c.get((i, sub(j, nx)))), "classified by the inputs and the clustering outputs")
        vc.check_eq(m.c["distribs"], app("distributions", fac, s="U"), "memberships with the current factor")
        r = fresh("i"); L = norm_T(Lam(r, z.shape[0], app("whole", row(z, r, z.shape[1]))), vc.it.ctx)
        return lambda k: norm_T(selL(L, k, n), vc.it.ctx)
    def selL(L, k, n): i = fresh("i"); return Lam(i, n, eq(app("lab", L, i, s="I"), k))
    return m, K, nx, n, x, y, c, clustering
def data(r, nx):
    """a training set as a value: rows, whole"""
    i, j = fresh("i"), fresh("j"); return app("data", r.shape[0], Lam(i, r.shape[0], app("point", Lam(j, nx, r.get((i, j))), r.get((i, nx)))))
def cluster_rows(L, x, y, nx):
    return mkarr((app("count!", L, s="I"), add(nx, 1)), lambda i, j: ite(lt(j, nx), x.get((app("nth!", L, i, s="I"), j)), y.get((app("nth!", L, i, s="I"), ZERO))))
@contract("_fit, first time: the best model of each cluster's data")
def _(vc):
    m, K, nx, n, x, y, c, clustering = fit_state(vc)
    m.c["_experts"] = PyList([])
    def best(it, a, kw):
        r = it.np.asarr(list(a)[1]); vc.check(eq(r.shape[1], add(nx, 1)), "rows of the cluster: inputs and output")
        return app("best", data(r, nx), s="U")
    vc.it.stubs[M + "_find_best_model"] = best
    vc.method(m, "_fit", x, y, c)
    L = clustering()
    ex = vc.it.iterate(m.c["_experts"]); vc.require(ex[0] == "sym", "experts"); vc.check_eq(ex[1], K, "one expert per cluster")
    vc.forall((K,), lambda k: vc.check_eq(ex[2](k), app("best", data(cluster_rows(L(k), x, y, nx), nx), s="U"), "expert of the cluster: best model of its data"))
@contract("_fit again: each expert is retrained on its cluster's data")
def _(vc):
    m, K, nx, n, x, y, c, clustering = fit_state(vc)
    given = mkarr((K,), lambda j: app("old", j)); trained = mkarr((K,), lambda j: app("untrained", j))
    def at(j):
        o = Obj(None)
        def stv(it, a, kw):
            if it.merging: raise MergeFail("training data")
            xt, yt = list(a)[:2]; vc.require(xt.ndim == 2 and not kw, "training points"); yt = yt if yt.ndim == 2 else it.np.view(yt, [("slice", 0, ZERO, yt.shape[0], ONE), ("new",)])
            vc.check(eq(xt.shape[1], nx), "width"); vc.check(eq(yt.shape[1], ONE), "one output"); vc.check(eq(xt.shape[0], yt.shape[0]), "as many outputs as points")
            r = mkarr((xt.shape[0], add(nx, 1)), lambda i, j: ite(lt(j, nx), xt.get((i, j)), yt.get((i, ZERO))))
            given.write(lambda i: eq(i[0], j), lambda i: data(r, nx))
        def train(it, a, kw):
            if it.merging: raise MergeFail("training")
            trained.write(lambda i: eq(i[0], j), lambda i: given.get((j,)))
        o.c.update(set_training_values=Native(stv, "stv"), train=Native(train, "train")); return o
    l = PyList([]); l.c["items"] = SymSeq(K, lambda j: at(num(j))); m.c["_experts"] = l
    vc.method(m, "_fit", x, y, c, new_model=False)
    L = clustering()
    vc.require(m.c["_experts"] is l, "the experts are kept")
    vc.forall((K,), lambda k: vc.check_eq(trained.get((k,)), data(cluster_rows(L(k), x, y, nx), nx), "expert of the cluster: trained on its data"))

def best_model(names):
    def f(vc):
        m, K, nx, ny, n = state(vc); nr, na = vc.dim("nr"), vc.dim("na"); cv = vc.arr("cv", nr, add(nx, 1)); kv = vc.snapshot(cv); allx = vc.arr("allx", na, nx); m.c["x"] = allx
        held = vc.arr("held", nr, s="B", dtype="b"); rest = mkarr((nr,), lambda i: not_(held.get((i,))), "b"); n0 = nr
        def part(it, a, kw):
            v = it.np.asarr(list(a)[-2]); vc.check_arr(v, (nr, add(nx, 1)), lambda i, j: kv.get((i, j)), "all the rows of the cluster are split")
            return (it.np.getitem(v, held), it.np.getitem(v, rest))
        vc.it.stubs[M + "_extract_part"] = part
        i, j = fresh("i"), fresh("j"); TR = mkarr((app("count!", norm_T(Lam(i, nr, rest.get((i,))), vc.it.ctx), s="I"), nx), lambda i, j: vc.it.np.getitem(kv, rest).get((i, j)))
        built = {}
        def cls(e, name):
            def make(it, a, kw):
                vc.require(not list(a) and e not in built, "each expert is built once"); o = Obj(None); o.c["state"] = "new"
                if name in ("RMTB", "RMTC"):
                    vc.require(set(kw) == {"xlimits"}, "limits of the inputs"); xl = kw["xlimits"]; l = fresh("l")
                    vc.check_arr(xl, (nx, 2), lambda i, c: ite(eq(c, ZERO), binder("min*", l, na, allx.get((l, i))), binder("max*", l, na, allx.get((l, i)))), "limits: range of all the inputs")
                else: vc.require(not kw, "default options")
                def stv(it, a, kw):
                    xt, yt = list(a)[:2]; yt = yt if yt.ndim == 2 else it.np.view(yt, [("slice", 0, ZERO, yt.shape[0], ONE), ("new",)])
                    ref = vc.it.np.getitem(kv, rest)
                    vc.check_arr(xt, (ref.shape[0], nx), lambda i, j: ref.get((i, j)), "trained on the remaining points"); vc.check_arr(yt, (ref.shape[0], 1), lambda i, j: ref.get((i, nx)), "trained on the remaining outputs")
                    o.put("state", "data")
                def train(it, a, kw): vc.require(o.c["state"] == "data", "trained after the data are set"); o.put("state", "trained")
                def pv(it, a, kw):
                    vc.require(o.c["state"] == "trained", "trained before it is judged"); x = point(vc, it, list(a)[0], nx)
                    return mkarr((x.shape[0], ONE), lambda p, c: app("E%d" % e, row(x, p, nx)))
                o.c.update(name="sm" + name, options=PyDict({}), set_training_values=Native(stv, "stv"), train=Native(train, "train"), predict_values=Native(pv, "pv"))
                built[e] = o; return o
            return Native(make, name)
        m.c["_enabled_expert_types"] = PyDict({nm_: cls(e, nm_) for e, nm_ in enumerate(names)})
        best = vc.method(m, "_find_best_model", cv)
        vc.require(set(built) == set(range(len(names))), "every enabled expert is tried")
        win = [e for e, o in built.items() if o is best]; vc.require(len(win) == 1 and best.c["state"] == "trained", "the result is one of the trained experts")
        if not win: return
        te = vc.it.np.getitem(kv, held)
        def err(e): i = fresh("i"); return Sum(i, te.shape[0], power(sub(te.get((i, nx)), app("E%d" % e, row(te, i, nx))), 2))
        for e in built:
            if e == win[0]: continue
            a, b = norm_T(power(err(win[0]), Fraction(1, 2)), vc.it.ctx), norm_T(power(err(e), Fraction(1, 2)), vc.it.ctx)
            vc.check(le(a, b), "the chosen expert has the smallest validation error")
    return f
for names in (["KRG"], ["KRG", "LS"], ["KRG", "RMTB", "QP"], ["RMTC", "KPLS", "LS", "RBF"], ["KRG", "KPLS", "KPLSK", "LS", "QP", "RBF", "IDW"]):
    contract("_find_best_model among %s" % ", ".join(names), maxpaths=600, timeout=300, thorough=len(names) > 4)(best_model(names))

def enabled(allow, deny):
    names = ["KRG", "LS", "GEKPLS", "IDW"]        # GEKPLS is not an expert of the mixture
    def f(vc):
        m = new(vc); sup = {n_: {k: var("%s_%s" % (n_, k), "B") for k in ("derivatives", "variances")} for n_ in names}
        def cls(n_):
            def make(it, a, kw): o = Obj(None); o.c.update(supports=PyDict(dict(sup[n_])), name="other"); return o
            return Native(make, n_)
        types = {n_: cls(n_) for n_ in names}; m.c["_surrogate_type"] = PyDict(dict(types))
        o = vc.attr(m, "options"); d, v = var("need_d", "B"), var("need_v", "B")
        for k, x in (("derivatives_support", vc.it.decide(d)), ("variances_support", vc.it.decide(v)), ("allow", PyList(allow)), ("deny", PyList(deny))): vc.it.setitem(o, k, x)
        e, r = vc.raises(lambda: vc.method(m, "_get_enabled_expert_types"))
        ok = [n_ for n_ in names if n_ != "GEKPLS" and (not allow or n_ in allow) and n_ not in deny]
        got = set(r.d) if e is None else set()
        for n_ in names:
            want = FALSE if n_ not in ok else and_(*[or_(not_(q), sup[n_][k]) for q, k in ((d, "derivatives"), (v, "variances"))])
            vc.check(want if n_ in got else not_(want), "%s is enabled exactly when it is allowed, not denied and has the features asked for" % n_)
        if e is None:
            for n_ in got: vc.require(r.d[n_] is types.get(n_), "the classes of the enabled experts")
    return f
for allow in ([], ["KRG"], ["LS", "GEKPLS"], ["KRG", "IDW"]):
    for deny in ([], ["LS"], ["KRG", "LS"]):
        contract("enabled experts, allow=%s deny=%s" % (allow, deny), maxpaths=400)(enabled(allow, deny))

def train(options, tested, ct, many, heavy=False):
    def f(vc):
        nx, n, K = vc.dim("nx"), vc.dim("n"), (vc.dim("K", 2) if many else 1); nc = vc.dim("nc") if ct else ONE
        x, y = vc.arr("x", n, nx), vc.arr("y", n, 1); c = vc.arr("c", n, nc) if ct else y; kc = [vc.snapshot(v) for v in (x, y, c)]
        kw = dict(smooth_recombination=heavy, heaviside_optimization=heavy)
        if ct: kw["ct"] = c
        m = new(vc, **kw)
        if options: vc.it.setitem(vc.attr(m, "options"), "xt", x); vc.it.setitem(vc.attr(m, "options"), "yt", y)
        else: vc.method(m, "set_training_values", x, y)
        vc.it.setitem(vc.attr(m, "options").c["_dict"] if "_dict" in vc.attr(m, "options").c else vc.attr(m, "options"), "n_clusters", K)
        vc.assume(le(num(K), add(fdiv(n, num(10)), 1)))
        nt = vc.dim("nt"); xe, ye = vc.arr("xe", nt, nx), vc.arr("ye", nt, 1)
        if tested:
            for k, v in (("xtest", xe), ("ytest", ye)): vc.it.setitem(vc.attr(m, "options"), k, v)
        held = vc.arr("held", n, s="B", dtype="b"); rest = mkarr((n,), lambda i: not_(held.get((i,))), "b"); W_ = add(nx, 1, nc)
        whole = lambda i, j: ite(lt(j, nx), kc[0].get((i, j)), ite(eq(j, nx), kc[1].get((i, ZERO)), kc[2].get((i, sub(j, nx, 1)))))
        split = []
        def part(it, a, kw):
            v = it.np.asarr(list(a)[-2]); split.append(v); vc.check_shape(v, (n, W_), "all the data are split")
            vc.forall((n, nx), lambda i, j: vc.check_eq(v.get((i, j)), kc[0].get((i, j)), "data split: inputs")); vc.forall((n,), lambda i: vc.check_eq(v.get((i, nx)), kc[1].get((i, ZERO)), "data split: outputs"))
            vc.forall((n, nc), lambda i, j: vc.check_eq(v.get((i, add(nx, 1, j))), kc[2].get((i, j)), "data split: clustering outputs"))
            return (it.np.getitem(v, held), it.np.getitem(v, rest))
        log = []
        vc.it.stubs[M + "_extract_part"] = part
        vc.it.stubs[M + "_get_enabled_expert_types"] = lambda it, a, k: PyDict({"KRG": "the enabled types"})
        def gm(it, a, kw):
            vc.require(not list(a) and kw["n_components"] is m.c["n_clusters"], "as many clusters as asked for"); vc.check_eq(num(kw["n_components"]), num(K), "as many clusters as asked for"); o = Obj(None); o.c["converged_"] = True
            def fit(it, a, kw): log.append(("cluster", list(a)[0]))
            o.c["fit"] = Native(fit, "fit"); return o
        vc.it.natives["sklearn.mixture.GaussianMixture"] = gm
        def fit(it, a, kw):
            a = list(a)[1:]; names = ["x_trained", "y_trained", "c_trained", "new_model"]; d = dict(zip(names, a)); d.update(kw)
            vc.require(set(m.c["_enabled_expert_types"].d) == {"KRG"} and "cluster" in m.c, "the experts are chosen after the clustering, among the enabled ones")
            log.append(("fit", d.get("new_model", True), d["x_trained"], d["y_trained"], d["c_trained"], m.c["heaviside_factor"])); m.put("distribs", app("distributions", num(m.c["heaviside_factor"]), s="U"))
        vc.it.stubs[M + "_fit"] = fit
        def hf(it, a, kw):
            xe_, ye_ = list(a)[1:]; ref = split and vc.it.np.getitem(split[0], held)
            if tested: vc.check_arr(xe_, (nt, nx), lambda i, j: xe.get((i, j)), "factor judged on the test inputs"); vc.check_arr(ye_, (nt, 1), lambda i, j: ye.get((i, j)), "factor judged on the test outputs")
            else: vc.check_arr(xe_, (ref.shape[0], nx), lambda i, j: ref.get((i, j)), "factor judged on the extracted inputs"); vc.check_arr(ye_, (ref.shape[0], 1), lambda i, j: ref.get((i, nx)), "factor judged on the extracted outputs")
            return vc.real("factor")
        vc.it.stubs[M + "_find_best_heaviside_factor"] = hf
        vc.it.stubs[M + "_create_clusters_distributions"] = lambda it, a, kw: app("distributions", num((list(a)[1:] + list(kw.values()) + [ONE])[0]), s="U")
        vc.method(m, "train")
        vc.require([l[0] for l in log] == (["cluster", "fit"] if tested else ["cluster", "fit", "fit"]) and bool(split) == (not tested), "clustering, choice of the experts, retraining on all the data when some were held out")
        if len(log) < 2: return
        sel_ = (lambda v: v) if tested else (lambda v: vc.it.np.getitem(v, rest)); rx, ry, rc = [sel_(v) for v in kc]; N = rx.shape[0]
        vc.check_arr(log[0][1], (N, add(nx, nc)), lambda i, j: ite(lt(j, nx), rx.get((i, j)), rc.get((i, sub(j, nx)))), "clustering of the inputs and the clustering outputs")
        def fitted(l, first, q, w):
            vc.require(l[1] is first, w + ": new models"); 
            for v, r, d, nm_ in zip(l[2:5], q, (nx, 1, nc), ("inputs", "outputs", "clustering outputs")): vc.check_arr(v, (q[0].shape[0], d), lambda i, j: r.get((i, j)), w + ": " + nm_)
        fitted(log[1], True, (rx, ry, rc), "first fit on the training part"); vc.check_eq(num(log[1][5]), ONE, "initial factor")
        if not tested: fitted(log[2], False, kc, "last fit on all the data")
        vc.check_eq(m.c["distribs"], app("distributions", vc.real("factor") if heavy and many else ONE, s="U"), "memberships with the chosen factor")
        vc.check_eq(num(m.c["n_clusters"]), num(K), "number of clusters"); vc.require(m.c["smooth_recombination"] is heavy, "recombination as asked for")
        for v, k, nm_ in zip((x, y, c), kc, ("inputs", "outputs", "clustering outputs")): vc.check_arr(v, tuple(k.shape), lambda i, j: k.get((i, j)), "frame: " + nm_)
    return f
for options, tested, ct, many, heavy in ((False, False, False, True, False), (True, False, False, True, True), (False, True, False, True, True), (False, False, True, True, True), (False, True, True, False, False), (False, False, False, False, True), (True, True, True, True, False)):
    contract("train: data %s%s%s%s%s" % ("in options" if options else "given", ", test data" if tested else "", ", clustering outputs" if ct else "", "" if many else ", one cluster", ", scaling factor optimised" if heavy else ""))(train(options, tested, ct, many, heavy))

@contract("MOESurrogateModel: the mixture trained on the data and options of the model")
def _(vc):
    nx, n, q = vc.dim("nx"), vc.dim("n"), vc.dim("q")
    vc.it.stubs[M + "_get_enabled_expert_types"] = lambda it, a, k: PyDict({})
    s = vc.new("smt.applications.moe:MOESurrogateModel", n_clusters=3, smooth_recombination=False, variances_support=True, deny=["LS"], print_global=False)
    x, y = vc.arr("x", n, nx), vc.arr("y", n, 1); vc.method(s, "set_training_values", x, y)
    moe = vc.attr(s, "moe"); state = []
    def train(it, a, kw):
        o = vc.attr(list(a)[0], "options"); g = lambda k: vc.it.getitem(o, k)
        vc.require(list(a)[0] is moe, "the model's own mixture"); vc.require(g("n_clusters") == 3 and g("smooth_recombination") is False and g("variances_support") is True and list(vc.it.seq_of(g("deny"))) == ["LS"], "options are passed on")
        vc.check_arr(moe.c["xt"], (n, nx), lambda i, j: x.get((i, j)), "training points are passed on"); vc.check_arr(moe.c["yt"], (n, 1), lambda i, j: y.get((i, j)), "training outputs are passed on"); state.append("trained")
    vc.it.stubs[M + "train"] = train
    vc.method(s, "train"); vc.require(state == ["trained"], "trained once")
    p = vc.arr("p", q, nx)
    for w, nm_ in (("V", "predict_values"), ("S", "predict_variances")):
        vc.it.stubs[M + nm_] = lambda it, a, kw, w=w: mkarr((list(a)[1].shape[0], ONE), lambda i, o: app("moe" + w, row(list(a)[1], i, nx)))
        r = vc.method(s, nm_, p)
        vc.check_arr(r, (q, 1), lambda i, o: app("moe" + w, row(p, i, nx)), nm_ + " of the mixture")
