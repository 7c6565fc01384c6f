"""P08  Mixed-integer encoding, projection and decoding agree."""
from pyvc.contract import *
contract = Registry()
ASSUMPTIONS = ["the type list has arbitrary symbolic length; each entry is a float, an integer or a categorical variable with an arbitrary number of levels",
    "numpy.argmax returns the first index of a largest entry; entries are numbers (no NaN)"]
M = "smt.applications.mixed_integer:"
KINDS = {"float": 0, "int": 1, "enum": 2}
def kind(i): return app("kind", i, s="I")
def lev(i): return app("lev", i, s="I")
def off(i): return app("off", i, s="I")
def w(i): return ite(eq(kind(i), num(2)), lev(i), ONE)

class Spec:
    """an arbitrary list of N variable types; j is an arbitrary one of them, of the given kind; off(i) is the first relaxed column of variable i"""
    def __init__(s, vc, jk):
        s.vc = vc; s.it = vc.it; s.N = vc.dim("N"); s.j = vc.int_("j"); s.jk = jk
        vc.axiom("lev", lambda i: [le(ONE, lev(i))])
        vc.axiom("kind", lambda i: [le(ZERO, kind(i)), le(kind(i), num(2))])
        vc.assume(le(ZERO, s.j), lt(s.j, s.N), eq(kind(s.j), num(KINDS[jk])), eq(off(ZERO), ZERO), le(ONE, off(s.N)))
        s.wj = lev(s.j) if jk == "enum" else ONE
        s.D = off(s.N); s.rel(s.j)
        s.types = PyList([]); s.types.c["items"] = SymSeq(s.N, s.typ)
    def typ(s, i):
        i = norm_T(num(i), s.it.ctx)
        if s.it.decide(eq(kind(i), ZERO)): return "float_type"
        if s.it.decide(eq(kind(i), ONE)): return "int_type"
        s.vc.assume(eq(kind(i), num(2)))
        return ("enum_type", lev(i))
    def rel(s, k):
        """prefix sums of the widths (lemma 'offsets'): column block of variable k; disjoint from and ordered with the block of j"""
        vc = s.vc
        if k is not s.j and s.it.decide(eq(s.j, k)):
            # the tracked variable is this one
            s.j = k; s.wj = lev(k) if s.jk == "enum" else ONE; vc.assume(eq(kind(k), num(KINDS[s.jk])), lt(k, s.N))
        wk = s.wj if k is s.j else w(k)
        vc.assume(le(ONE, wk), le(ZERO, off(k)))
        vc.assume(or_(not_(lt(k, s.N)), and_(eq(off(add(k, 1)), add(off(k), wk)), le(add(off(k), wk), off(s.N)))))
        if k is not s.j: vc.assume(or_(not_(lt(s.j, k)), le(add(off(s.j), s.wj), off(k))), or_(not_(and_(lt(k, s.j), lt(k, s.N))), le(add(off(k), wk), off(s.j))))
    def inblock(s, c): return and_(le(off(s.j), c), lt(c, add(off(s.j), s.wj)))
    def block(s, f):
        """f(t, column) for an arbitrary column of the block of j"""
        if s.jk != "enum": f(ZERO, off(s.j)); return
        s.vc.forall((s.wj,), lambda t: f(t, norm_T(add(off(s.j), t), s.it.ctx)))
def amax(x, p, o, n):
    t = fresh("t"); return binder("argmax*", t, n, x(p, add(o, t)))
def proj(s, x):
    """projection of the block of variable j"""
    def g(p, c):
        if s.jk == "float": return x(p, c)
        if s.jk == "int": return mk("fn_round", (x(p, c),), "I")
        return ite(eq(sub(c, off(s.j)), amax(x, p, off(s.j), s.wj)), ONE, ZERO)
    return g
def cast(jk):
    def f(vc):
        s = Spec(vc, jk); n = vc.dim("n"); it = vc.it; x = vc.arr("x", n, s.D)
        xs = lambda p, c: app("x", p, c); P = proj(s, xs)
        st = {}
        def inv(env, k):
            out = [("column counter is the offset of the variable", eq(S(env.c["x_col"]), off(k)))]
            if st.pop("assume", 0): return out
            r = env.c["ret"]; p = var("p", "I"); t = var("t", "I") if jk == "enum" else ZERO; c = add(off(s.j), t)
            rng = [le(ZERO, p), lt(p, n), le(ZERO, t), lt(t, s.wj)]
            save = it.ctx; it.ctx = save.extend(*[norm_cond(z, save) for z in rng])
            for cond, want, z in ((lt(s.j, k), P, "done"), (not_(lt(s.j, k)), xs, "still to do")):
                it.ctx = save.extend(*[norm_cond(q, save) for q in rng]); c2 = norm_cond(cond, it.ctx)
                if c2 is FALSE: continue
                vc.assume(c2); vc.check_eq(r.get((p, c)), want(p, c), "block of the variable: %s (invariant)" % z)
            it.ctx = save
            return out
        def extra(env, k):
            st["assume"] = 1; s.rel(k)
            p, c = fresh("p"), fresh("c")
            body = ite(s.inblock(c), ite(lt(s.j, k), P(p, c), xs(p, c)), app("H", p, c))
            env.c["ret"].store.put("fn", ((p, c), body))
        vc.invariant(M + "cast_to_discrete_values", inv, havoc={"x_col": lambda k: off(k)}, extra=extra)
        r = vc.call(M + "cast_to_discrete_values", s.types, x)
        vc.check_shape(r, (n, s.D), "projection")
        def el(p):
            def b(t, c):
                vc.check_eq(r.get((p, c)), P(p, c), "projection of a %s variable" % jk)
            s.block(b)
        vc.forall((n,), el)
        vc.check_arr(x, (n, s.D), lambda p, c: app("x", p, c), "relaxed points not modified")
    return f
for k in KINDS: contract("cast_to_discrete_values: %s variable in any type list" % k)(cast(k))

def vals(p, i): return ite(eq(kind(i), num(2)), app("xi", p, i, s="I"), app("x", p, i))
def unfold(jk):
    def f(vc):
        s = Spec(vc, jk); n = vc.dim("n"); it = vc.it
        vc.axiom("xi", lambda p, i: [or_(not_(eq(kind(i), num(2))), and_(le(ZERO, app("xi", p, i, s="I")), lt(app("xi", p, i, s="I"), lev(i))))])
        x = mkarr((n, s.N), vals)
        E = lambda p, c: app("x", p, s.j) if jk != "enum" else ite(eq(sub(c, off(s.j)), app("xi", p, s.j, s="I")), ONE, ZERO)
        st = {}
        def dinv(env, k):
            if st.pop("assume", 0): return []
            return [("dimension counts the columns so far", eq(S(env.c["res"]), off(k)))]
        def dextra(env, k): st["assume"] = 1; s.rel(k); env.c["res"] = off(k)
        vc.invariant(M + "compute_unfolded_dimension", dinv, havoc={"res": lambda k: off(k)}, extra=dextra)
        def inv(env, k):
            out = [("column counter is the offset of the variable", eq(S(env.c["unfold_index"]), off(k)))]
            if st.pop("assume", 0): return out
            r = env.c["xunfold"]; p = var("p", "I"); t = var("t", "I") if jk == "enum" else ZERO; c = add(off(s.j), t)
            rng = [le(ZERO, p), lt(p, n), le(ZERO, t), lt(t, s.wj)]; save = it.ctx
            for cond, want, z in ((lt(s.j, k), E, "done"), (not_(lt(s.j, k)), lambda p, c: ZERO, "still to do")):
                it.ctx = save.extend(*[norm_cond(q, save) for q in rng]); c2 = norm_cond(cond, it.ctx)
                if c2 is FALSE: continue
                vc.assume(c2); vc.check_eq(r.get((p, c)), want(p, c), "block of the variable: %s (invariant)" % z)
            it.ctx = save
            return out
        def extra(env, k):
            st["assume"] = 1; s.rel(k); p, c = fresh("p"), fresh("c")
            env.c["xunfold"].store.put("fn", ((p, c), ite(s.inblock(c), ite(lt(s.j, k), E(p, c), ZERO), app("H", p, c))))
        vc.invariant(M + "unfold_with_enum_mask", inv, havoc={"unfold_index": lambda k: off(k)}, extra=extra, match=lambda st: "enumerate" in __import__("ast").unparse(st.iter))
        r = vc.call(M + "unfold_with_enum_mask", s.types, x)
        vc.check_shape(r, (n, s.D), "expanded points")
        vc.forall((n,), lambda p: s.block(lambda t, c: vc.check_eq(r.get((p, c)), E(p, c), "expansion of a %s variable" % jk)))
        vc.check_arr(x, (n, s.N), vals, "points not modified")
    return f
def fold(jk):
    def f(vc):
        s = Spec(vc, jk); n = vc.dim("n"); it = vc.it; x = vc.arr("x", n, s.D)
        E = lambda p: app("x", p, off(s.j)) if jk != "enum" else amax(lambda p, c: app("x", p, c), p, off(s.j), s.wj)
        st = {}
        def inv(env, k):
            out = [("column counter is the offset of the variable", eq(S(env.c["unfold_index"]), off(k)))]
            if st.pop("assume", 0): return out
            r = env.c["xfold"]; p = var("p", "I"); save = it.ctx
            for cond, want, z in ((lt(s.j, k), E, "done"),):
                it.ctx = save.extend(*[norm_cond(q, save) for q in (le(ZERO, p), lt(p, n))]); c2 = norm_cond(cond, it.ctx)
                if c2 is FALSE: continue
                vc.assume(c2); vc.check_eq(r.get((p, s.j)), want(p), "entry of the variable: %s (invariant)" % z)
            it.ctx = save
            return out
        def extra(env, k):
            st["assume"] = 1; s.rel(k); p, c = fresh("p"), fresh("c")
            env.c["xfold"].store.put("fn", ((p, c), ite(and_(eq(c, s.j), lt(s.j, k)), E(p), app("H", p, c))))
        vc.invariant(M + "fold_with_enum_index", inv, havoc={"unfold_index": lambda k: off(k)}, extra=extra)
        r = vc.call(M + "fold_with_enum_index", s.types, x)
        vc.check_shape(r, (n, s.N), "folded points")
        vc.forall((n,), lambda p: vc.check_eq(r.get((p, s.j)), E(p), "fold of a %s variable" % jk))
        vc.check_arr(x, (n, s.D), lambda p, c: app("x", p, c), "points not modified")
    return f
def limits(jk):
    def f(vc):
        s = Spec(vc, jk); it = vc.it; st = {}
        def lim(i):
            i = norm_T(num(i), it.ctx)
            if it.decide(eq(kind(i), num(2))):
                q = PyList([]); q.c["items"] = SymSeq(lev(i), lambda t: app("label", i, num(t), s="U")); return q
            return PyList([app("xl", i, ZERO), app("xl", i, ONE)])
        xl = PyList([]); xl.c["items"] = SymSeq(s.N, lim)
        E = lambda b: app("xl", s.j, num(b)) if jk != "enum" else num(b)
        def inv(env, k):
            q = env.c["xlims"].items; L = q.n if isinstance(q, SymSeq) else num(len(q))
            out = [("one pair of limits per column so far", eq(L, off(k)))]
            if st.pop("assume", 0): return out
            t = var("t", "I") if jk == "enum" else ZERO; save = it.ctx
            it.ctx = save.extend(*[norm_cond(z, save) for z in (le(ZERO, t), lt(t, s.wj))]); c2 = norm_cond(lt(s.j, k), it.ctx)
            if c2 is not FALSE:
                vc.assume(c2); row = q[add(off(s.j), t)] if isinstance(q, list) else q.f(add(off(s.j), t))
                for b in (0, 1): vc.check_eq(it.getitem(row, b), E(b), "limits of the columns of the variable (invariant)")
            it.ctx = save
            return out
        def extra(env, k):
            st["assume"] = 1; s.rel(k)
            env.c["xlims"].put("items", SymSeq(off(k), lambda c: PyList([ite(and_(s.inblock(num(c)), lt(s.j, k)), E(b), app("HL", num(c), num(b))) for b in (0, 1)])))
        vc.invariant(M + "unfold_xlimits_with_continuous_limits", inv, havoc={}, extra=extra)
        r = vc.call(M + "unfold_xlimits_with_continuous_limits", s.types, xl)
        vc.check_shape(r, (s.D, 2), "relaxed limits")
        for b in (0, 1): s.block(lambda t, c: vc.check_eq(r.get((c, num(b))), E(b), "limits of the columns of a %s variable" % jk))
    return f
for k in KINDS:
    contract("unfold_with_enum_mask: %s variable in any type list" % k)(unfold(k))
    contract("fold_with_enum_index: %s variable in any type list" % k)(fold(k))
    contract("unfold_xlimits_with_continuous_limits: %s variable in any type list" % k)(limits(k))

# lemmas over the contracts above
@contract("lemma offsets: the blocks of the relaxed columns are ordered and disjoint")
def _(vc):
    # off(i+1) = off(i) + w(i), w >= 1; induction on k over: every i <= k has off(i) <= off(k), and off(i)+w(i) <= off(k) when i < k
    i, k = vc.int_("i"), vc.int_("k"); vc.axiom("lev", lambda i: [le(ONE, lev(i))])
    vc.assume(le(ZERO, i), le(ZERO, k), eq(off(add(k, 1)), add(off(k), w(k))), eq(off(add(i, 1)), add(off(i), w(i))))
    vc.check(le(ONE, w(k)), "every variable has at least one column")
    P = lambda q: and_(or_(not_(le(i, q)), le(off(i), off(q))), or_(not_(lt(i, q)), le(add(off(i), w(i)), off(q))))
    save = vc.it.ctx
    vc.assume(eq(k, i)); vc.check(P(k), "induction base (k = i)"); vc.it.ctx = save
    vc.assume(lt(i, k), P(k)); vc.check(P(add(k, 1)), "induction step"); vc.it.ctx = save
    vc.assume(eq(i, k)); vc.check(P(add(k, 1)), "first step after the variable itself")
def onehot(vc, n, a):
    """the largest entry of a one-hot block is where the one is"""
    E = lambda t: ite(eq(t, a), ONE, ZERO); t = fresh("t"); am = norm_T(binder("argmax*", t, n, E(t)), vc.it.ctx)
    vc.assume(le(ZERO, am), lt(am, n), le(E(a), E(am)))       # definition of the index of a largest entry, at a
    return am
@contract("lemma: folding an expansion gives the point back")
def _(vc):
    n = vc.dim("n"); a = vc.int_("a"); vc.assume(le(ZERO, a), lt(a, n))
    vc.check(eq(onehot(vc, n, a), a), "index of the selected level of a one-hot block")
@contract("lemma: projecting twice equals projecting once, and the projection is feasible")
def _(vc):
    n = vc.dim("n"); t = fresh("t"); a = norm_T(binder("argmax*", t, n, app("v", t)), vc.it.ctx); vc.assume(le(ZERO, a), lt(a, n))
    b = onehot(vc, n, a); vc.check(eq(a, b), "categorical: the projected block selects the same level")
    x = vc.real("x"); r = mk("fn_round", (x,), "I"); vc.check_eq(vc.it.natives["numpy.rint"](vc.it, [r], {}), r, "integer: rounding an integer changes nothing")
    vc.forall((n,), lambda c: vc.check(or_(eq(ite(eq(c, a), ONE, ZERO), ZERO), eq(ite(eq(c, a), ONE, ZERO), ONE)), "categorical: entries are 0 or 1"))
    vc.check_eq(ite(eq(a, a), ONE, ZERO), ONE, "categorical: the largest entry is selected")
    vc.forall((n,), lambda c: vc.check(or_(eq(ite(eq(c, a), ONE, ZERO), ZERO), eq(c, a)), "categorical: no other entry is selected"))

# inconsistent specifications
def nlim(i): return app("nlim", i, s="I")
def anytypes(vc, N, it):
    """entries: float, int, categorical with lev levels, an unknown name, a tuple with an unknown name"""
    vc.axiom("kind", lambda i: [le(ZERO, kind(i)), le(kind(i), num(4))]); vc.axiom("nlim", lambda i: [le(ZERO, nlim(i))])
    def typ(i):
        i = norm_T(num(i), it.ctx)
        for q, v in ((0, "float_type"), (1, "int_type"), (2, ("enum_type", lev(i))), (3, "ordered_type")):
            if it.decide(eq(kind(i), num(q))): return v
        vc.assume(eq(kind(i), num(4))); return ("weird_type", lev(i))
    T = PyList([]); T.c["items"] = SymSeq(N, typ)
    def lim(i):
        i = norm_T(num(i), it.ctx); q = PyList([]); q.c["items"] = SymSeq(nlim(i), lambda t: app("xl", i, num(t))); return q
    X = PyList([]); X.c["items"] = SymSeq(N, lim)
    return T, X
def good(j): return or_(and_(or_(eq(kind(j), ZERO), eq(kind(j), ONE)), eq(nlim(j), num(2))), and_(eq(kind(j), num(2)), eq(nlim(j), lev(j))))
@contract("check_xspec_consistency: accepted specifications are consistent in every entry")
def _(vc):
    it = vc.it; N = vc.dim("N"); T, X = anytypes(vc, N, it); j = vc.int_("j"); vc.assume(le(ZERO, j), lt(j, N))
    vc.invariant(M + "check_xspec_consistency", lambda env, k: [("entry checked", or_(not_(lt(j, k)), good(j)))], havoc={}, extra=lambda env, k: it.decide(eq(j, k)))
    e, _ = vc.raises(lambda: vc.call(M + "check_xspec_consistency", T, X))
    if e is not None: vc.require(it.exc_name(e) == "ValueError" if hasattr(it, "exc_name") else "ValueError" in repr(e), "rejected with ValueError"); return
    vc.check(good(j), "an accepted entry has a known type and matching limits")
@contract("check_xspec_consistency: consistent specifications are accepted")
def _(vc):
    it = vc.it; N = vc.dim("N"); T, X = anytypes(vc, N, it)
    vc.axiom("kind", lambda i: [le(ZERO, kind(i)), le(kind(i), num(2)), or_(not_(lt(kind(i), num(2))), eq(nlim(i), num(2))), or_(not_(eq(kind(i), num(2))), eq(nlim(i), lev(i)))])
    vc.invariant(M + "check_xspec_consistency", lambda env, k: [], havoc={}, extra=lambda env, k: None)
    e, _ = vc.raises(lambda: vc.call(M + "check_xspec_consistency", T, X))
    vc.require(e is None, "no exception")
@contract("check_xspec_consistency: one entry of limits per variable")
def _(vc):
    it = vc.it; N, L = vc.dim("N"), vc.dim("L"); T, X = anytypes(vc, N, it); X.c["items"] = SymSeq(L, X.items.f); vc.assume(not_(eq(N, L)))
    e, _ = vc.raises(lambda: vc.call(M + "check_xspec_consistency", T, X))
    vc.require(e is not None and "ValueError" in repr(e), "ValueError")

@contract("cast_to_enum_value: levels of the given indices")
def _(vc):
    N, m = vc.dim("N"), vc.dim("m"); c = vc.int_("c"); vc.assume(le(ZERO, c), lt(c, N)); vc.axiom("idx", lambda i: [le(ZERO, app("idx", i, s="I")), lt(app("idx", i, s="I"), nlim(c))])
    X = PyList([]); X.c["items"] = SymSeq(N, lambda i: labels(i)); I = PyList([]); I.c["items"] = SymSeq(m, lambda t: app("idx", t, s="I"))
    def labels(i): q = PyList([]); q.c["items"] = SymSeq(nlim(i), lambda t: app("label", i, t, s="U")); return q
    r = vc.call(M + "cast_to_enum_value", X, c, I)
    vc.check(eq(vc.it.natives["len"](vc.it, [r], {}), m), "one level per index")
    vc.forall((m,), lambda t: vc.check_eq(vc.it.getitem(r, t), app("label", c, app("idx", t, s="I"), s="U"), "level of the index"))
def tomixed(jk):
    def f(vc):
        s = Spec(vc, jk); it = vc.it; j = s.j; st = {}
        vc.axiom("xi", lambda i: [or_(not_(eq(kind(i), num(2))), and_(le(ZERO, app("xi", i, s="I")), lt(app("xi", i, s="I"), lev(i))))])
        x = mkarr((s.N,), lambda i: ite(eq(kind(i), num(2)), app("xi", i, s="I"), app("x", i)))
        def labels(i): i = num(i); q = PyList([]); q.c["items"] = SymSeq(ite(eq(kind(i), num(2)), lev(i), num(2)), lambda t: app("label", i, num(t), s="U")); return q
        X = PyList([]); X.c["items"] = SymSeq(s.N, labels)
        E = lambda j: app("x", j) if jk == "float" else mk("fn_trunc", (app("x", j),), "I") if jk == "int" else app("label", j, app("xi", j, s="I"), s="U")
        def at(q, i): return q.f(i) if isinstance(q, SymSeq) else q[0]
        def inv(env, k):
            q = env.c["res"].items; L = q.n if isinstance(q, SymSeq) else num(len(q)); out = [("one entry per variable so far", eq(L, k))]
            if st.pop("assume", 0): return out
            c2 = norm_cond(lt(s.j, k), it.ctx)
            if c2 is not FALSE:
                save = it.ctx; vc.assume(c2); vc.check_eq(at(q, s.j), E(s.j), "entry of the variable (invariant)"); it.ctx = save
            return out
        def extra(env, k):
            st["assume"] = 1; s.rel(k)
            env.c["res"].put("items", SymSeq(k, lambda i: E(s.j) if norm_T(num(i), it.ctx) is norm_T(s.j, it.ctx) else app("HR", num(i))))
        vc.invariant(M + "cast_to_mixed_integer", inv, havoc={}, extra=extra)
        r = vc.call(M + "cast_to_mixed_integer", s.types, X, x)
        vc.check(eq(vc.it.natives["len"](vc.it, [r], {}), s.N), "one entry per variable")
        vc.check_eq(at(r.items, s.j), E(s.j), "value of a %s variable" % jk)
    return f
for k in KINDS: contract("cast_to_mixed_integer: %s variable in any type list" % k)(tomixed(k))
@contract("MixedIntegerContext applies its own specification")
def _(vc):
    it = vc.it; log = []; T, X = PyList(["float_type"]), PyList([PyList([0, 1])]); C = "smt.applications.mixed_integer:"
    for q in ("check_xspec_consistency", "cast_to_discrete_values", "fold_with_enum_index", "unfold_with_enum_mask", "cast_to_enum_value", "cast_to_mixed_integer"):
        it.stubs[C + q] = lambda it, a, kw, q=q: (log.append((q, a)), q)[1]
    D = vc.dim("D"); U = vc.arr("U", D, 2)
    it.stubs[C + "unfold_xlimits_with_continuous_limits"] = lambda it, a, kw: (log.append(("limits", a)), U)[1]
    o = vc.new(C + "MixedIntegerContext", T, X)
    same = lambda got, *want: len(got) == len(want) and all(p is q for p, q in zip(got, want))
    vc.require([q for q, _ in log] == ["check_xspec_consistency", "limits"] and all(same(a, T, X) for _, a in log), "specification checked and limits expanded at construction")
    vc.require(vc.method(o, "get_unfolded_xlimits") is U, "relaxed limits"); vc.check_eq(vc.method(o, "get_unfolded_dimension"), D, "one relaxed dimension per row of the relaxed limits")
    x = vc.arr("x", 3, 2); c = vc.int_("c"); ind = PyList([0, 1])
    for q, args, want in (("cast_to_discrete_values", (x,), (T, x)), ("fold_with_enum_index", (x,), (T, x)), ("unfold_with_enum_mask", (x,), (T, x)), ("cast_to_enum_value", (c, ind), (X, c, ind)), ("cast_to_mixed_integer", (x,), (T, X, x))):
        del log[:]; r = vc.method(o, q, *args)
        vc.require(r == q and len(log) == 1 and log[0][0] == q and same(log[0][1], *want), "%s uses the specification of the context" % q)
