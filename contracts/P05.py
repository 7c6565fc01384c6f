"""P05  Latin hypercube optimisation keeps the Latin property."""
from pyvc.contract import *
contract = Registry()
ASSUMPTIONS = ["pyDOE2.lhs returns a Latin hypercube for the plain and centred criteria (checked on samples by the executable contract)",
    "scipy.spatial.distance.pdist / cdist are Euclidean distances, numpy.delete removes the given rows", "no two points of a design coincide (distances are positive)",
    "the optimisation loop is verified with 1 to 4 replicas per step (J), any number of outer and inner iterations; floating-point accumulation of the incrementally updated measure is not modelled"]
L = "smt.sampling_methods.lhs:LHS"

def lhs(vc): return vc.new(L, xlimits=vc.arr("xl", vc.dim("xd"), 2))

def phip(vc):
    n, d = vc.dim("n"), vc.dim("d"); p = vc.dim("p")
    X = vc.arr("X", n, d); vc.it.bag_masks = True
    def pd(it, a, kw):
        vc.require(len(a) == 1 and not kw, "Euclidean distance")
        x = a[0]; i, j, k = (fresh(c) for c in "ijk")
        r = mkarr((n, n), lambda i, j: power(Sum(k, x.shape[1], power(sub(x.get((i, k)), x.get((j, k))), 2)), Fraction(1, 2)))
        m = Masked(r.store, r.shape); m.mask = mkarr((n, n), lambda i, j: lt(i, j), "b"); return m
    vc.it.natives["scipy.spatial.distance.pdist"] = pd
    for args, pp in (((X,), num(10)), ((X, p), p)):
        r = vc.method(lhs(vc), "_PhiP", *args)
        i, j, k = (fresh(c) for c in "ijk")
        S2 = Sum(i, n, Sum(j, n, ite(lt(i, j), power(power(Sum(k, d, power(sub(app("X", i, k), app("X", j, k)), 2)), Fraction(1, 2)), neg(pp)), ZERO)))
        vc.check_eq(r, power(S2, power(pp, -1)), "PhiP is the inverse-power sum of the pairwise distances")
    vc.check_arr(X, (n, d), lambda i, k: app("X", i, k), "design not modified")
contract("LHS._PhiP")(phip)

def masked(n, shape, f, m, dtype="f"):
    x = mkarr(shape, f, dtype); r = Masked(x.store, x.shape); r.mask = mkarr(shape, m, "b"); return r
def exchange(nfix, neg_k=False):
    def f(vc):
        it = vc.it; it.bag_masks = True
        n, d = vc.dim("n", 2), vc.dim("d"); p = vc.dim("p"); X = vc.arr("X", n, d); phi = vc.real("phi")
        k = vc.int_("k"); vc.assume(le(ZERO, k), lt(k, d)); vc.positive("phi")
        cnt = [0]
        def randint(it, a, kw):
            vc.require(len(a) == 1 and not kw, "one bound"); vc.check_eq(S(a[0]), n, "row drawn among all rows")
            cnt[0] += 1; v = var("r%d" % cnt[0], "I"); vc.assume(le(ZERO, v), lt(v, n)); return v
        rs = Obj(Cls("RandomState", [], {}, None) if False else None); rs.c["randint"] = Native(randint, "randint")
        sm = lhs(vc); sm.c["random_state"] = rs
        def havoc(nm):
            def g(k_):
                v = var("h_" + nm, "I"); vc.assume(le(ZERO, v), lt(v, n)); return v
            return g
        for nm in ("i1", "i2"):
            def inv(env, k_, nm=nm): return [("%s is a row" % nm, and_(le(ZERO, S(env.c[nm])), lt(S(env.c[nm]), n)))]
            vc.invariant(L + "._PhiP_exchange", inv, havoc={nm: havoc(nm)}, match=lambda st, nm=nm: type(st).__name__ == "While" and any(getattr(x, "id", None) == nm and isinstance(x.ctx, ast.Store) for b in st.body for x in ast.walk(b)))
        rec = {}
        def delete(it, a, kw):
            rows = [S(q) for q in it.seq_of(a[1])]; rec["rows"] = rows
            vc.require(kw.get("axis", a[2] if len(a) > 2 else None) == 0 and len(rows) == 2, "two rows removed")
            return masked(n, a[0].shape, lambda i, j: app("X", i, j), lambda i, j: and_(*[ne(i, q) for q in rows]))
        it.natives["numpy.delete"] = delete
        def cd(it, a, kw):
            vc.require(len(a) == 2 and not kw, "Euclidean distance")
            x, y = a; x = it.np.asarr(x) if not isinstance(x, Arr) else x
            q = fresh("k"); sh = (x.shape[0], y.shape[0]); plain = Arr(y.store, y.shape, y.fwd, y.inv)
            g = lambda i, j: power(Sum(q, x.shape[1], power(sub(x.get((i, q)), plain.get((j, q))), 2)), Fraction(1, 2))
            return masked(n, sh, g, lambda i, j: y.mask.get((j, ZERO))) if isinstance(y, Masked) else mkarr(sh, g)
        it.natives["scipy.spatial.distance.cdist"] = cd
        fixed = [vc.int_("fix%d" % q) for q in range(nfix)]
        r = vc.method(sm, "_PhiP_exchange", X, sub(k, d) if neg_k else k, phi, p, fixed)
        i1, i2 = rec["rows"]
        vc.check(and_(le(ZERO, i1), lt(i1, n), le(ZERO, i2), lt(i2, n)), "existing rows")
        for q in fixed: vc.check(and_(ne(i1, q), ne(i2, q)), "fixed rows stay")
        swap = lambda i, j: ite(eq(j, k), ite(eq(i, i1), app("X", i2, k), ite(eq(i, i2), app("X", i1, k), app("X", i, j))), app("X", i, j))
        vc.check_arr(X, (n, d), swap, "design: two entries of column k exchanged, everything else unchanged")
        m, q = fresh("m"), fresh("q")
        dist = lambda F, a, b: power(Sum(q, d, power(sub(F(a, q), F(b, q)), 2)), Fraction(1, 2))
        old = lambda i, j: app("X", i, j)
        w = lambda F, a: power(dist(F, a, m), neg(p))
        want = power(add(power(phi, p), Sum(m, n, ite(and_(ne(m, i1), ne(m, i2)), add(sub(w(swap, i1), w(old, i1)), sub(w(swap, i2), w(old, i2))), ZERO))), power(p, -1))
        vc.check_eq(r, want, "returned measure is the old one with the distances to the two rows replaced by the new ones")
    return f
import ast
contract("LHS._PhiP_exchange")(exchange(0))
contract("LHS._PhiP_exchange column counted from the end")(exchange(0, True))
contract("LHS._PhiP_exchange one fixed row")(exchange(1))
contract("LHS._PhiP_exchange two fixed rows")(exchange(2))

def lemma(vc):
    """replacing the entries of two rows and columns of a symmetric pair-weight matrix changes the sum over unordered pairs by the sum
    over the other rows, provided the weight of the pair itself is kept; the swapped design is such a change"""
    n = vc.dim("n", 2); i1, i2 = vc.int_("i1"), vc.int_("i2")
    vc.assume(le(ZERO, i1), lt(i1, n), le(ZERO, i2), lt(i2, n), ne(i1, i2))
    for a, b, t in ((i1, i2, "first row before the second"), (i2, i1, "second row before the first")):
        save = vc.it.ctx; vc.assume(lt(a, b))
        u = lambda q, m: app("wold", q, m)
        e1, e2 = (lambda m: app("e1", m)), (lambda m: app("e2", m))    # change of the weight of the pairs (i1, m), (i2, m)
        i, j, m = fresh("i"), fresh("j"), fresh("m")
        diff = lambda p, q: ite(eq(p, i1), ite(eq(q, i2), ZERO, e1(q)), ite(eq(q, i1), ite(eq(p, i2), ZERO, e1(p)), ite(eq(p, i2), e2(q), ite(eq(q, i2), e2(p), ZERO))))
        lhs_ = Sum(i, n, Sum(j, n, ite(lt(i, j), diff(i, j), ZERO)))
        rhs = Sum(m, n, ite(and_(ne(m, i1), ne(m, i2)), add(e1(m), e2(m)), ZERO))
        vc.check_eq(lhs_, rhs, "lemma: pair sum changes by the terms of the two rows (%s)" % t)
        vc.it.ctx = save
contract("lemma: pair sum")(lemma)

def swapped(vc):
    """distances after exchanging X[i1,k] and X[i2,k]"""
    n, d = vc.dim("n", 2), vc.dim("d"); i1, i2, k = vc.int_("i1"), vc.int_("i2"), vc.int_("k")
    vc.assume(le(ZERO, i1), lt(i1, n), le(ZERO, i2), lt(i2, n), ne(i1, i2), le(ZERO, k), lt(k, d))
    new = lambda i, j: ite(eq(j, k), ite(eq(i, i1), app("X", i2, k), ite(eq(i, i2), app("X", i1, k), app("X", i, j))), app("X", i, j))
    old = lambda i, j: app("X", i, j); q = fresh("q")
    dd = lambda F, a, b: Sum(q, d, power(sub(F(a, q), F(b, q)), 2))
    vc.check_eq(dd(new, i1, i2), dd(old, i1, i2), "lemma: distance between the two exchanged rows unchanged")
    def other(a, b):
        vc.assume(ne(a, i1), ne(a, i2), ne(b, i1), ne(b, i2))
        vc.check_eq(dd(new, a, b), dd(old, a, b), "lemma: distances between the other rows unchanged")
    vc.forall((n, n), other)
    pi = lambda i, j: ite(eq(j, k), ite(eq(i, i1), i2, ite(eq(i, i2), i1, i)), i)
    def perm(i, j):
        vc.check_eq(pi(pi(i, j), j), i, "lemma: the row map of a column is its own inverse"); vc.check(and_(le(ZERO, pi(i, j)), lt(pi(i, j), n)), "lemma: the row map stays among the rows")
        for c, z in ((eq(i, i1), "first"), (eq(i, i2), "second"), (and_(ne(i, i1), ne(i, i2)), "other")):
            save = vc.it.ctx; vc.assume(c); vc.check_eq(new(i, j), app("X", pi(i, j), j), "lemma: every column of the exchanged design is a permutation of the old column (%s row)" % z); vc.it.ctx = save
    vc.forall((n, d), perm)
contract("lemma: exchanged design")(swapped)

def lam(it, X):
    i, j = fresh("i"), fresh("j")
    return norm_T(Lam(i, X.shape[0], Lam(j, X.shape[1], X.get((i, j)))), it.ctx)
def search(J, hist, defaults):
    """designs are arbitrary arrays; phi is the space-filling measure, perm(X, X0) says each column of X permutes that of X0"""
    def f(vc):
        it = vc.it; n, d = vc.dim("n", 2), vc.dim("d"); X0 = vc.arr("X0", n, d); p = num(10) if defaults else vc.dim("p")
        phi = lambda X, q=None: norm_T(app("phi", lam(it, X), p if q is None else S(q)), it.ctx)
        perm = lambda X: eq(app("perm", lam(it, X)), ONE)
        vc.assume(perm(X0))
        def measure(it, a, kw):
            q = kw.get("p", a[2] if len(a) > 2 else 10); return phi(a[1], q)
        it.stubs[L + "._PhiP"] = measure
        cnt = [0]
        def exch(it, a, kw):
            args = dict(zip(("self", "X", "k", "PhiP_", "p", "fixed_index"), a)); args.update(kw)
            X = args["X"]; vc.check_eq(S(args["p"]), p, "exponent reaches the exchange")
            vc.check_eq(S(args["PhiP_"]), phi(X), "measure handed to the exchange is that of the design handed over")
            vc.check(perm(X), "design handed over permutes the columns of the start")
            vc.check(and_(le(neg(d), S(args["k"])), lt(S(args["k"]), d)), "exchange in an existing column")
            fi = it.seq_of(args["fixed_index"]) ; vc.require(fi == [] , "fixed rows reach the exchange")
            cnt[0] += 1; nm = "U%d" % cnt[0]
            i, j = fresh("i"), fresh("j"); X.store.put("fn", ((i, j), app(nm, i, j)))
            vc.assume(perm(X)); return phi(X)
        it.stubs[L + "._PhiP_exchange"] = exch
        def argmin(it, a, kw):
            v = [a[0].get((num(q),)) for q in range(J)]
            for q in range(J - 1):
                if it.decide(and_(*[le(v[q], w) for w in v])): return q
            vc.assume(*[le(v[-1], w) for w in v]); return J - 1
        it.natives["numpy.argmin"] = argmin
        rs = Obj(None); rs.c["rand"] = Native(lambda it, a, kw: mkarr((ONE,), lambda i: vc.real("rnd%d" % cnt[0])), "rand")
        sm = lhs(vc); sm.c["random_state"] = rs
        start = phi(X0)
        def inv(env, k):
            c = env.c
            return [("current measure belongs to the current design", eq(S(c["PhiP_"]), phi(c["X_"]))), ("best measure belongs to the best design", eq(S(c["PhiP_best"]), phi(c["X_best"]))),
                    ("best is not worse than the current design", le(S(c["PhiP_best"]), S(c["PhiP_"]))), ("best is not worse than the start", le(S(c["PhiP_best"]), start)), ("current design permutes the start", perm(c["X_"])), ("best design permutes the start", perm(c["X_best"])),
                    ("starting design untouched", eq(lam(it, X0), lam(it, vc.arr("X0", n, d))))]
        def extra(env, k):
            for nm in ("hist_T", "hist_proba", "hist_PhiP"):
                env.c[nm].put("items", SymSeq(var("len_" + nm, "I"), lambda i, nm=nm: app(nm, i)))
        for nm in ("z", "i"): vc.invariant(L + "._maximinESE", inv, extra=extra, match=lambda st, nm=nm: type(st).__name__ == "For" and st.target.id == nm)
        kw = {} if defaults else dict(T0=vc.real("T0"), outer_loop=vc.dim("outer"), inner_loop=vc.dim("inner"), tol=vc.real("tol"), p=p)
        r = vc.method(sm, "_maximinESE", X0, J=J, return_hist=hist, **kw)
        best = r[0] if hist else r
        vc.check(perm(best), "returned design permutes the columns of the start"); vc.check(le(phi(best), start), "returned design is not worse than the start")
        vc.check_arr(X0, (n, d), lambda i, j: app("X0", i, j), "starting design not modified")
    return f
for J, h, dft in ((1, True, False), (2, False, False), (3, True, False), (2, True, True)):
    contract("LHS._maximinESE J=%d hist=%s defaults=%s" % (J, h, dft), maxpaths=256)(search(J, h, dft))
