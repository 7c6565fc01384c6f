"""P07  Nested Latin hypercube designs are nested with doubling sizes."""
from pyvc.contract import *
contract = Registry()
ASSUMPTIONS = ["the samples drawn by LHS have the requested size and lie in the limits (decided by P04)", "numpy.delete removes the rows with the given distinct indices and keeps the others in order",
    "no row runs out of nearest neighbours that are still free (distances from one point to the points of the next level are pairwise different)", "1 to 4 fidelity levels per contract, any number of points and dimensions",
    "distinctness of all removed indices follows from each appended index differing from the earlier ones (induction over the loop)"]
M = "smt.applications.mfk:NestedLHS"

def nested(L):
    def f(vc):
        it = vc.it; n, nx = vc.dim("n"), vc.dim("nx"); xl = vc.arr("xl", nx, 2)
        box = lambda x, k: [le(app("xl", k, ZERO), x), le(x, app("xl", k, ONE))]
        sizes = []
        def sample(it, a, kw):
            vc.require(it.getitem(it.getattr(a[0], "options"), "xlimits") is xl, "limits reach the sampling")
            m = norm_T(S(a[1]), it.ctx); nm = "doe%d" % len(sizes); sizes.append(m)
            vc.axiom(nm, lambda i, k: box(app(nm, i, k), k)); return vc.arr(nm, m, nx)
        for p in ("sampling_method:ScaledSamplingMethod.__call__", "sampling_method:SamplingMethod.__call__"): it.stubs["smt.sampling_methods." + p] = sample
        def sort(it, a, kw):
            x = a[0]
            if isinstance(x, PyList):
                v = [S(q) for q in x.items]
                for p, q in zip(v, v[1:]): vc.check(le(q, p), "sizes decrease")
                return it.np.asarr(PyList(v[::-1]))
            return mkarr(x.shape, lambda i: app("sorted", i, num(id_(x))))
        cnt = [0]
        def id_(x): cnt[0] += 1; return cnt[0]
        it.natives["numpy.sort"] = sort
        wc = [0]
        def where(it, a, kw):
            wc[0] += 1; l = var("l%d" % wc[0], "I"); c = a[0]
            vc.assume(le(ZERO, l), lt(l, c.shape[0])); return (mkarr((ONE,), lambda i: l, "i"),)
        it.natives["numpy.where"] = where
        def cd(it, a, kw):
            x, y = a[0], a[1]; cnt[0] += 1; t = cnt[0]
            return mkarr((x.shape[0], y.shape[0]), lambda i, j: app("dist", i, j, num(t)))
        it.natives["scipy.spatial.distance.cdist"] = cd
        dc = [0]
        def delete(it, a, kw):
            x, ind = a[0], a[1]; s = ind.items
            vc.require(kw.get("axis") == 0, "rows removed")
            vc.require(isinstance(s, SymSeq), "list of removed rows")
            dc[0] += 1; nm = "kept%d" % dc[0]; c = s.n; N = x.shape[0]
            i = fresh("i"); vc.check(le(c, N), "no more rows removed than there are")
            vc.require(norm_T(app("ind", s_probe, num(lev[0]), s="I"), it.ctx) is norm_T(s.f(s_probe), it.ctx), "removed rows are those collected by the loop")
            vc.axiom(nm, lambda r: [and_(le(ZERO, app(nm, r, s="I")), lt(app(nm, r, s="I"), N))])
            return mkarr((norm_T(sub(N, c), it.ctx), x.shape[1]), lambda r, k: x.get((app(nm, r, s="I"), k)))
        havoced = {}; s_probe = var("probe", "I"); lev = [0]
        it.natives["numpy.delete"] = delete
        def bound(env): return env.c["doe"].items[env.c["i"] - 1].shape[0]
        def inv(env, k):
            s = env.c["ind"].items; N = bound(env)
            ln = s.n if isinstance(s, SymSeq) else num(len(s)); q = fresh("q")
            out = [("one index per point of the finer level", eq(ln, k))]
            if isinstance(s, SymSeq) and not havoced.pop(0, 0):
                last = S(s.f(sub(ln, 1)))
                out += [("collected index is a row of the coarser level", or_(eq(ln, ZERO), and_(le(ZERO, last), lt(last, N)))),
                        ("collected index was not collected before", or_(eq(ln, ZERO), not_(binder("exists", q, sub(ln, 1), eq(S(s.f(q)), last)))))]
            return out
        def extra(env, k):
            lev[0] += 1; t = lev[0]; havoced[0] = 1
            env.c["ind"].put("items", SymSeq(k, lambda i: app("ind", i, num(t), s="I")))
        vc.invariant(M + ".__call__", inv, extra=extra, match=lambda st: type(st).__name__ == "For" and getattr(st.target, "id", None) == "j")
        def hav(nm):
            def g(k):
                wc[0] += 1; return var("h%d_%s" % (wc[0], nm), "I")
            return g
        def winv(env, k): return [("neighbour index is a row", and_(le(ZERO, S(env.c["l"])), lt(S(env.c["l"]), bound(env)))), ("position in the neighbour list", le(ZERO, S(env.c["m"])))]
        def wextra(env, k): vc.assume(lt(add(S(env.c["m"]), 1), bound(env)))
        vc.invariant(M + ".__call__", winv, havoc={"l": hav("l"), "m": hav("m")}, extra=wextra, match=lambda st: type(st).__name__ == "While")
        o = vc.new(M, L, xl)
        r = it.call(o, [n], {}) if False else vc.method(o, "__call__", n)
        doe = it.seq_of(r); vc.require(isinstance(doe, list) and len(doe) == L, "one design per level")
        for q in range(L):
            vc.check_shape(doe[q], (mul(n, num(2 ** (L - 1 - q))), nx), "design of level %d has twice the points of the next, the last the requested number" % q)
            vc.forall((mul(n, num(2 ** (L - 1 - q))), nx), lambda i, k: [vc.check(c, "level %d inside the limits" % q) for c in box(doe[q].get((i, k)), k)])
        for q in range(1, L):
            N, m = doe[q - 1].shape[0], doe[q].shape[0]
            vc.forall((m, nx), lambda i, k: vc.check_eq(doe[q - 1].get((add(sub(N, m), i), k)), doe[q].get((i, k)), "every point of level %d is a point of level %d" % (q, q - 1)))
        vc.check_arr(xl, (nx, num(2)), lambda k, j: app("xl", k, j), "limits not modified")
    return f
for L in (1, 2, 3, 4): contract("NestedLHS levels=%d" % L, timeout=120)(nested(L))
