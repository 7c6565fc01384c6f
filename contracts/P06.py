"""P06  Full factorial samples are complete grids."""
from pyvc.contract import *
contract = Registry()
ASSUMPTIONS = ["numpy.argmax returns an index of its array; numpy.meshgrid(indexing='ij') and reshape enumerate the grid in row-major order",
    "the number of dimensions is fixed per contract (1 to 6); level counts, numbers of points and weights are arbitrary", "termination of the level search is not claimed (each pass raises one level count)"]
F = "smt.sampling_methods.full_factorial:FullFactorial"

def level(c, m): return ite(lt(ONE, m), mul(c, power(sub(m, 1), -1)), ZERO)

def grid(nx, clip, weighted, unit):
    def f(vc):
        nt = vc.dim("nt")
        xl = vc.arr("xl", nx, 2)
        kw = dict(xlimits=xl, clip=clip)
        if weighted:
            w = vc.arr("w", nx); kw["weights"] = w
        sm = vc.new(F, **kw)
        vc.axiom("lev", lambda i: [le(ONE, app("lev", i, s="I"))])
        rec = {}
        def extra(env, k):
            a = env.c["num_list"]; v = fresh("n"); a.store.put("fn", ((v,), app("lev", v, s="I")))
            rec["n"] = a
        def inv(env, k):
            a = env.c["num_list"]
            return [("level counts are positive (dimension %d)" % q, le(ONE, a.get((num(q),)))) for q in range(nx)]
        vc.invariant(F + "._compute", inv, extra=extra, match=lambda st: type(st).__name__ == "While")
        x = vc.method(sm, "_compute", nt) if unit else vc.call(sm, nt)
        n = [norm_T(app("lev", num(q), s="I"), vc.it.ctx) for q in range(nx)]
        total = ONE
        for q in n: total = mul(total, q)
        vc.check(le(nt, total), "the level counts multiply to at least the requested number")
        N = total if clip else nt
        vc.check_shape(x, (N, nx), "sample")
        def digits(r):
            out = []
            st = ONE
            for q in range(nx - 1, -1, -1):
                d = fdiv(r, st); out.insert(0, fmod(d, n[q]) if q else d); st = norm_T(mul(st, n[q]), vc.it.ctx)
            return out
        def row(r):
            vc.assume(lt(r, total))
            c = digits(r)
            for q in range(nx):
                s = level(c[q], n[q])
                if not unit: s = add(app("xl", num(q), ZERO), mul(s, sub(app("xl", num(q), ONE), app("xl", num(q), ZERO))))
                vc.check_eq(x.get((r, num(q))), s, "coordinate %d is an equally spaced level of its dimension" % q)
                vc.check(and_(le(ZERO, c[q]), lt(c[q], n[q])), "level number %d exists" % q)
            st = ONE; t = ZERO
            for q in range(nx - 1, -1, -1): t = add(t, mul(c[q], st)); st = mul(st, n[q])
            vc.check_eq(t, r, "row number is the mixed-radix number of its level numbers: distinct rows, each combination once")
        vc.forall((N,), row)
        if weighted: vc.check_arr(w, (nx,), lambda k: app("w", k), "weights not modified")
        vc.check_arr(xl, (num(nx), num(2)), lambda k, j: app("xl", k, j), "limits not modified")
    return f
for nx in (1, 2, 3, 4, 5, 6):
    for clip in (False, True):
        for wt in (False, True):
            contract("FullFactorial._compute nx=%d clip=%s weights=%s" % (nx, clip, wt), timeout=200)(grid(nx, clip, wt, True))
contract("FullFactorial() scaled nx=2")(grid(2, False, False, False))
