"""P18  Spline and cubic tensor bases are consistent."""
import ast
from pyvc.contract import *
contract = Registry()
ASSUMPTIONS = ["C++: machine integers and doubles as mathematical numbers; memory is bounds-checked by obligations, deallocation is not modelled",
    "tensor dimensions 1 to 3 are verified one by one (all sizes symbolic); orders, control-point counts and element counts are symbolic"]
L = "smt.surrogate_models.rmtsclib:"

def sizes(vc):
    o, ncp = vc.dim("o"), vc.dim("ncp"); vc.assume(le(o, ncp))
    return o, ncp
def knot(o, ncp, i): return mul(add(sub(i, o), 1), power(add(sub(ncp, o), 1), -1))

def knots(vc):
    o, ncp = sizes(vc)
    a = vc.arr("kn", add(o, ncp))
    vc.call(L + "compute_knot_vector_uniform", o, ncp, a)
    vc.check_arr(a, (add(o, ncp),), lambda i: knot(o, ncp, i), "knots are uniform, knot order-1 at 0 and knot ncp at 1")
contract("compute_knot_vector_uniform")(knots)

def istart(vc):
    o, ncp = sizes(vc); m = add(sub(ncp, o), 1)
    s = vc.real("s"); vc.assume(le(ZERO, s), lt(s, m))
    p = mul(s, power(m, -1))
    a = mkarr((add(o, ncp),), lambda i: knot(o, ncp, i))
    def inv(env, k):
        i = env.c["istart"]
        return [("either no span found and the parameter lies beyond, or the span contains it", or_(and_(eq(i, num(-1)), le(k, s)), and_(le(ZERO, i), lt(i, k), le(i, s), lt(s, add(i, 1)))))]
    vc.invariant(L + "compute_i_start", inv, havoc={"istart": lambda k: var("ist", "I")})
    r = vc.call(L + "compute_i_start", o, ncp, p, a)
    vc.check(and_(le(ZERO, r), le(r, sub(ncp, o))), "first control point index is between 0 and ncp - order")
    vc.check(and_(le(r, s), lt(s, add(r, 1))), "the parameter lies in the span of that index")
contract("compute_i_start for a parameter in [0, 1)")(istart)

def span(vc, o, ncp):
    """the contract of compute_i_start as its stub; -> parameter times the number of spans"""
    m = add(sub(ncp, o), 1)
    s = vc.real("s"); vc.assume(le(ZERO, s), lt(s, m))
    i = vc.int_("is"); vc.assume(le(ZERO, i), le(i, sub(ncp, o)), le(i, s), lt(s, add(i, 1)))
    p = mul(s, power(m, -1))
    def stub(it, a, kw):
        O, N, P, K = list(a)
        it.oblige("pre", and_(eq(O, o), eq(N, ncp), eq(P, p)), "compute_i_start called with its arguments")
        return i
    vc.it.stubs[L + "compute_i_start"] = stub
    return s, i, p, mkarr((add(o, ncp),), lambda j: knot(o, ncp, j))

def basis0(vc):
    o, ncp = sizes(vc); s, i0, p, kn = span(vc, o, ncp)
    b = vc.arr("bin", o)
    vc.axiom("H", lambda j: [le(ZERO, app("H", j))])
    total = [ONE]        # sum of the entries before the iteration (the invariant states that it is one)
    def cur(env, k):
        env.c["basis0_vec"].write(lambda i: TRUE, lambda i: ite(lt(i[0], sub(sub(o, 1), k)), ZERO, app("H", i[0])))
        t = fresh("t"); total[0] = Sum(t, o, env.c["basis0_vec"].get((t,))); vc.assume(eq(total[0], ONE))
    j = var("J", "I"); vc.assume(le(ZERO, j), lt(j, o))
    def inv(env, k):
        a = env.c["basis0_vec"]; t = fresh("t")
        return [("nonnegative entries", le(ZERO, a.get((j,)))), ("zero before the window", or_(le(sub(sub(o, 1), k), j), eq(a.get((j,)), ZERO))),
                ("sum of the entries unchanged (one)", eq(Sum(t, o, a.get((t,))), total[0]))]
    vc.invariant(L + "compute_basis_0", inv, extra=cur, match=lambda st: st.target.id == "i" and any(isinstance(x, ast.For) for x in ast.walk(ast.Module(st.body, []))))
    r = vc.call(L + "compute_basis_0", o, ncp, p, kn, b)
    vc.check(eq(r, i0), "first control point index returned")
    vc.check(le(ZERO, b.get((j,))), "basis functions are nonnegative")
    t = fresh("t"); vc.check_eq(Sum(t, o, b.get((t,))), total[0], "basis functions sum to one")
contract("compute_basis_0: nonnegative, partition of unity")(basis0)

def reference(vc, o, ncp, i0):
    """the Cox-de Boor recursion over the uniform knots: B(k, j) is the basis function of order k+1 belonging to window position j,
    as a function of the parameter; dB and ddB its derivatives by differentiating the recursion"""
    p = vc.real("p"); m = add(sub(ncp, o), 1)
    ORD = ["B", "dB", "ddB"]
    for a, b in zip(ORD, ORD[1:]): nm.DERIV[a] = lambda args, tgt, d, b=b: app(b, *args)
    def step(k, j):
        """order k+2 at position j from order k+1"""
        kn = lambda q: knot(o, ncp, add(i0, q))
        i = add(k, 1); den = lambda q: power(sub(kn(add(q, i)), kn(q)), -1)
        val = lambda q: ite(or_(lt(q, sub(sub(o, 1), k)), le(o, q)), ZERO, app("B", k, q))
        return add(mul(sub(p, kn(j)), den(j), val(j)), mul(sub(kn(add(j, add(i, 1))), p), den(add(j, 1)), val(add(j, 1))))
    def level(order, k, j):
        """entry j of the derivative `order` of the basis of order k+1 (zero outside the window)"""
        return ite(or_(lt(j, sub(sub(o, 1), k)), le(o, j)), ZERO, app(ORD[order], k, j))
    def facts(k, j):
        """definition of the reference at (k+1, j), and its start at k = 0"""
        out = []; t = step(k, j)
        for q in range(3):
            out.append(or_(lt(j, sub(sub(o, 2), k)), le(o, j), eq(app(ORD[q], add(k, 1), j), t)))
            t = vc.D(t, p)
        return out
    def start(j):
        return [eq(app("B", ZERO, sub(o, 1)), ONE), eq(app("dB", ZERO, sub(o, 1)), ZERO), eq(app("ddB", ZERO, sub(o, 1)), ZERO)]
    return p, level, facts, start

def basis(order):
    def f(vc):
        o, ncp = sizes(vc); i0 = vc.int_("is"); vc.assume(le(ZERO, i0), le(i0, sub(ncp, o)))
        p, level, facts, start = reference(vc, o, ncp, i0)
        def stub(it, a, kw):
            O, N, P, K = list(a)
            it.oblige("pre", and_(eq(O, o), eq(N, ncp), eq(P, p)), "compute_i_start called with its arguments")
            return i0
        vc.it.stubs[L + "compute_i_start"] = stub
        kn = mkarr((add(o, ncp),), lambda j: knot(o, ncp, j))
        b = vc.arr("bin", o); name = "basis%d_vec" % order
        j = var("J", "I"); vc.assume(le(ZERO, j), lt(j, o), *start(j))
        names = ["basis%d_vec" % q for q in range(order + 1)] if order else [name]
        def cur(env, k):
            for q, nm_ in enumerate(names): env.c[nm_].write(lambda i: TRUE, lambda i, q=q: level(q, k, i[0]))
            vc.assume(*facts(k, j))
        def inv(env, k):
            return [("%s holds the derivative of order %d of the basis functions" % (nm_, q), eq(env.c[nm_].get((j,)), level(q, k, j))) for q, nm_ in enumerate(names)]
        q = L + "compute_basis_%d" % order
        vc.invariant(q, inv, extra=cur, match=lambda st: st.target.id == "i" and any(isinstance(x, ast.For) for x in ast.walk(ast.Module(st.body, []))))
        r = vc.call(q, o, ncp, p, kn, b)
        vc.check(eq(r, i0), "first control point index returned")
        vc.check_eq(b.get((j,)), app(["B", "dB", "ddB"][order], sub(o, 1), j), "entries are the derivative of order %d of the Cox-de Boor basis functions" % order)
    return f
for q_ in range(3): contract("compute_basis_%d equals derivative %d of the reference recursion" % (q_, q_))(basis(q_))

# ------------------------------------------------------------------ tensor rows of the B-spline surrogate
def basis_stub(vc):
    """contract of compute_basis_q: writes derivative q of the basis functions at the parameter, returns the first control point index"""
    ORD = ["B", "dB", "ddB"]
    for a, b in zip(ORD, ORD[1:]):
        nm.DERIV[a] = lambda args, tgt, d, b=b: mul(app(b, *args), vc.D(args[2], tgt))
    vc.axiom("B", lambda o, ncp, p, j: [le(ZERO, app("B", o, ncp, p, j))])
    vc.axiom("IS", lambda o, ncp, p: [or_(lt(ncp, o), and_(le(ZERO, app("IS", o, ncp, p, s="I")), le(app("IS", o, ncp, p, s="I"), sub(ncp, o))))])
    for q in range(3):
        def stub(it, a, kw, q=q):
            O, N, P, K, V = list(a)
            it.oblige("pre", and_(le(ONE, O), le(O, N), le(ZERO, P), lt(P, ONE)), "order between one and the number of control points, parameter in the unit interval")
            j = fresh("j")
            sv = it.ctx; it.ctx = it.ctx.extend(le(ZERO, j), lt(j, add(O, N)))
            it.oblige("pre", eq(K.get((j,)), knot(O, N, j)), "uniform knots of this dimension"); it.ctx = sv
            it.oblige("pre", eq(V.shape[0], O), "room for the basis functions")
            V.write(lambda i: TRUE, lambda i: app(ORD[q], O, N, P, i[0]))
            return norm_T(app("IS", O, N, P, s="I"), it.ctx)
        vc.it.stubs[L + "compute_basis_%d" % q] = stub

def limits(vc, nx):
    """bounds lo and lo + wd of the box, wd positive"""
    vc.positive("wd")
    return mkarr((num(nx), num(2)), lambda k, c: add(app("lo", k), ite(eq(c, ONE), app("wd", k), ZERO)))

def rmtb(vc, nx):
    ol, nl = [vc.dim("o%d" % k) for k in range(nx)], [vc.dim("c%d" % k) for k in range(nx)]
    for a, b in zip(ol, nl): vc.assume(le(a, b))
    nt, ny = vc.dim("nt"), vc.dim("ny")
    lim = limits(vc, nx)
    pick = lambda l: mkarr((num(nx),), lambda i: l[0] if nx == 1 else ite(eq(i, ZERO), l[0], l[1] if nx == 2 else ite(eq(i, ONE), l[1], l[2])), dtype="i")
    sm = vc.new("smt.surrogate_models.rmtb:RMTB", xlimits=lim, order=pick(ol), num_ctrl_pts=pick(nl), print_global=False)
    vc.method(sm, "set_training_values", vc.arr("xt", nt, num(nx)), vc.arr("yt", nt, ny))
    vc.method(sm, "_setup")
    return sm, ol, nl

ORD = ["B", "dB", "ddB"]
def entries(vc, nx, ix1, ix2):
    """rows computed by RMTB::compute_jac (through the Cython wrapper) at parameters t in [0, 1)"""
    basis_stub(vc)
    vc.axiom("t", lambda i, k: [and_(le(ZERO, app("t", i, k)), lt(app("t", i, k), ONE))])
    sm, ol, nl = rmtb(vc, nx); n = vc.dim("n"); nnz = mul(*ol)
    t = vc.arr("t", n, num(nx)); d, r, c = (vc.arr(q, mul(n, nnz), s=s_) for q, s_ in (("d", "R"), ("r", "I"), ("c", "I")))
    vc.method(vc.attr(sm, "rmtsc"), "compute_jac", num(ix1), num(ix2), n, vc.it.np.reshape(t, (mul(n, num(nx)),)), d, r, c)
    return ol, nl, n, nnz, d, r, c
def flat(a, sizes):
    e = ZERO
    for x, s in zip(a, sizes): e = add(mul(e, s), x)
    return e
def rmtb_jac(nx, ix1, ix2):
    def f(vc):
        ol, nl, n, nnz, d, r, c = entries(vc, nx, ix1, ix2)
        def at(i, *a):
            e = add(mul(i, nnz), flat(a, ol))
            P = [app("t", i, num(k)) for k in range(nx)]
            vc.check_eq(d.get((e,)), mul(*[app(ORD[(k == ix1) + (k == ix2)], ol[k], nl[k], P[k], a[k]) for k in range(nx)]), "entry is the product of the basis functions (their derivatives in the requested directions)")
            IS = [app("IS", ol[k], nl[k], P[k], s="I") for k in range(nx)]
            vc.check_eq(r.get((e,)), i, "row is the point")
            C = [add(IS[k], a[k]) for k in range(nx)]
            vc.check_eq(c.get((e,)), flat(C, nl), "column is the flattened index of the control points")
            for k in range(nx): vc.check(and_(le(ZERO, C[k]), lt(C[k], nl[k])), "control point index exists in each dimension")
            if ix1 < 0 and ix2 < 0: vc.check(le(ZERO, d.get((e,))), "entries are nonnegative")
        vc.forall((n, *ol), at)
        if ix1 < 0 and ix2 < 0:
            def tot(i):
                e = fresh("e")
                vc.check_eq(Sum(e, nnz, d.get((add(mul(i, nnz), e),))), mul(*[(lambda j: Sum(j, ol[k], app("B", ol[k], nl[k], app("t", i, num(k)), j)))(fresh("j")) for k in range(nx)]), "the row sums to the product of the sums of the basis functions (each one)")
            vc.forall((n,), tot)
    return f
for nx_ in (1, 2, 3):
    for a_ in range(-1, nx_):
        for b_ in range(-1, nx_):
            contract("RMTB::compute_jac, %d inputs, directions %d and %d" % (nx_, a_, b_))(rmtb_jac(nx_, a_, b_))

def rmtb_raw(nx, ix1, ix2):
    def f(vc):
        basis_stub(vc)
        EPS = num(Fraction(1, 10**15))
        vc.axiom("u", lambda i, k: [and_(le(EPS, app("u", i, k)), le(app("u", i, k), sub(ONE, EPS)))])
        sm, ol, nl = rmtb(vc, nx); n = vc.dim("n"); nnz = mul(*ol)
        w = lambda k: app("wd", num(k))
        x = mkarr((n, num(nx)), lambda i, k: add(app("lo", k), mul(app("u", i, k), app("wd", k))))
        d0, _, c0 = vc.method(sm, "_compute_jac_raw", ZERO, ZERO, x)
        d, r, c = vc.method(sm, "_compute_jac_raw", num(ix1 + 1), num(ix2 + 1), x)
        def at(i, *a):
            e = add(mul(i, nnz), flat(a, ol)); v = norm_T(d0.get((e,)), vc.it.ctx)
            for k in (ix1, ix2):
                if k >= 0: v = mul(vc.D(v, app("u", i, num(k))), power(w(k), -1))
            vc.check_eq(d.get((e,)), v, "derivative row is the derivative of the value row with respect to the inputs, input scaling included")
            vc.check_eq(c.get((e,)), c0.get((e,)), "same control points")
            vc.check_eq(r.get((e,)), i, "row is the point")
        vc.forall((n, *ol), at)
    return f
for nx_ in (1, 2, 3):
    for a_ in range(-1, nx_):
        for b_ in range(-1, nx_):
            if (a_, b_) != (-1, -1) and (nx_ < 3 or a_ != -1): contract("RMTB._compute_jac_raw, %d inputs, derivative rows in directions %d and %d" % (nx_, a_, b_), thorough=nx_ == 3)(rmtb_raw(nx_, a_, b_))

def rmtb_outside(vc):
    """any points, outside the box included: the parameters handed to the basis functions stay in [0, 1) (precondition of the basis functions)"""
    basis_stub(vc)
    for nx in (1, 2):
        sm, ol, nl = rmtb(vc, nx); n = vc.dim("n"); x = vc.arr("x", n, num(nx))
        d, r, c = vc.method(sm, "_compute_jac_raw", ZERO, ZERO, x)
        vc.forall((n, *ol), lambda i, *a: vc.check(and_(le(ZERO, c.get((add(mul(i, mul(*ol)), flat(a, ol)),))), lt(c.get((add(mul(i, mul(*ol)), flat(a, ol)),)), mul(*nl))), "column addresses an existing coefficient"))
contract("RMTB._compute_jac_raw at any points")(rmtb_outside)

# ------------------------------------------------------------------ cubic Hermite elements
def rmtc(vc, nx):
    el = [vc.dim("el%d" % k) for k in range(nx)]
    nt, ny = vc.dim("nt"), vc.dim("ny")
    sm = vc.new("smt.surrogate_models.rmtc:RMTC", xlimits=limits(vc, nx), num_elements=mkarr((num(nx),), lambda i: pickn(el, i), dtype="i"), print_global=False)
    vc.method(sm, "set_training_values", vc.arr("xt", nt, num(nx)), vc.arr("yt", nt, ny))
    vc.method(sm, "_setup")
    return sm, el
def pickn(l, i):
    r = l[-1]
    for k in range(len(l) - 2, -1, -1): r = ite(eq(i, num(k)), l[k], r)
    return r

def interval(vc):
    sm, el = rmtc(vc, 1); o = vc.attr(vc.attr(sm, "rmtsc"), "thisptr")
    v = vc.real("v"); N = el[0]
    for lab, cond in (("inside", and_(le(ZERO, v), le(v, N))), ("below", lt(v, ZERO)), ("above", lt(N, v))):
        save = vc.it.ctx; vc.assume(cond)
        x = add(app("lo", ZERO), mul(app("wd", ZERO), v, power(N, -1)))
        ind, xb = vc.arr("ind", num(1), s="I"), vc.arr("xb", num(1))
        vc.method(o, "find_interval", ZERO, N, x, ind, xb)
        i, b = ind.get((ZERO,)), xb.get((ZERO,))
        vc.check(and_(le(ZERO, i), lt(i, N)), "element exists (%s)" % lab)
        vc.check(and_(le(num(-1), b), le(b, ONE)), "local coordinate between -1 and 1 (%s)" % lab)
        if lab == "inside":
            vc.check(and_(le(i, v), le(v, add(i, 1))), "the point lies in that element")
            vc.check_eq(b, sub(mul(2, sub(v, i)), 1), "local coordinate is the affine map of the element to [-1, 1]")
        else: vc.check(and_(eq(i, ZERO if lab == "below" else sub(N, 1)), eq(b, num(-1) if lab == "below" else ONE)), "nearest boundary (%s)" % lab)
        vc.it.ctx = save
contract("RMTC::find_interval")(interval)

def interval_stub(vc, el):
    """contract of find_interval: element index and local coordinate of the point in dimension ix"""
    nm.DERIV["XB"] = lambda args, tgt, d: mul(2, args[1], power(app("wd", args[0]), -1), vc.D(args[2], tgt))     # the affine map of the element
    vc.axiom("IX", lambda ix, N, x: [or_(lt(N, ONE), and_(le(ZERO, app("IX", ix, N, x, s="I")), lt(app("IX", ix, N, x, s="I"), N)))])
    def stub(it, a, kw):
        self, ix, N, x, ind, xb = list(a)
        it.oblige("pre", eq(N, pickn(el, num(ix))), "element count of this dimension")
        ind.write(lambda i: eq(i[0], ZERO), lambda i: app("IX", num(ix), N, x, s="I"))
        xb.write(lambda i: eq(i[0], ZERO), lambda i: app("XB", num(ix), N, x))
        return None
    vc.it.stubs[L + "RMTC.find_interval"] = stub

def mono(q, a, b, dx):
    """derivative of order q of the monomial b^a times dx^q"""
    if q == 0: return power(b, a)
    if q == 1: return ite(le(ONE, a), mul(a, power(b, sub(a, 1)), dx), ZERO)
    return ite(le(num(2), a), mul(a, sub(a, 1), power(b, sub(a, 2)), dx, dx), ZERO)

def rmtc_obj(vc, nx):
    """an RMTC object with any numbers of elements and of terms per dimension"""
    el, tl = [vc.dim("el%d" % k) for k in range(nx)], [vc.dim("tl%d" % k) for k in range(nx)]
    o = vc.new(L + "PyRMTC"); lim = limits(vc, nx)
    lo, up = (mkarr((num(nx),), lambda i, c=c: lim.get((i, c))) for c in (ZERO, ONE))
    vc.method(o, "setup", num(nx), lo, up, mkarr((num(nx),), lambda i: pickn(el, i), dtype="i"), mkarr((num(nx),), lambda i: pickn(tl, i), dtype="i"))
    return o, el, tl

def rmtc_jac(nx, ix1, ix2):
    def f(vc):
        o, el, tl = rmtc_obj(vc, nx); n = vc.dim("n"); T4 = mul(*tl)
        interval_stub(vc, el)
        x = vc.arr("x", mul(n, num(nx)))
        d, r, c = (vc.arr(q, mul(n, T4), s=s_) for q, s_ in (("d", "R"), ("r", "I"), ("c", "I")))
        vc.method(o, "compute_jac", num(ix1), num(ix2), n, x, d, r, c)
        def at(i, *a):
            e = add(mul(i, T4), flat(a, tl))
            X = [app("x", add(mul(i, num(nx)), num(k))) for k in range(nx)]
            XB = [app("XB", num(k), el[k], X[k]) for k in range(nx)]
            vc.check_eq(d.get((e,)), mul(*[mono((k == ix1) + (k == ix2), a[k], XB[k], mul(2, el[k], power(app("wd", num(k)), -1))) for k in range(nx)]), "entry is the product of the monomials of the local coordinates (their derivatives in the requested directions)")
            vc.check_eq(r.get((e,)), i, "row is the point")
            I = [app("IX", num(k), el[k], X[k], s="I") for k in range(nx)]
            vc.check_eq(c.get((e,)), add(mul(flat(I, el), T4), flat(a, tl)), "column: term of the element containing the point")
            for k in range(nx): vc.check(and_(le(ZERO, I[k]), lt(I[k], el[k])), "the element exists in each dimension")
        vc.forall((n, *tl), at)
    return f
for nx_ in (1, 2, 3):
    for a_ in range(-1, nx_):
        for b_ in range(-1, nx_):
            contract("RMTC::compute_jac, %d inputs, directions %d and %d" % (nx_, a_, b_))(rmtc_jac(nx_, a_, b_))

def lemma_mono(vc):
    """the specification rows are derivatives of one another: derivative of order q+1 of a monomial is the derivative of the one of order q"""
    a = vc.int_("a"); vc.assume(le(ZERO, a)); b = vc.real("b"); vc.assume(ne(b, ZERO))
    dx = vc.real("dx"); nm.DERIV["loc"] = lambda args, tgt, d: dx
    for q in (0, 1):
        vc.check_eq(mono(q + 1, a, app("loc", b), dx), vc.D(mono(q, a, app("loc", b), dx), b), "monomial rows of order %d and %d" % (q, q + 1))
contract("lemma: monomial rows are derivatives of one another")(lemma_mono)

DERIVS, SIDES = (0, 0, 1, 1), (-1, 1, -1, 1)
def digits(nx): return list(itertools.product(range(4), repeat=nx))
def rank(a, base=4):
    e = 0
    for q in a: e = e * base + q
    return e
def four(vc, nx):
    """the object as RMTC sets it up: four terms per dimension"""
    sm, el = rmtc(vc, nx)
    return sm, el, vc.attr(sm, "rmtsc")
def coeff2nodal(nx):
    def f(vc):
        sm, el, o = four(vc, nx); T4 = 4 ** nx
        vc.check(eq(vc.attr(sm, "num").d["coeff"], mul(num(T4), *el)), "one coefficient per element and term")
        vc.check(eq(vc.attr(sm, "num").d["dof"], mul(num(2 ** nx), *[add(e, 1) for e in el])), "one degree of freedom per node and derivative combination")
        m = vc.arr("m", num(T4 * T4)); vc.method(o, "compute_coeff2nodal", m)
        for r in digits(nx):
            for c in digits(nx):
                v = ONE
                for k in range(nx): v = mul(v, mono(DERIVS[r[k]], num(c[k]), num(SIDES[r[k]]), ONE))
                vc.check_eq(m.get((num(rank(r) * T4 + rank(c)),)), v, "value or slope of monomial %s at corner term %s" % (c, r))
    return f
for nx_ in (1, 2): contract("RMTC::compute_coeff2nodal, %d inputs" % nx_)(coeff2nodal(nx_))

def uniq2elem(nx):
    def f(vc):
        o, el, tl = rmtc_obj(vc, nx); vc.assume(*[eq(t, num(4)) for t in tl]); T4 = mul(*tl); E = mul(*el)
        d, r, c = (vc.arr(q, mul(E, T4), s=s_) for q, s_ in (("d", "R"), ("r", "I"), ("c", "I")))
        vc.method(o, "compute_uniq2elem", d, r, c)
        U = [add(e, 1) for e in el]
        def at(*ie):
            for a in digits(nx):
                z = add(mul(flat(ie, el), T4), flat([num(q) for q in a], tl)); lab = " (corner term %s)" % (a,)
                vc.check_eq(d.get((z,)), ONE, "entry is one" + lab)
                vc.check(eq(r.get((z,)), z), "row: that term of the element" + lab)
                node = [add(ie[k], num(int(SIDES[a[k]] > 0))) for k in range(nx)]
                want = add(mul(num(rank([DERIVS[q] for q in a], 2)), mul(*U)), flat(node, U))
                vc.check(eq(c.get((z,)), want), "column: the value or slope at the global node of that corner, shared by the neighbouring elements" + lab)
                vc.check(and_(*[and_(le(ZERO, node[k]), lt(node[k], U[k])) for k in range(nx)]), "the node exists" + lab)
        vc.forall(tuple(el), at)
    return f
for nx_ in (1, 2, 3): contract("RMTC::compute_uniq2elem, %d inputs" % nx_)(uniq2elem(nx_))

def block(nx):
    def f(vc):
        o, el, tl = rmtc_obj(vc, nx); T4 = mul(*tl); E = mul(*el)
        m = vc.arr("m", mul(T4, T4)); d, r, c = (vc.arr(q, mul(E, T4, T4), s=s_) for q, s_ in (("d", "R"), ("r", "I"), ("c", "I")))
        vc.method(o, "compute_full_from_block", m, d, r, c)
        def at(e, p, q):
            z = add(mul(add(mul(e, T4), p), T4), q)
            vc.check_eq(d.get((z,)), app("m", add(mul(p, T4), q)), "entry of the block")
            vc.check_eq(r.get((z,)), add(mul(e, T4), p), "row inside the block of the element"); vc.check_eq(c.get((z,)), add(mul(e, T4), q), "column inside the block of the element")
        vc.forall((E, T4, T4), at)
    return f
for nx_ in (1, 2): contract("RMTC::compute_full_from_block, %d inputs" % nx_)(block(nx_))

# ------------------------------------------------------------------ Python side of the cubic elements
def rmtc_raw(nx, ix1, ix2):
    """RMTC._compute_jac_raw hands the points, directions and arrays of the right sizes to compute_jac and returns what it wrote"""
    def f(vc):
        sm, el = rmtc(vc, nx); n = vc.dim("n"); x = vc.arr("x", n, num(nx)); T4 = 4 ** nx; rec = []
        def stub(it, a, kw):
            o, a1, a2, N, X, d, r, c = list(a); rec.append(1)
            vc.check(and_(eq(S(a1), num(ix1 - 1)), eq(S(a2), num(ix2 - 1)), eq(S(N), n)), "directions counted from zero, number of points")
            vc.check_shape(X, (mul(n, num(nx)),), "points"); vc.forall((n, num(nx)), lambda i, k: vc.check_eq(X.get((add(mul(i, num(nx)), k),)), app("x", i, k), "points in row order"))
            for q, s_ in ((d, "R"), (r, "I"), (c, "I")):
                vc.check_shape(q, (mul(n, num(T4)),), "one entry per point and term")
            for q, w, s_ in ((d, "D", "R"), (r, "W", "I"), (c, "C", "I")): q.write(lambda i: TRUE, lambda i, w=w, s_=s_: app(w, i[0], s=s_))
        vc.it.stubs[L + "PyRMTC.compute_jac"] = stub
        d, r, c = vc.method(sm, "_compute_jac_raw", num(ix1), num(ix2), x)
        vc.require(len(rec) == 1, "rows computed once")
        for q, w, s_ in ((d, "D", "R"), (r, "W", "I"), (c, "C", "I")): vc.check_arr(q, (mul(n, num(T4)),), lambda i, w=w, s_=s_: app(w, i, s=s_), "the rows computed are returned")
        vc.check_arr(x, (n, num(nx)), lambda i, k: app("x", i, k), "points not modified")
    return f
for nx_ in (1, 2, 3):
    for a_, b_ in ((0, 0), (nx_, 0), (1, nx_)): contract("RMTC._compute_jac_raw, %d inputs, directions %d and %d" % (nx_, a_, b_))(rmtc_raw(nx_, a_, b_))

def dof2coeff(nx):
    """RMTC._compute_dof2coeff is the block diagonal of the inverse of coeff2nodal times the map from nodal values"""
    def f(vc):
        sm, el = rmtc(vc, nx); T4 = 4 ** nx; E = mul(*el); nc = mul(num(T4), E); nd = mul(num(2 ** nx), *[add(e, 1) for e in el])
        W = lambda q, w, s_="R": q.write(lambda i: TRUE, lambda i: app(w, i[0], s=s_))
        def c2n(it, a, kw):
            o, m = list(a); vc.check_shape(m, (num(T4 * T4),), "coeff2nodal"); W(m, "m")
        def u2e(it, a, kw):
            o, d, r, c = list(a)
            for q, w, s_ in ((d, "ud", "R"), (r, "ur", "I"), (c, "uc", "I")): vc.check_shape(q, (nc,), "one entry per coefficient"); W(q, w, s_)
        inv = {}
        def ffb(it, a, kw):
            o, m, d, r, c = list(a); vc.check_shape(m, (num(T4 * T4),), "block")
            M = mkarr((num(T4), num(T4)), lambda i, j: app("m", add(mul(i, num(T4)), j))); Lm = norm_T(it.matlam(M), it.ctx)
            vc.forall((num(T4), num(T4)), lambda i, j: vc.check_eq(m.get((add(mul(i, num(T4)), j),)), app("inv", Lm, i, j), "block: inverse of coeff2nodal in row order"))
            for q, w, s_ in ((d, "bd", "R"), (r, "br", "I"), (c, "bc", "I")): vc.check_shape(q, (mul(num(T4), nc),), "one entry per pair of terms"); W(q, w, s_)
        for w, s_ in (("compute_coeff2nodal", c2n), ("compute_uniq2elem", u2e), ("compute_full_from_block", ffb)): vc.it.stubs[L + "PyRMTC." + w] = s_
        R_ = vc.method(sm, "_compute_dof2coeff")
        def bag(w, n, i, j):
            k = fresh("k"); return Sum(k, n, ite(and_(eq(app(w + "r", k, s="I"), i), eq(app(w + "c", k, s="I"), j)), app(w + "d", k), ZERO))
        def spec(i, j):
            q = fresh("q"); return Sum(q, nc, mul(bag("b", mul(num(T4), nc), i, q), bag("u", nc, q, j)))
        vc.check_arr(R_, (nc, nd), spec, "block matrix times the map from nodal values and slopes")
    return f
for nx_ in (1, 2): contract("RMTC._compute_dof2coeff, %d inputs" % nx_)(dof2coeff(nx_))

# grids of the base class
def quadrature(nx):
    def f(vc):
        o, el, tl = rmtc_obj(vc, nx); E = mul(*el); x = vc.arr("x", mul(E, num(nx)))
        vc.method(o, "compute_quadrature_points", E, mkarr((num(nx),), lambda i: pickn(el, i), dtype="i"), x)
        def at(*ie):
            for k in range(nx):
                vc.check_eq(x.get((add(mul(flat(ie, el), num(nx)), num(k)),)), add(app("lo", num(k)), mul(app("wd", num(k)), add(mul(2, ie[k]), 1), power(mul(2, el[k]), -1))), "centre of cell in direction %d" % k)
        vc.forall(tuple(el), at)
    return f
for nx_ in (1, 2, 3): contract("RMTS::compute_quadrature_points, %d inputs" % nx_)(quadrature(nx_))
