"""Loop summarisation: symbolic for-loops become closed forms.

Rules (each application is an obligation record):
  unique-writer : index idx is touched only by iteration i*(idx)   [z3 obligation]
  accumulate    : V' = V + E(i)   ->  V0 + sum_i E(i)
  product       : V' = V * E(i)   ->  V0 * prod_i E(i)
  overwrite     : V' = E(i)       ->  E(n-1)
  append        : one append per iteration -> symbolic sequence
Anything else is Unsupported (the function is then out of the verifier's reach)."""
from .terms import *
from .norm import *
from .arrays import *
from . import terms as tm

def vresolve(v, f):
    """apply term rewriting f to all scalar content of a value (copying arrays)"""
    from .interp import PyList, PyDict, SymSeq, Func, func_map
    if isinstance(v, T): return f(v)
    if isinstance(v, Arr):
        vs = tuple(fresh("i") for _ in v.shape)
        return Arr(Store([f(d) for d in v.shape], vs, f(v.get(vs)), v.dtype))
    if isinstance(v, tuple): return tuple(vresolve(x, f) for x in v)
    if isinstance(v, PyList):
        it = v.items
        if isinstance(it, SymSeq):
            r = PyList([]); r.c["items"] = SymSeq(f(it.n), lambda i: vresolve(it.f(i), f)); return r
        if not isinstance(it, list): raise Unsupported("list in loop")
        return PyList([vresolve(x, f) for x in it])
    if isinstance(v, Func): return func_map(v, lambda x: vresolve(x, f), lambda t: f(t) is not t)
    return v

DEBUG = bool(__import__('os').environ.get('PYVC_DEBUG'))

def hnames(t):
    return {v.a[0] for v in fv(t) if v.a[0].startswith("H!")} | {n for n in apps_in(t) if n.startswith("H!")}

def vhnames(v):
    from .interp import PyList
    if isinstance(v, T): return hnames(v)
    if isinstance(v, Arr):
        r = hnames(v.get(tuple(fresh("i") for _ in v.shape)))
        for d in v.shape: r |= hnames(d)
        return r
    if isinstance(v, tuple):
        r = set()
        for x in v: r |= vhnames(x)
        return r
    return set()

def touched(t, A):
    if t is A: return FALSE
    if t.op == "ite":
        c, x, y = t.a
        return or_(and_(c, touched(x, A)), and_(not_(c), touched(y, A)))
    return TRUE

def literals(c, acc):
    if c.op in ("and", "or", "not"):
        for x in c.a: literals(x, acc)
    elif c.op in ("eq", "le", "lt"): acc.append(c)
    return acc

def lin_in(P, v):
    """P = A*v + B with A, B free of v -> (A, B) polys or None"""
    A = {}; B = {}
    for m, c in P.items():
        d = dict(m)
        if v in d:
            if d[v] is not ONE: return None
            del d[v]
            mm = sorted_mono(d)
            if any(v in fv(a) or v in fv(e) for a, e in mm): return None
            A[mm] = A.get(mm, 0) + c
        elif any(v in fv(a) or v in fv(e) for a, e in m): return None
        else: B[m] = c
    return A, B

def has_op(t, op): return t.op == op or any(has_op(x, op) for x in children(t))

def writer_candidates(W, i, ctx):
    out = []
    for l in literals(W, []):
        if i not in fv(l): continue
        P = padd(norm(l.a[0], ctx), norm(l.a[1], ctx), -1)
        r = lin_in(P, i)
        if r is None:
            # i inside div/mod: e.g. div(i, m) == a and mod(i, m) == b
            continue
        A, B = r
        if not A: continue
        At = npoly_T(A)
        if l.op == "eq":
            if is_const(A) and abs(const_of(A)) == 1: out.append(npoly_T(pscale(B, -1 / const_of(A))))
            else: out.append(norm_T(fdiv(npoly_T(pscale(B, -1)), At), ctx))
        else:
            if ctx.entails(lt(ZERO, At)): out.append(norm_T(fdiv(npoly_T(pscale(B, -1)), At), ctx))
            elif ctx.entails(lt(At, ZERO)): out.append(norm_T(fdiv(npoly_T(B), npoly_T(pscale(A, -1))), ctx))
    # composite: div(i,m)==a & mod(i,m)==b -> a*m+b
    divs = {}
    for l in literals(W, []):
        if l.op != "eq" or i not in fv(l): continue
        P = padd(norm(l.a[0], ctx), norm(l.a[1], ctx), -1)
        for m, c in P.items():
            if len(m) == 1 and m[0][0].op == "div" and m[0][0].a[0] is i and abs(c) == 1 and m[0][1] is ONE:
                rest = padd(P, {m: Fraction(1)}, -c)
                if all(i not in fv(a) for mm in rest for a, _ in mm):
                    divs[m[0][0].a[1]] = npoly_T(pscale(rest, -1 / c))
    for l in literals(W, []):
        if l.op != "eq" or i not in fv(l): continue
        P = padd(norm(l.a[0], ctx), norm(l.a[1], ctx), -1)
        for mo, q in divs.items():
            # i - mo*div(i,mo) - b = 0
            Q = padd(P, norm(fmod(i, mo), ctx), -1)
            if all(i not in fv(a) for mm in Q for a, _ in mm):
                out.append(norm_T(add(mul(q, mo), npoly_T(pscale(Q, -1))), ctx))
            Q = padd(P, norm(fmod(i, mo), ctx), 1)
            if all(i not in fv(a) for mm in Q for a, _ in mm):
                out.append(norm_T(add(mul(q, mo), npoly_T(Q)), ctx))
    uniq = []
    for c in out:
        if c not in uniq and i not in fv(c): uniq.append(c)
    return uniq

def disjoint(W, i, n, vs, cx, cx0):
    for v in vs:
        los, his = [], []
        for l in literals(W, []):
            if v not in fv(l): continue
            P = padd(norm(l.a[0], cx), norm(l.a[1], cx), -1)
            r = lin_in(P, v)
            if r is None: continue
            A, B = r
            if not is_const(A): continue
            c = const_of(A)
            if abs(c) == 1: t = npoly_T(pscale(B, -1 / c))          # v == t at the boundary
            else: t = norm_T(fdiv(npoly_T(pscale(B, -1 if c > 0 else 1)), num(abs(c))), cx)
            if any(w in fv(t) for w in vs): continue
            for d in (-1, 0, 1):
                los.append(norm_T(add(t, d), cx)); his.append(norm_T(add(t, d), cx))
        los = [x for x in dict.fromkeys(los) if cx.entails(or_(not_(W), le(x, v)))]
        his = [x for x in dict.fromkeys(his) if cx.entails(or_(not_(W), lt(v, x)))]
        step = cx0.extend(le(ZERO, i), lt(add(i, 1), n))
        for lo in los:
            for hi in his:
                if i not in fv(lo): continue
                d = norm_T(sub(subst(lo, {i: add(i, 1)}), hi), step)
                if step.entails(le(ZERO, d)):
                    e = norm_T(sub(hi, lo), cx)
                    if cx.entails(le(ZERO, e)): return v, lo, hi
    return None

def ext_cond(c, A, E, ctx):
    """comparison of E with A: ('lt'|'le'|'gt'|'ge') for E < A, E <= A, E > A, E >= A; None otherwise"""
    neg = False
    while c.op == "not": c = c.a[0]; neg = not neg
    if c.op not in ("lt", "le"): return None
    P = padd(norm(c.a[0], ctx), norm(c.a[1], ctx), -1); Q = padd(norm(E, ctx), norm(A, ctx), -1)
    if not padd(P, Q, -1): r = c.op
    elif not padd(P, Q, 1): r = {"lt": "gt", "le": "ge"}[c.op]
    else: return None
    return {"lt": "ge", "ge": "lt", "le": "gt", "gt": "le"}[r] if neg else r

class Loc:
    pass

def summarise_for(it, n, bind, body, env, exits=None):
    from .interp import (Poison, HavocList, ListFam, FamHavoc, SymSeq, PyList, BreakEx, ContinueEx, ReturnEx, PyRaise, NUMT, MergeFail, Env, Interp, Fraction as Fr)
    n = norm_T(n, it.ctx)
    if it.ctx.entails(le(n, ZERO)): return
    ctx0 = it.ctx
    lid = it.loop_ctr; it.loop_ctr += 1
    i = var("L!%d" % lid, "I")
    ctxb = ctx0.extend(le(ZERO, i), lt(i, n))
    if ctxb.infeasible(): return
    serial0 = Cell._serial

    def run(keep):
        nob = len(it.obligations); lc = it.loop_ctr
        Cell.J.mark()
        it.ctx = ctxb
        it.loop_depth += 1
        try:
            bind(i)
            try: it.exec_block(body, env)
            except ContinueEx: pass
        except (BreakEx, ReturnEx):
            raise Unsupported("early exit from a symbolic loop")
        except PyRaise as e:
            raise Unsupported("exception in a symbolic loop: %r" % (e.v,))
        except MergeFail as e:
            raise Unsupported("branch in a symbolic loop: %s" % e)
        finally:
            it.loop_depth -= 1
            ch = Cell.J.undo(); it.ctx = ctx0
            if not keep: del it.obligations[nob:]
        obs = it.obligations[nob:]
        return ch, obs

    ch, _ = run(False)
    locs = []
    for (oid, k), (obj, kk, post) in ch.items():
        if getattr(obj, "ser", 0) > serial0: continue
        L = Loc(); L.obj = obj; L.k = kk; L.pre = obj._cells().get(kk, MISSING); L.kind = None; L.cf = None
        L.name = "H!%d.%d" % (lid, len(locs))
        pre = L.pre
        isnumv = lambda x: isinstance(x, (T,) + NUMT) and not isinstance(x, str)
        if pre is MISSING: L.kind = "temp"
        elif isinstance(obj, Store): L.kind = "store"
        elif isnumv(pre) and isnumv(post):
            L.kind = "scalar"
            intlike = lambda x: isinstance(x, bool) or isinstance(x, int) or (isinstance(x, T) and x.s == "I")
            isb = lambda x: isinstance(x, bool) or (isinstance(x, T) and x.s == "B")
            if isb(pre) and isb(post): L.s = "B"
            else: L.s = "I" if (intlike(pre) and intlike(post)) else "R"
            if isinstance(pre, T) and pre.s == "U": L.s = "U"
        elif isinstance(pre, Arr) and isinstance(post, Arr) and pre.ndim == post.ndim and all(it.np.same(a, b) for a, b in zip(pre.shape, post.shape)):
            L.kind = "arr"
        elif isnumv(pre) and isinstance(post, Arr):
            # scalar 0 accumulating into an array: treat the initial scalar as a broadcast array
            L.kind = "arr0"; L.shape = post.shape
        elif kk == "items" and isinstance(obj, PyList): L.kind = "list"
        elif kk == "fam" and isinstance(obj, ListFam): L.kind = "fam"
        else: L.kind = "poison"
        locs.append(L)
    # havoc
    def install(mode):
        for L in locs:
            if L.kind == "temp": continue
            if L.kind == "scalar": v = var(L.name, L.s)
            elif L.kind == "store":
                vs, t = L.pre
                vs2 = tuple(fresh("h") for _ in vs)
                v = (vs2, app(L.name, *vs2, s=t.s if t.s in ("B", "U") else ("I" if L.obj.dtype == "i" else "R")))
            elif L.kind == "arr": v = symarr(L.name, *L.pre.shape, dtype=L.pre.dtype, s="B" if L.pre.dtype == "b" else "R")
            elif L.kind == "arr0": v = L.inst = symarr(L.name, *L.shape)
            elif L.kind == "list": v = HavocList(L.pre)
            elif L.kind == "fam": v = FamHavoc()
            else: v = Poison("carried through a loop")
            L.obj.put(L.k, v)
    def with_state(inst, keep):
        Cell.J.mark()
        try:
            inst()
            return run(keep)
        finally: Cell.J.undo()
    havoc_needed = any(L.kind not in ("temp",) for L in locs)
    if havoc_needed: ch2, obs = with_state(lambda: install("havoc"), True)
    else: ch2, obs = run(True)
    nob_mark = len(it.obligations) - len(obs)
    posts = {}
    for (oid, k), (obj, kk, post) in ch2.items(): posts[(id(obj), kk)] = post
    for (oid, k), (obj, kk, post) in ch2.items():
        if getattr(obj, "ser", 0) > serial0: continue
        if not any(L.obj is obj and L.k == kk for L in locs):
            raise Unsupported("loop modifies different state on a second pass")
    for L in locs:
        L.post = posts.get((id(L.obj), L.k), MISSING)
        if L.kind == "arr0" and (L.post is MISSING or L.post is L.inst):
            # the accumulator is an array from the first iteration on: updated in place
            c = posts.get((id(L.inst.store), "fn"), MISSING)
            L.post = Arr(Store(L.shape, c[0], c[1])) if c is not MISSING else MISSING
        if L.post is MISSING: raise Unsupported("loop state mismatch at %r %s %s" % (L.obj, L.k, L.kind))
    resolved = {}
    def resolve(t):
        if not (hnames(t) & set(resolved)): return t
        m = {}
        for v in fv(t):
            if v.a[0] in resolved: m[v] = resolved[v.a[0]](())
        if m: t = subst(t, m)
        if any(nn in resolved for nn in apps_in(t)):
            t = replace_apps(t, lambda a: resolved[a.a[0]](a.a[1:]) if a.a[0] in resolved else None)
        return t
    # solve
    pending = [L for L in locs if L.kind in ("scalar", "store", "arr", "arr0")]
    def content(L):
        """-> (vs, pre term over vs, post term over vs, atom)"""
        if L.kind == "scalar":
            return (), num(L.pre), num(L.post), var(L.name, L.s), ()
        if L.kind == "store":
            vs = tuple(fresh("a") for _ in L.pre[0])
            return vs, subst(L.pre[1], dict(zip(L.pre[0], vs))), subst(L.post[1], dict(zip(L.post[0], vs))), \
                app(L.name, *vs, s="B" if L.pre[1].s == "B" else ("I" if L.obj.dtype == "i" else "R")), L.obj.shape
        if L.kind == "arr":
            vs = tuple(fresh("a") for _ in L.pre.shape)
            return vs, L.pre.get(vs), L.post.get(vs), app(L.name, *vs, s="B" if L.pre.dtype == "b" else "R"), L.pre.shape
        vs = tuple(fresh("a") for _ in L.shape)
        return vs, num(L.pre), L.post.get(vs), app(L.name, *vs), L.shape
    raw = {}
    for L in pending:
        if L.kind == "scalar": raw[L.name] = (L, num(L.post))
    def companion(L, pre, post, A):
        """index (or other quantity) recorded together with a running minimum / maximum"""
        if L.kind != "scalar" or post.op != "ite" or post.a[2] is not A: return None
        c, X, _ = post.a
        if hnames(X): return None
        for nm_, (M, mp) in raw.items():
            if M is L or mp.op != "ite" or mp.a[0] is not c: continue
            AM = var(nm_, M.s)
            if mp.a[2] is not AM or hnames(mp.a[1]): continue
            E = mp.a[1]; rel = ext_cond(c, AM, E, ctxb)
            if rel not in ("lt", "gt"): continue
            small = rel == "lt"
            it.rule("loop", "first index attaining the running extremum", "arg-extremum rule")
            m0 = num(M.pre)
            def f(k):
                l = fresh("l"); l2 = fresh("l"); k = num(k)
                b = subst(E, {i: l})
                m = binder("min*" if small else "max*", l, k, b)
                at = binder("argmin*" if small else "argmax*", l2, k, subst(E, {i: l2}))
                return ite(and_(lt(ZERO, k), lt(m, m0) if small else lt(m0, m)), subst(X, {i: at}), pre)
            return f
        return None
    progress = True
    while pending and progress:
        progress = False
        for L in list(pending):
            vs, pre, post, A, shape = content(L)
            r = companion(L, pre, post, A)
            if r == "wait": continue
            if r is not None:
                L.vs = vs; L.sol = r
                resolved[L.name] = (lambda sol: lambda args: sol(i))(r)
                pending.remove(L); progress = True; continue
            post = resolve(post)
            others = {q for q in hnames(post) - {L.name} if q.startswith("H!%d." % lid)}
            if others:
                if DEBUG: print("WAIT", L.name, others, "POST=", post)
                continue
            sol = solve(it, L, vs, pre, post, A, shape, i, n, ctx0, ctxb)
            if sol is None:
                if DEBUG: print("NOSOL", L.name, vs, "A=", A, "POST=", post)
                continue
            L.vs = vs; L.sol = sol       # function of upper bound k -> term over vs
            def mk_res(vs=vs, sol=sol):
                return lambda args: subst(sol(i), dict(zip(vs, args)))
            resolved[L.name] = mk_res()
            pending.remove(L); progress = True
    if pending:
        L = pending[0]
        raise Unsupported("loop-carried %s has no closed form" % (L.k if not isinstance(L.obj, Store) else "array"))
    # obligations that failed under havoc are retried with the inferred closed forms
    if any(not o.ok for o in obs):
        del it.obligations[nob_mark:nob_mark + len(obs)]
        def inst():
            for L in locs:
                if L.kind == "scalar": L.obj.put(L.k, resolved[L.name](()))
                elif L.kind == "store": L.obj.put(L.k, (L.vs, L.sol(i)))
                elif L.kind in ("arr", "arr0"):
                    L.obj.put(L.k, Arr(Store(L.pre.shape if L.kind == "arr" else L.shape, L.vs, L.sol(i))))
                elif L.kind == "list": L.obj.put(L.k, HavocList(L.pre))
                elif L.kind == "fam": L.obj.put(L.k, FamHavoc())
                elif L.kind == "poison": L.obj.put(L.k, Poison("carried through a loop"))
        with_state(inst, True)
    nonempty = ctx0.entails(lt(ZERO, n))
    for L in locs:
        if L.kind == "scalar":
            v = L.sol(n)
            L.obj.put(L.k, v)
        elif L.kind == "store": L.obj.put(L.k, (L.vs, L.sol(n)))
        elif L.kind in ("arr", "arr0"):
            dt = L.pre.dtype if L.kind == "arr" else "f"
            L.obj.put(L.k, Arr(Store(L.pre.shape if L.kind == "arr" else L.shape, L.vs, L.sol(n), dt)))
        elif L.kind == "fam":
            p = L.post
            if L.pre is not None: raise Unsupported("lists filled twice")
            if not isinstance(p, FamHavoc) or len(p.app) != 1: raise Unsupported("one append per iteration expected")
            (fk, fv_), = p.app; fk = resolve(num(fk)); fv_ = vresolve(fv_, resolve)
            it.rule("loop", "appends to one of several lists", "selection rule")
            from .interp import vsubst
            L.obj.put(L.k, (n, lambda z, fk=fk: subst(fk, {i: z}), lambda z, v=fv_: vsubst(v, {i: z})))
        elif L.kind == "list":
            p = L.post
            if not isinstance(p, HavocList): raise Unsupported("list rebuilt in loop")
            if isinstance(L.pre, list): L0 = L.pre
            else: raise Unsupported("append to symbolic list in loop")
            m = len(p.app)
            if m < 1: raise Unsupported("%d appends per iteration" % m)
            items = [vresolve(x, resolve) for x in p.app]
            def f(k, items=items, L0=L0, m=m):
                from .interp import vsubst, Opaque, lend
                def at(z):
                    if m == 1: return lend(vsubst(items[0], {i: z}), items[0])
                    q = norm_T(fmod(z, num(m)), it.ctx); d = norm_T(fdiv(z, num(m)), it.ctx)
                    if isnum(q): return lend(vsubst(items[int(val(q))], {i: d}), None)
                    r = vsubst(items[-1], {i: d})
                    for w in range(m - 2, -1, -1):
                        try: r = it.merge_val(eq(q, num(w)), vsubst(items[w], {i: d}), r)
                        except (Unsupported, MergeFail): return Opaque("one of several appended values")
                    return r
                if not L0: return at(num(k))
                kk = norm_T(num(k), it.ctx)
                if isnum(kk) and val(kk) < len(L0): return L0[int(val(kk))]
                r = at(sub(num(k), num(len(L0))))
                if it.ctx.entails(le(num(len(L0)), kk)): return r
                for q in range(len(L0) - 1, -1, -1):
                    r = it.merge_val(eq(kk, num(q)), L0[q], r)
                return r
            it.rule("loop", "append list of length %s" % n, "append rule")
            from .interp import ListFam, FamRef, PyList
            if m == 1 and not L0 and type(items[0]) is PyList and isinstance(items[0].items, list) and not items[0].items:
                fam = ListFam(n); f = lambda k: FamRef(fam, num(k))
            L.obj.put(L.k, SymSeq(add(mul(num(m), n), num(len(L0))), f))
        else:
            # temporaries: value of the last iteration
            try:
                v = vresolve(L.post, lambda t: subst(resolve(t), {i: sub(n, 1)}))
            except Unsupported: v = Poison("loop temporary")
            if isinstance(v, Poison) or vhnames(v): v = Poison("loop temporary")
            if not nonempty:
                if L.pre is MISSING and isinstance(L.obj, Env): pass   # defined only if the loop ran; assumed non-empty when read
                elif isinstance(v, (Arr, T)) : v = Poison("set in a possibly empty loop")
            L.obj.put(L.k, v)

def summarise_while(it, st, env):
    """while a*i + b <= 0 (or < 0), a > 0: body; i += 1   (i from 0; also 'while True: if not (...): return ...')
    -> (done?, statements to run after the loop)"""
    import ast
    test, body, after = st.test, st.body, list(st.orelse)
    if isinstance(test, ast.Constant) and test.value is True and isinstance(body[0], ast.If) and len(body[0].body) == 1 and isinstance(body[0].body[0], (ast.Return, ast.Break)):
        b0 = body[0].body[0]; test = ast.UnaryOp(ast.Not(), body[0].test); after = [b0] if isinstance(b0, ast.Return) else []
        body = body[0].orelse + body[1:]; ast.copy_location(test, st); ast.fix_missing_locations(test)
    stores = [x.id for b in body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)]
    cnt = [b.target.id for b in body if isinstance(b, ast.AugAssign) and isinstance(b.target, ast.Name) and isinstance(b.op, ast.Add) and isinstance(b.value, ast.Constant) and b.value.value == 1
           and stores.count(b.target.id) == 1 and any(isinstance(x, ast.Name) and x.id == b.target.id for x in ast.walk(test))]
    if len(cnt) != 1 or any(isinstance(x, (ast.Break, ast.Return, ast.Continue, ast.Yield)) for b in body for x in ast.walk(b)): return None
    if any(isinstance(x, ast.Attribute) and x.attr != "shape" for x in ast.walk(test)): return None
    c = cnt[0]; i0 = env.c.get(c)
    if i0 is None or isinstance(i0, bool) or norm_T(num(i0), it.ctx) is not ZERO: return None
    if any(isinstance(x, ast.Call) for x in ast.walk(test)) and not all(isinstance(x.func, ast.Name) and x.func.id in ("len", "int", "min", "max") for x in ast.walk(test) if isinstance(x, ast.Call)): return None
    i = var("L!w%d" % it.loop_ctr, "I"); Cell.J.mark()
    try: env.put(c, i); cond = it.truth(it.eval(test, env))
    finally: Cell.J.undo()
    neg = False
    if not isinstance(cond, T): return None
    while cond.op == "not": cond = cond.a[0]; neg = not neg
    if cond.op not in ("le", "lt"): return None
    x, y = cond.a; strict = cond.op == "lt"
    if neg: x, y, strict = y, x, not strict
    r = lin_in(padd(norm(x, it.ctx), norm(y, it.ctx), -1), i)
    if r is None or not is_const(r[0]): return None
    a, b = const_of(r[0]), npoly_T(pscale(r[1], -1))
    if a <= 0 or a.denominator != 1 or b.s != "I" and not all(v.s == "I" for v in fv(b)): return None
    K = norm_T(add(mk("div", (sub(b, 1) if strict else b, num(a)), "I"), 1), it.ctx)
    if isnum(K): return None
    full = lt(x, y) if strict else le(x, y)
    if not it.ctx.entails(le(ZERO, K)) or not it.ctx.extend(le(ZERO, i)).entails(and_(or_(not_(lt(i, K)), full), or_(not_(full), lt(i, K)))): return None
    it.rule("loop", "the loop runs %s times" % K, "trip count + z3")
    def bind(k):
        env.put(c, k); it.ctx = it.ctx.extend(norm_cond(subst(full, {i: num(k)}), it.ctx))
    # names read by the test must not change in the body
    rd = {q.id for q in ast.walk(test) if isinstance(q, ast.Name)} - {c}
    if rd & set(stores): return None
    summarise_for(it, K, bind, body, env)
    return after

def solve(it, L, vs, pre, post, A, shape, i, n, ctx0, ctxb):
    """-> function k -> term (value after k iterations), or None"""
    bounds = [f for v, d in zip(vs, shape) for f in (le(ZERO, v), lt(v, num(d)))]
    cx = ctxb.extend(*bounds)
    A_name = A.a[0]
    mention = A_name in hnames(post)
    what = (L.k if not isinstance(L.obj, Store) else "array")
    def overwrite():
        it.rule("loop", "overwrite of %s" % (what,), "overwrite rule")
        def f(k):
            k = num(k)
            last = subst(post, {i: sub(k, 1)})
            if ctx0.entails(lt(ZERO, k)): return last
            return ite(lt(ZERO, k), last, pre)
        return f
    if not mention: return overwrite()
    # self-references must be at the same index (possibly only under the guards that reach them)
    bad = []
    def rewrite(t, cx):
        if A_name not in apps_in(t): return t
        if t.op == "ite":
            c = norm_cond(t.a[0], cx)
            if c is TRUE: return rewrite(t.a[1], cx)
            if c is FALSE: return rewrite(t.a[2], cx)
            return ite(t.a[0], rewrite(t.a[1], cx.extend(t.a[0])), rewrite(t.a[2], cx.extend(not_(t.a[0]))))
        def r(a):
            if a.a[0] != A_name or a is A: return None
            if all(x is y or cx.entails(eq(x, y)) for x, y in zip(a.a[1:], vs)): return A
            bad.append((a, cx)); return None
        return replace_apps(t, r)
    if A.op == "app":
        post = rewrite(post, cx)
        if A_name not in hnames(post): return overwrite()
    # unique writer
    W = touched(post, A)
    if has_op(W, "sum"): W = norm_cond(W, cx)
    if vs and W is not TRUE and i in fv(W):
        for cand in writer_candidates(W, i, cx):
            if any(v in fv(cand) for v in (i,)): continue
            goal = or_(not_(W), eq(i, cand))
            if cx.entails(goal):
                # an entry read at another index still has its initial value: its only writer is this or a later iteration
                def initial(a, c):
                    w = subst(cand, dict(zip(vs, a.a[1:])))
                    inside = [f for v, d in zip(a.a[1:], shape) for f in (le(ZERO, v), lt(v, num(d)))]       # reads in range are obligations of their own
                    return c.extend(*inside).entails(or_(le(i, w), lt(w, ZERO), le(n, w)))
                if not all(initial(a, c) for a, c in bad): continue
                it.rule("loop", "iteration %s is the only writer of index %s of %s" % (cand, vs, what), "unique-writer rule + z3")
                def f(k, cand=cand):
                    inr = norm_cond(and_(le(ZERO, cand), lt(cand, num(k))), ctx0.extend(*bounds))
                    v = subst(post, {i: cand})
                    if A.op == "app": v = replace_apps(v, lambda a: subst(pre, dict(zip(vs, a.a[1:]))) if a.a[0] == A_name else None)
                    else: v = subst(v, {A: pre})
                    return ite(inr, v, pre)
                return f
    if bad: return None
    # consecutive blocks lo(i) <= v < lo(i+1), all of them written with a value that does not depend on i
    if vs and W is not TRUE and i in fv(W) and A.op == "app":
        r = disjoint(W, i, n, vs, cx, ctx0.extend(*bounds)) if post.op == "ite" and (post.a[2] is A or post.a[1] is A) else None
        if r is not None:
            v, lo, hi = r; reg, V = (post.a[0], post.a[1]) if post.a[2] is A else (not_(post.a[0]), post.a[2])
            V = norm_T(V, cx.extend(reg))
            if i not in fv(V) and norm_T(sub(subst(lo, {i: add(i, 1)}), hi), cx) is ZERO and cx.entails(or_(reg, not_(and_(le(lo, v), lt(v, hi))))):
                it.rule("loop", "iteration i writes exactly the block %s <= %s < %s, with values independent of i" % (lo, v, hi), "block rule + z3")
                V2 = replace_apps(V, lambda a: pre if a is A else None)
                def f(k):
                    return ite(norm_cond(and_(le(subst(lo, {i: ZERO}), v), lt(v, subst(lo, {i: num(k)}))), ctx0.extend(*bounds)), V2, pre)
                return f
    # disjoint consecutive intervals: iteration i only touches lo(i) <= v < hi(i), hi(i) <= lo(i+1)
    if vs and W is not TRUE and i in fv(W) and A.op == "app" and A.s != "B":
        r = disjoint(W, i, n, vs, cx, ctx0.extend(*bounds))
        if r is not None:
            v, lo, hi = r
            it.rule("loop", "iteration i writes %s only within [%s, %s): ordered disjoint intervals" % (v, lo, hi), "disjoint-interval rule + z3")
            post2 = replace_apps(post, lambda a: pre if a is A else None)
            def f(k):
                l = fresh("l")
                return add(pre, Sum(l, num(k), sub(subst(post2, {i: l}), pre)))
            return f
    if A.s == "B":
        # accumulating booleans: any / all
        return None
    # constant region overwritten every iteration
    if vs and W is not TRUE and i not in fv(W) and post.op == "ite" and post.a[2] is A and A_name not in hnames(post.a[1]):
        def f(k):
            last = subst(post.a[1], {i: sub(num(k), 1)})
            return ite(and_(post.a[0], lt(ZERO, num(k))), last, pre)
        it.rule("loop", "overwrite of %s" % (what,), "overwrite rule")
        return f
    # running min / max
    if post.op == "ite" and (post.a[1] is A or post.a[2] is A):
        c, x, y = post.a
        if {x, y} & {A}:
            E = y if x is A else x
            rel = ext_cond(c, A, E, cx) if A_name not in hnames(E) else None
            if rel is not None:
                picks_max = (rel in ("gt", "ge")) == (x is E)
                it.rule("loop", "running extremum %s" % (what,), "extremum rule")
                def f(k):
                    l = fresh("l")
                    m = binder("max*" if picks_max else "min*", l, num(k), subst(E, {i: l}))
                    m2 = tmax(pre, m) if picks_max else tmin(pre, m)
                    return ite(lt(ZERO, num(k)), m2, pre)
                return f
    P = norm(post, cx)
    a = {}; b = {}
    for m, c in P.items():
        d = dict(m)
        if A in d:
            if d[A] is not ONE: return None
            del d[A]
            if any(A_name in hnames(x) or A_name in hnames(e) for x, e in d.items()): return None
            a[sorted_mono(d)] = c
        else:
            if any(A_name in hnames(x) or A_name in hnames(e) for x, e in m): return None
            b[m] = c
    if a == pconst(1):
        E = npoly_T(b)
        if norm(E, cx) != b: pass
        it.rule("loop", "accumulation into %s" % (what,), "sum rule")
        def f(k):
            l = fresh("l")
            return add(pre, Sum(l, num(k), subst(E, {i: l})))
        return f
    if not b:
        E = npoly_T(a)
        it.rule("loop", "product into %s" % (what,), "product rule")
        def f(k):
            if i not in fv(E): return mul(pre, power(E, num(k)))
            l = fresh("l")
            return mul(pre, Prod(l, num(k), subst(E, {i: l})))
        return f
    return None


class LoopSpec:
    """inv(env, k) -> [(label, condition)] over the local variables at the start of iteration k;
    havoc: {name: sort or function(k)->value}; extra(env, k): further state the body may modify (reset to arbitrary)"""
    def __init__(self, inv, havoc=None, extra=None, match=None, kind=None):
        self.inv = inv; self.havoc = havoc or {}; self.extra = extra; self.kind = kind or ("For" if match is None else None)
        self._match = match or (lambda st: True)
    def match(self, st):
        from .interp import Unsupported
        try: r = self._match(st)
        except AttributeError: return False      # a loop of another kind
        if r and self.kind and type(st).__name__ != self.kind: raise Unsupported("the loop with a stated invariant is a %s loop now" % type(st).__name__.lower())
        return r

class WhileToFor(__import__("ast").NodeTransformer):
    """while k < e: ...; k += 1  is read as  for k in range(k, e): ...  when the body assigns neither k (but for the increment) nor anything e depends on,
    and k is not read after the loop before it is assigned again (by name, in the whole function)"""
    def visit_FunctionDef(self, fn):
        import ast
        self.generic_visit(fn)
        def names(n, c=None): return [x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (c is None or isinstance(x.ctx, c))]
        def cont(ss):
            for s in ss:
                if isinstance(s, (ast.Continue,)): return True
                if isinstance(s, (ast.For, ast.While, ast.FunctionDef, ast.ClassDef)): continue
                if any(cont(getattr(s, f, None) or []) for f in ("body", "orelse", "finalbody")) or any(cont(h.body) for h in getattr(s, "handlers", None) or []): return True
            return False
        def convert(st, block, pos):
            t = st.test
            if st.orelse or not (isinstance(t, ast.Compare) and len(t.ops) == 1): return None
            l, r, op = t.left, t.comparators[0], type(t.ops[0])
            if op in (ast.Gt, ast.GtE): l, r = r, l; op = {ast.Gt: ast.Lt, ast.GtE: ast.LtE}[op]
            if op not in (ast.Lt, ast.LtE) or not isinstance(l, ast.Name) or len(st.body) < 2: return None
            k = l.id; inc = st.body[-1]; body = st.body[:-1]
            one = lambda x: isinstance(x, ast.Constant) and type(x.value) is int and x.value == 1
            if isinstance(inc, ast.AugAssign): ok = isinstance(inc.op, ast.Add) and isinstance(inc.target, ast.Name) and inc.target.id == k and one(inc.value)
            else: ok = isinstance(inc, ast.Assign) and len(inc.targets) == 1 and isinstance(inc.targets[0], ast.Name) and inc.targets[0].id == k and isinstance(inc.value, ast.BinOp) \
                and isinstance(inc.value.op, ast.Add) and ((isinstance(inc.value.left, ast.Name) and inc.value.left.id == k and one(inc.value.right)) or (isinstance(inc.value.right, ast.Name) and inc.value.right.id == k and one(inc.value.left)))
            if not ok or cont(body): return None
            m = ast.Module(body, [])
            if k in names(m, ast.Store) or k in names(r): return None
            if set(names(m, ast.Store)) & set(names(r)): return None
            for x in ast.walk(r):                                  # the bound: names, shapes, lengths, attributes that the body does not assign
                if isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id in ("len", "int", "min", "max")): return None
                if isinstance(x, ast.Attribute) and any(isinstance(y, ast.Attribute) and y.attr == x.attr and isinstance(y.ctx, ast.Store) for y in ast.walk(m)): return None
            if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "len" for x in ast.walk(r)):
                if any(isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in ("append", "extend", "pop", "insert", "remove", "clear") and set(names(y.func.value)) & set(names(r)) for y in ast.walk(m)): return None
            # k is set to a constant before, in the same block, with no use in between; its next use afterwards sets it again, and no other block uses it
            at = [i for i, x in enumerate(block[:pos]) if k in names(x)]
            if not at: return None
            init = block[at[-1]]
            sets = lambda x: isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id == k and k not in names(x.value)
            if not sets(init) or not (isinstance(init.value, ast.Constant) and type(init.value.value) is int): return None
            nxt = [x for x in block[pos + 1:] if k in names(x)]
            if nxt and not sets(nxt[0]): return None
            if len(names(fn)) and names(fn).count(k) != sum(names(x).count(k) for x in block): return None
            hi = r if op is ast.Lt else ast.BinOp(r, ast.Add(), ast.Constant(1))
            tgt, b2 = k, body
            a0 = body[0]
            if len(body) > 1 and isinstance(a0, ast.Assign) and len(a0.targets) == 1 and isinstance(a0.targets[0], ast.Name) and isinstance(a0.value, ast.Name) and a0.value.id == k \
               and k not in names(ast.Module(body[1:], [])): tgt, b2 = a0.targets[0].id, body[1:]       # for i in range: i = counter
            f = ast.For(ast.Name(tgt, ast.Store()), ast.Call(ast.Name("range", ast.Load()), [init.value, hi], []), b2, [], None)
            return ast.fix_missing_locations(ast.copy_location(f, st))
        def block(b):
            for i, s in enumerate(b):
                if isinstance(s, ast.While):
                    f = convert(s, b, i)
                    if f is not None: b[i] = f
            for s in b:
                if isinstance(s, (ast.FunctionDef, ast.ClassDef)): continue
                for fl in ("body", "orelse", "finalbody"):
                    if getattr(s, fl, None): block(getattr(s, fl))
                for h in getattr(s, "handlers", None) or []: block(h.body)
        block(fn.body)
        return fn

def invariant_loop(it, st, env, spec, n=None, bind_value=None):
    import ast
    from .interp import NUMT, MergeFail, BreakEx, ContinueEx, PathEnd, Poison, PyList, Fraction as Fr
    if it.merging or it.loop_depth: raise MergeFail("loop with an invariant")
    lid = it.loop_ctr; it.loop_ctr += 1
    k = var("W%d.k" % lid, "I")
    def check(kk, what):
        for label, c in spec.inv(env, kk): it.oblige("invariant", c if isinstance(c, T) else (TRUE if c else FALSE), "loop invariant %s %s" % (label, what))
    check(ZERO, "on entry")
    serial0 = Cell._serial
    names = sorted({x.id for b in st.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} |
                   {x.id for x in ast.walk(getattr(st, "target", ast.Pass())) if isinstance(x, ast.Name)})
    Cell.J.mark()
    for nm in names:
        h = spec.havoc.get(nm)
        pre = env.c.get(nm, MISSING)
        nmv = "W%d.%s" % (lid, nm)
        if callable(h): v = h(k)
        elif isinstance(h, str): v = var(nmv, h)
        elif pre is MISSING: v = Poison("set in a loop with an invariant")
        elif isinstance(pre, bool) or isinstance(pre, T) and pre.s == "B": v = var(nmv, "B")
        elif isinstance(pre, (T,) + NUMT): v = var(nmv, "U" if isinstance(pre, T) and pre.s == "U" else "R")
        elif isinstance(pre, Arr): v = symarr(nmv, *pre.shape, dtype=pre.dtype, s="B" if pre.dtype == "b" else "R")
        else: v = Poison("changed in a loop with an invariant")
        env.put(nm, v)
    if spec.extra: spec.extra(env, k)
    touched = {(id(o), kk) for o, kk, _, _ in Cell.J.stack[-1]}
    Cell.J.commit()
    it.ctx = it.ctx.extend(le(ZERO, k), *([le(k, n)] if n is not None else []))
    it.ctx = it.ctx.extend(*[norm_cond(c if isinstance(c, T) else (TRUE if c else FALSE), it.ctx) for _, c in spec.inv(env, k)])
    if n is not None: c = it.decide(lt(k, n))
    else: c = it.decide(it.eval(st.test, env))
    if not c:
        if n is not None: it.ctx = it.ctx.extend(eq(k, n))
        it.exec_block(st.orelse, env); return
    Cell.J.mark()
    try:
        if n is not None: it.assign(st.target, bind_value(k), env)
        it.exec_block(st.body, env)
    except ContinueEx: pass
    except BreakEx:
        Cell.J.commit(); return
    except BaseException:
        Cell.J.commit(); raise
    changed = [(o, kk) for o, kk, _, _ in Cell.J.stack[-1] if getattr(o, "ser", 0) <= serial0 and (id(o), kk) not in touched]
    Cell.J.commit()
    if changed: raise Unsupported("loop with an invariant modifies further state: %s" % (changed[0],))
    check(add(k, 1), "preserved")
    raise PathEnd()
