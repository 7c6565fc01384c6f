"""Symbolic arrays: symbolic shape + index->term map, with views (aliasing) onto stores."""
from fractions import Fraction
from .terms import *
from .norm import *
from . import norm as nm

class Unsupported(Exception): pass

class Journal:
    """records mutations so that branches and loop bodies can be undone"""
    def __init__(self): self.stack = []
    def log(self, obj, k, old, missing):
        if self.stack: self.stack[-1].append((obj, k, old, missing))
    def mark(self): self.stack.append([])
    def undo(self):
        """undo the innermost segment; returns {(obj,key): current value}"""
        seg = self.stack.pop()
        cur = {}
        for obj, k, old, missing in seg:
            kk = (id(obj), k)
            if kk not in cur: cur[kk] = (obj, k, obj._cells().get(k, MISSING))
        for obj, k, old, missing in reversed(seg):
            if missing: obj._cells().pop(k, None)
            else: obj._cells()[k] = old
        return cur
    def commit(self):
        seg = self.stack.pop()
        if self.stack: self.stack[-1].extend(seg)
class _Missing:
    def __repr__(self): return "MISSING"
MISSING = _Missing()

class Cell:
    """journaled container"""
    J = Journal()
    _serial = 0
    def __new__(cls, *a, **k):
        o = object.__new__(cls)
        Cell._serial += 1; o.ser = Cell._serial
        return o
    def __init__(self): self.c = {}
    def _cells(self): return self.c
    lent = False        # a copy handed out by a symbolic sequence: a write to it would be lost
    def put(self, k, v):
        if self.lent: raise Unsupported("mutation of an element of a symbolic list")
        c = self.c
        Cell.J.log(self, k, c.get(k), k not in c)
        c[k] = v
    def drop(self, k):
        Cell.J.log(self, k, self.c[k], False)
        del self.c[k]

class Store(Cell):
    def __init__(self, shape, vs, term, dtype="f"):
        self.c = {"fn": (tuple(vs), term)}
        self.shape = tuple(shape); self.dtype = dtype; self.name = None
    def get(self, idx):
        vs, t = self.c["fn"]
        return subst(t, {v: num(i) for v, i in zip(vs, idx)})

def S(x):
    """python / T -> T"""
    if isinstance(x, T): return x
    if isinstance(x, (bool, int, float)): return num(x)
    if isinstance(x, Arr) and all(isnum(d) and val(d) == 1 for d in x.shape):
        return x.get([ZERO] * len(x.shape))
    if isinstance(x, Arr) and not x.shape: return x.get(())
    raise Unsupported("scalar expected, got %r" % (x,))

class Arr:
    __slots__ = ("store", "shape", "fwd", "inv")
    def __init__(self, store, shape=None, fwd=None, inv=None):
        self.store = store; self.shape = tuple(num(d) for d in (store.shape if shape is None else shape))
        self.fwd = fwd; self.inv = inv
    @property
    def dtype(self): return self.store.dtype
    @property
    def ndim(self): return len(self.shape)
    def get(self, idx):
        idx = tuple(num(i) for i in idx)
        return self.store.get(self.fwd(idx) if self.fwd else idx)
    def __repr__(self): return "Arr%s" % (tuple(self.shape),)
    def copy(self):
        return mkarr(self.shape, lambda *i: self.get(i), self.dtype)
    def write(self, region, value, ctx=TOP):
        """region(idx)->bool T, value(idx)->T over view indices"""
        st = self.store
        vs = tuple(fresh("w") for _ in st.shape)
        old = st.get(vs)
        if self.inv: cond, idx = self.inv(vs)
        else: cond, idx = TRUE, vs
        c = and_(cond, region(idx))
        v = value(idx)
        if st.dtype == "i" and v.s != "I": v = mk("fn_trunc", (v,), "I") if not (v.op == "num") else num(int(val(v)))
        if c is TRUE: t = v
        else: t = ite_simpl(c, v, old)
        st.put("fn", (vs, t))

class Sparse(Arr):
    """scipy.sparse matrix: same content, matrix semantics of * and +="""
    __slots__ = ()
def sparse(a):
    return Sparse(a.store, a.shape, a.fwd, a.inv)
class Masked(Arr):
    """a[mask] for an array mask of the same shape: the entries of `a` selected by `mask`, as a bag
    (only order-insensitive consumers accept it)"""
    __slots__ = ("mask",)

def assume_in(t, c, truth, depth=0):
    """syntactic simplification of ites under literal c"""
    if depth > 3: return t
    if t.op == "ite":
        cc = t.a[0]
        if cc is c: return assume_in(t.a[1] if truth else t.a[2], c, truth, depth)
        if truth and cc.op == "and" and c.op == "and" and set(cc.a) <= set(c.a):
            return assume_in(t.a[1], c, truth, depth)
        return ite(cc, assume_in(t.a[1], c, truth, depth + 1), assume_in(t.a[2], c, truth, depth + 1))
    if t.op in ("+", "*", "pow"):
        ch = [assume_in(x, c, truth, depth + 1) for x in t.a]
        return rebuild(t, ch)
    return t
def ite_simpl(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    return ite(c, assume_in(a, c, True), assume_in(b, c, False))

def mkarr(shape, f, dtype="f"):
    vs = tuple(fresh("i") for _ in shape)
    t = num(f(*vs))
    return Arr(Store([num(d) for d in shape], vs, t, dtype))

def symarr(name, *shape, s="R", dtype=None):
    shape = [num(d) for d in shape]
    return mkarr(shape, lambda *i: app(name, *i, s=s), dtype or {"R": "f", "I": "i", "B": "b", "U": "o"}[s])

def is1(d): return isnum(d) and val(d) == 1

class NP:
    """array operations relative to an interpreter (for contexts and obligations)"""
    def __init__(self, it): self.it = it
    def same(self, a, b):
        if a is b: return True
        d = norm_T(sub(a, b), self.it.ctx)
        return d is ZERO
    def need_same(self, a, b, what):
        if self.same(a, b): return
        ctx = self.it.ctx
        if not self.it.loop_depth and not self.it.merging and ctx.entails(not_(eq(a, b))) and (what != "broadcast" or ctx.entails(not_(eq(a, ONE))) and ctx.entails(not_(eq(b, ONE)))):
            from .interp import PyRaise, ExcVal
            raise PyRaise(ExcVal("ValueError", ["shapes do not agree in " + what]))
        self.it.oblige("shape", eq(a, b), "shapes agree in %s: %s vs %s" % (what, a, b))
    def bshape(self, shapes):
        n = max(len(s) for s in shapes)
        out = []
        for k in range(n):
            d = ONE
            for s in shapes:
                j = k - (n - len(s))
                if j < 0: continue
                e = s[j]
                if is1(e): continue
                if is1(d): d = e
                elif not self.same(d, e):
                    if self.it.ctx.entails(eq(e, ONE)): continue
                    if self.it.ctx.entails(eq(d, ONE)): d = e; continue
                    self.need_same(d, e, "broadcast")
            out.append(d)
        return tuple(out)
    def bget(self, a, idx):
        """value of operand a at broadcast index idx"""
        if not isinstance(a, Arr): return S(a)
        k = len(idx) - len(a.shape)
        ii = []
        for d, i in zip(a.shape, idx[k:]):
            if is1(d): ii.append(ZERO)
            else: ii.append(i)
        return a.get(ii)
    def bget2(self, a, idx, shape):
        if not isinstance(a, Arr): return S(a)
        k = len(idx) - len(a.shape)
        ii = []
        for d, i, D_ in zip(a.shape, idx[k:], shape[k:]):
            if is1(d) or (d is not D_ and not is1(D_) and self.it.ctx.entails(eq(d, ONE)) and not self.same(d, D_)): ii.append(ZERO)
            else: ii.append(i)
        return a.get(ii)
    def ew(self, f, *args, dtype=None):
        arrs = [a for a in args if isinstance(a, Arr)]
        if not arrs: return f(*[S(a) for a in args])
        sh = self.bshape([a.shape for a in arrs])
        if any(isinstance(a, Masked) for a in arrs): return self.ew_masked(f, args, arrs, sh, dtype)
        if dtype is None:
            dtype = "i" if all((a.dtype in "ib" if isinstance(a, Arr) else S(a).s == "I" and not isinstance(a, float)) for a in args) else "f"
        return mkarr(sh, lambda *i: f(*[self.bget2(a, i, sh) for a in args]), dtype)
    def ew_masked(self, f, args, arrs, sh, dtype):
        """element-wise operation on selections by one and the same mask"""
        plain = lambda a: Arr(a.store, a.shape, a.fwd, a.inv) if isinstance(a, Masked) else a
        vs = [fresh("m") for _ in sh]; ms = {}
        for a in arrs:
            if isinstance(a, Masked): ms.setdefault(norm_T(self.bget2(a.mask, vs, sh), self.it.ctx), a)
            elif any(not (isnum(d) and val(d) == 1) for d in a.shape): raise Unsupported("masked selection combined with an array")
        if len(ms) > 1: raise Unsupported("arithmetic on different selections")
        m = next(iter(ms.values())).mask
        r = self.ew(f, *[plain(a) for a in args], dtype=dtype)
        q = Masked(r.store, r.shape, r.fwd, r.inv); q.mask = mkarr(sh, lambda *i: self.bget2(m, i, sh), "b")
        return q
    # --- reductions
    def reduce(self, op, a, axis=None, keepdims=False):
        if not isinstance(a, Arr): a = self.asarr(a)
        if isinstance(a, Masked):
            if op != "sum" or axis is not None or keepdims: raise Unsupported("%s of a masked selection" % op)
            m = a.mask; p = Arr(a.store, a.shape, a.fwd, a.inv)
            a = mkarr(p.shape, lambda *i: ite(m.get(i), p.get(i), ZERO), a.dtype)
        nd = a.ndim
        if axis is None: axes = list(range(nd))
        elif isinstance(axis, tuple): axes = [int(x) % nd for x in axis]
        else:
            ax = self.it.conc_int(axis)
            if ax >= nd or ax < -nd: raise Unsupported("axis out of range")
            axes = [ax % nd]
        keep = [k for k in range(nd) if k not in axes]
        def val_at(kidx):
            vs = {k: fresh("r") for k in axes}
            idx = [None] * nd
            for k, i in zip(keep, kidx): idx[k] = i
            for k in axes: idx[k] = vs[k]
            t = a.get(idx)
            for k in reversed(axes):
                t = binder(op, vs[k], a.shape[k], t)
            return t
        dt = a.dtype if op != "forall" else "b"
        if keepdims:
            sh = [ONE if k in axes else a.shape[k] for k in range(nd)]
            return mkarr(sh, lambda *i: val_at([i[k] for k in keep]), dt)
        if not keep: return val_at([])
        return mkarr([a.shape[k] for k in keep], lambda *i: val_at(i), dt)
    def argred(self, op, a, axis=None):
        if axis is None:
            if a.ndim != 1:
                a = self.reshape(a, (num(-1),))
            if isnum(a.shape[0]) and 1 <= val(a.shape[0]) <= 4:
                # few elements: explicit comparisons, first winner kept
                ix, b = ZERO, a.get((ZERO,))
                for j in range(1, int(val(a.shape[0]))):
                    x = a.get((num(j),)); c = lt(x, b) if op == "argmin*" else lt(b, x)
                    ix, b = ite(c, num(j), ix), ite(c, x, b)
                return ix
            v = fresh("r")
            return binder(op, v, a.shape[0], a.get((v,)))
        ax = self.it.conc_int(axis) % a.ndim
        keep = [k for k in range(a.ndim) if k != ax]
        def at(*ki):
            v = fresh("r"); idx = [None] * a.ndim
            for k, i in zip(keep, ki): idx[k] = i
            idx[ax] = v
            return binder(op, v, a.shape[ax], a.get(idx))
        if not keep: return at()
        return mkarr([a.shape[k] for k in keep], at, "i")
    # --- construction
    def asarr(self, x, copy=False):
        if isinstance(x, Arr): return x.copy() if copy else x
        it = self.it
        if isinstance(x, (T, int, float, bool, Fraction)): return mkarr((), lambda: S(x), "b" if isinstance(x, bool) or S(x).s == "B" else "i" if S(x).s == "I" and not isinstance(x, (float, Fraction)) else "f")
        seq = it.seq_of(x)
        if seq is None: raise Unsupported("asarray of %r" % (x,))
        if isinstance(seq, tuple) and seq and seq[0] == "symseq":
            _, n, f = seq
            v = fresh("s")
            item = f(v)
            if isinstance(item, Arr):
                return mkarr((n,) + item.shape, lambda i, *r: self._sub_item(f, i).get(r), item.dtype)
            if it.seq_of(item) is not None:
                sub_ = self.asarr(item)
                return mkarr((n,) + sub_.shape, lambda i, *r: self.asarr(f(i)).get(r), sub_.dtype)
            return mkarr((n,), lambda i: S(f(i)), "f" if S(item).s == "R" else "i")
        items = [self.asarr(e) for e in seq]
        if not items: return mkarr((0,), lambda i: ZERO)
        sh = items[0].shape
        for e in items[1:]:
            if len(e.shape) != len(sh): raise Unsupported("ragged array")
            for p, q in zip(e.shape, sh): self.need_same(p, q, "array()")
        def at(i, *r):
            t = items[-1].get(r)
            for k in range(len(items) - 2, -1, -1): t = ite(eq(i, num(k)), items[k].get(r), t)
            return t
        dts = {e.dtype for e in items}
        return mkarr((len(items),) + sh, at, "i" if dts <= {"i"} else ("b" if dts <= {"b"} else ("o" if "o" in dts else "f")))
    def _sub_item(self, f, i): return f(i)
    # --- shape
    def transpose(self, a, axes=None):
        n = a.ndim
        p = list(range(n))[::-1] if axes is None else [self.it.conc_int(x) for x in axes]
        q = [p.index(k) for k in range(n)]
        f0, i0 = a.fwd, a.inv
        def fwd(i):
            b = tuple(i[q[k]] for k in range(n))
            return f0(b) if f0 else b
        def inv(b):
            c, j = i0(b) if i0 else (TRUE, b)
            return c, tuple(j[p[k]] for k in range(n))
        return Arr(a.store, [a.shape[k] for k in p], fwd, inv)
    def size(self, a):
        return norm_T(mul(*a.shape), self.it.ctx) if a.shape else ONE
    def reshape(self, a, shape):
        shape = [S(d) for d in shape]
        ctx = self.it.ctx
        tot = self.size(a)
        if any(isnum(d) and val(d) == -1 for d in shape):
            rest = ONE
            for d in shape:
                if not (isnum(d) and val(d) == -1): rest = mul(rest, d)
            known = norm_T(div(tot, rest), ctx)
            if known.s != "I" : known = norm_T(fdiv(tot, rest), ctx)
            shape = [known if isnum(d) and val(d) == -1 else d for d in shape]
        shape = [norm_T(d, ctx) for d in shape]
        if len(shape) == a.ndim and all(self.same(p, q) for p, q in zip(shape, a.shape)):
            return Arr(a.store, a.shape, a.fwd, a.inv)
        if not self.same(norm_T(mul(*shape), ctx) if shape else ONE, tot):
            self.need_same(norm_T(mul(*shape), ctx), tot, "reshape")
        # drop/insert unit dims: index permutation-free mapping
        na = [k for k, d in enumerate(a.shape) if not is1(d)]
        nb = [k for k, d in enumerate(shape) if not is1(d)]
        f0, i0 = a.fwd, a.inv
        if len(na) == len(nb) and all(self.same(a.shape[p], shape[q]) for p, q in zip(na, nb)):
            def fwd(i):
                b = [ZERO] * a.ndim
                for p, q in zip(na, nb): b[p] = i[q]
                b = tuple(b)
                return f0(b) if f0 else b
            def inv(b):
                c, j = i0(b) if i0 else (TRUE, b)
                v = [ZERO] * len(shape)
                for p, q in zip(na, nb): v[q] = j[p]
                return c, tuple(v)
            return Arr(a.store, shape, fwd, inv)
        # group leading/trailing common dims
        lead = 0
        while lead < min(a.ndim, len(shape)) and self.same(a.shape[lead], shape[lead]): lead += 1
        A = a.shape[lead:]; B = shape[lead:]
        def ravel(idx, dims):
            t = ZERO
            for i, d in zip(idx, dims): t = add(mul(t, d), i)
            return norm_T(t, ctx) if not isinstance(t, int) else t
        def unravel(t, dims):
            out = []
            for k in range(len(dims)):
                rest = ONE
                for d in dims[k + 1:]: rest = mul(rest, d)
                q = fdiv(t, rest) if rest is not ONE else t
                if k > 0: q = fmod(q, dims[k])
                out.append(q)
            return out
        def fwd(i):
            b = tuple(i[:lead]) + tuple(unravel(ravel(i[lead:], B), A))
            return f0(b) if f0 else b
        def inv(b):
            c, j = i0(b) if i0 else (TRUE, b)
            return c, tuple(j[:lead]) + tuple(unravel(ravel(j[lead:], A), B))
        return Arr(a.store, shape, fwd, inv)
    def concat(self, arrs, axis=0):
        arrs = [self.asarr(x) for x in arrs]
        if len(arrs) == 1: return arrs[0].copy()
        nd = arrs[0].ndim; axis = axis % nd
        offs = [ZERO]
        for x in arrs:
            if x.ndim != nd: raise Unsupported("concat dims")
            for k in range(nd):
                if k != axis: self.need_same(x.shape[k], arrs[0].shape[k], "concatenate")
            offs.append(norm_T(add(offs[-1], x.shape[axis]), self.it.ctx))
        sh = list(arrs[0].shape); sh[axis] = offs[-1]
        def at(*i):
            t = None
            for k in range(len(arrs) - 1, -1, -1):
                j = list(i); j[axis] = sub(i[axis], offs[k])
                v = arrs[k].get(j)
                t = v if t is None else ite(lt(i[axis], offs[k + 1]), v, t)
            return t
        return mkarr(sh, at, arrs[0].dtype if all(x.dtype == arrs[0].dtype for x in arrs) else "f")
    def dot(self, a, b):
        if not isinstance(a, Arr) or not isinstance(b, Arr) or a.ndim == 0 or b.ndim == 0:
            return self.ew(mul, a, b)
        if a.ndim == 1 and b.ndim == 1:
            self.need_same(a.shape[0], b.shape[0], "dot"); k = fresh("k")
            return Sum(k, a.shape[0], mul(a.get((k,)), b.get((k,))))
        ka = a.shape[-1]; kb = b.shape[-2] if b.ndim >= 2 else b.shape[0]
        self.need_same(ka, kb, "dot")
        sa = a.shape[:-1]; sb = b.shape[:-2] + b.shape[-1:] if b.ndim >= 2 else ()
        def at(*i):
            k = fresh("k"); ia = i[:len(sa)]; ib = i[len(sa):]
            bi = ib[:-1] + (k,) + ib[-1:] if b.ndim >= 2 else (k,)
            return Sum(k, ka, mul(a.get(ia + (k,)), b.get(bi)))
        return mkarr(sa + sb, at)
    def einsum(self, spec, *ops):
        spec = spec.replace(" ", "")
        lhs, _, out = spec.partition("->")
        ins = lhs.split(",")
        if "->" not in spec:
            letters = [c for c in lhs if c != ","]
            out = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
        dim = {}
        for s_, o in zip(ins, ops):
            if len(s_) != o.ndim: raise Unsupported("einsum rank")
            for c, d in zip(s_, o.shape):
                if c in dim and not (is1(dim[c]) or is1(d)): self.need_same(dim[c], d, "einsum")
                if c not in dim or is1(dim[c]): dim[c] = d
        summed = [c for c in dim if c not in out]
        def at(*i):
            m = dict(zip(out, i)); vs = {c: fresh(c) for c in summed}
            m.update(vs)
            t = mul(*[o.get([ZERO if is1(d) and not is1(dim[c]) else m[c] for c, d in zip(s_, o.shape)]) for s_, o in zip(ins, ops)])
            for c in summed: t = Sum(vs[c], dim[c], t)
            return t
        if not out: return at()
        return mkarr([dim[c] for c in out], at)
    # --- indexing
    def parse_index(self, a, idx):
        it = self.it
        if not isinstance(idx, tuple): idx = (idx,)
        idx = list(idx)
        def consumes(x):
            if x is None or x is Ellipsis: return 0
            if isinstance(x, Arr) and x.dtype == "b": return x.ndim
            return 1
        n = sum(consumes(x) for x in idx)
        if any(x is Ellipsis for x in idx):
            k = [i for i, x in enumerate(idx) if x is Ellipsis][0]
            idx[k:k + 1] = [slice(None)] * (a.ndim - n)
        else: idx += [slice(None)] * (a.ndim - n)
        if n > a.ndim: raise Unsupported("too many indices")
        out = []; d = 0
        for x in idx:
            if x is None: out.append(("new",)); continue
            dimn = a.shape[d]
            if isinstance(x, slice): out.append(("slice", d) + self.slice(x, dimn)); d += 1
            elif isinstance(x, Arr) and x.ndim > 0: out.append(("fancy", d, x)); d += consumes(x)
            elif it.seq_of(x) is not None: out.append(("fancy", d, self.asarr(x))); d += 1
            else:
                t = S(x)
                t = self.index(t, dimn)
                out.append(("int", d, t)); d += 1
        return out
    def index(self, t, n):
        it = self.it
        t = norm_T(t, it.ctx)
        if isnum(t):
            if val(t) < 0: t = norm_T(add(n, t), it.ctx)
        elif not it.ctx.entails(le(ZERO, t)):
            if it.ctx.entails(lt(t, ZERO)): t = norm_T(add(n, t), it.ctx)
        it.oblige("bounds", and_(le(ZERO, t), lt(t, n)), "index %s within [0,%s)" % (t, n))
        return t
    def slice(self, s, n):
        it = self.it; ctx = it.ctx
        step = 1 if s.step is None else it.conc_int(s.step)
        if step == -1 and s.start is None and s.stop is None:
            return (sub(n, 1), n, num(-1))
        def clampv(x, dflt):
            if x is None: return dflt
            t = norm_T(S(x), ctx)
            if isnum(t) and val(t) < 0: t = norm_T(add(n, t), ctx)
            elif not isnum(t) and ctx.entails(lt(t, ZERO)): t = norm_T(add(n, t), ctx)
            if not ctx.entails(le(t, n)): 
                t = norm_T(tmin(t, n), ctx)
            if not ctx.entails(le(ZERO, t)):
                t = norm_T(tmax(t, ZERO), ctx)
            return t
        lo = clampv(s.start, ZERO); hi = clampv(s.stop, n)
        ln = norm_T(sub(hi, lo), ctx)
        if step > 1:
            ln = norm_T(fdiv(add(ln, num(step - 1)), num(step)), ctx)
        elif step < 0: raise Unsupported("negative slice step")
        if not ctx.entails(le(ZERO, ln)):
            ln = norm_T(tmax(ln, ZERO), ctx)
        return (lo, ln, num(step))
    def view(self, a, spec):
        sh = []; plan = []   # plan per base dim
        for e in spec:
            if e[0] == "new": sh.append(ONE); plan.append(("new", len(sh) - 1))
            elif e[0] == "slice":
                _, d, lo, ln, st = e
                sh.append(ln); plan.append(("slice", len(sh) - 1, lo, ln, st))
            else: plan.append(("int", e[2]))
        f0, i0 = a.fwd, a.inv
        def fwd(i):
            b = []
            for p in plan:
                if p[0] == "new": continue
                if p[0] == "int": b.append(p[1])
                else: b.append(add(p[2], mul(p[4], i[p[1]])))
            b = tuple(b)
            return f0(b) if f0 else b
        def inv(b):
            c, j = i0(b) if i0 else (TRUE, b)
            out = [ZERO] * len(sh); k = 0
            for p in plan:
                if p[0] == "new": continue
                x = j[k]; dimn = a.shape[k]; k += 1
                if p[0] == "int": c = and_(c, eq(x, p[1]))
                else:
                    lo, ln, st = p[2], p[3], p[4]
                    full = lo is ZERO and st is ONE and (ln is dimn)
                    if st is ONE:
                        v = sub(x, lo)
                        if not full:
                            if lo is not ZERO: c = and_(c, le(lo, x))
                            c = and_(c, lt(x, norm_T(add(lo, ln))))
                    elif isnum(st) and val(st) == -1:
                        v = sub(lo, x)
                    else:
                        v = fdiv(sub(x, lo), st)
                        c = and_(c, le(lo, x), eq(fmod(sub(x, lo), st), ZERO), lt(v, ln))
                    out[p[1]] = v
            return c, tuple(out)
        return Arr(a.store, sh, fwd, inv)
    def getitem(self, a, idx):
        if isinstance(a, Masked):
            # rows removed from a matrix: whole columns can be taken
            spec = self.parse_index(a, idx)
            if not all(e[0] in ("int", "slice") for e in spec) or spec[0][0] == "int" or a.ndim != 2 or len(spec) != 2: raise Unsupported("indexing a masked selection")
            if not (isinstance(idx, tuple) and idx[0] == slice(None)): raise Unsupported("indexing a masked selection")
            v = self.getitem(Arr(a.store, a.shape, a.fwd, a.inv), idx); w = self.getitem(a.mask, idx)
            r = Masked(v.store, v.shape, v.fwd, v.inv); r.mask = w; return r
        spec = self.parse_index(a, idx)
        fancy = [e for e in spec if e[0] == "fancy"]
        if not fancy:
            if all(e[0] == "int" for e in spec): return a.get([e[2] for e in spec])
            return self.view(a, spec)
        if any(f[2].dtype == "b" for f in fancy):
            if len(spec) == 1 and len(fancy) == 1 and fancy[0][2].ndim == a.ndim and self.it.bag_masks:
                r = Masked(a.copy().store, a.shape); r.mask = fancy[0][2]; return r
            if len(spec) >= 1 and len(fancy) == 1 and fancy[0][2].ndim == 1: return self.mask_get(a, spec, fancy[0])
            raise Unsupported("boolean mask indexing")
        sh = self.bshape([f[2].shape for f in fancy])
        # result dims: all fancy dims placed at position of the first fancy (contiguous assumed)
        dims = []; pos = None
        for e in spec:
            if e[0] == "fancy":
                if pos is None: pos = len(dims); dims += [("f", k) for k in range(len(sh))]
            elif e[0] == "slice": dims.append(("s", e))
            elif e[0] == "new": dims.append(("n",))
            elif e[0] == "int": pass
        rs = [sh[d[1]] if d[0] == "f" else (d[1][3] if d[0] == "s" else ONE) for d in dims]
        def at(*i):
            fi = tuple(i[k] for k, d in enumerate(dims) if d[0] == "f")
            b = [None] * a.ndim
            for k, d in enumerate(dims):
                if d[0] == "s": b[d[1][1]] = add(d[1][2], mul(d[1][4], i[k]))
            for e in spec:
                if e[0] == "fancy":
                    t = self.bget2(e[2], fi, sh)
                    if isnum(t) and val(t) < 0: t = add(a.shape[e[1]], t)
                    elif not isnum(t) and self.it.fancy_neg: t = ite(lt(t, ZERO), add(t, a.shape[e[1]]), t)
                    b[e[1]] = t
                elif e[0] == "int": b[e[1]] = e[2]
            return a.get(b)
        return mkarr(rs, at, a.dtype)
    def mask_get(self, a, spec, f):
        """a[mask, :, ...]: the rows whose mask entry is true, in order: row i is row nth!(mask, i) of count!(mask)"""
        m = f[2]; d = f[1]
        if m.ndim != 1 or any(e[0] not in ("fancy", "slice", "int") for e in spec): raise Unsupported("boolean mask read")
        k = fresh("k"); L = norm_T(Lam(k, m.shape[0], m.get((k,))), self.it.ctx)
        n = app("count!", L, s="I"); sh = []; plan = {}
        for e in spec:
            if e[0] == "fancy": plan[d] = ("f", len(sh)); sh.append(n)
            elif e[0] == "int": plan[e[1]] = ("i", e[2])
            else: plan[e[1]] = ("s", len(sh), e[2], e[4]); sh.append(e[3])
        def at(*i):
            b = []
            for q in range(a.ndim):
                p = plan[q]
                b.append(app("nth!", L, i[p[1]], s="I") if p[0] == "f" else p[1] if p[0] == "i" else add(p[2], mul(p[3], i[p[1]])))
            return a.get(b)
        return mkarr(sh, at, a.dtype)
    def setitem(self, a, idx, v):
        spec = self.parse_index(a, idx)
        fancy = [e for e in spec if e[0] == "fancy"]
        if not fancy:
            w = self.view(a, spec)
            if isinstance(v, Arr) or self.it.seq_of(v) is not None:
                v = self.asarr(v)
                sh = self.bshape([w.shape, v.shape])
                while len(v.shape) > len(w.shape):
                    if not is1(v.shape[0]): raise Unsupported("assign rank")
                    v = self.reshape(v, v.shape[1:])
                vc = v.copy() if v.store is a.store else v
                frozen = vc.store.c["fn"]
                snap = Arr(Store(vc.store.shape, frozen[0], frozen[1], vc.store.dtype), vc.shape, vc.fwd, vc.inv)
                w.write(lambda i: TRUE, lambda i: self.bget2(snap, i, w.shape))
            else:
                t = S(v)
                w.write(lambda i: TRUE, lambda i: t)
            return
        if len(fancy) == 1 and fancy[0][2].dtype == "b":
            m = fancy[0][2]; d = fancy[0][1]
            if all(e[0] in ("fancy",) or (e[0] == "slice") for e in spec) and not (isinstance(v, Arr) and v.ndim > 0 and not is1(v.shape[0])):
                rng = range(d, d + m.ndim)
                sl = [e for e in spec if e[0] == "slice"]
                def region(i):
                    c = m.get([i[k] for k in rng])
                    for e in sl: c = and_(c, le(e[2], i[e[1]]), lt(i[e[1]], add(e[2], e[3])))
                    return c
                a.write(region, lambda i: self.S1(v))
                return
            raise Unsupported("boolean mask write")
        if len(fancy) == 1 and fancy[0][2].ndim == 1 and all(e[0] in ("fancy", "slice", "int") for e in spec):
            ix = fancy[0][2]; d = fancy[0][1]
            n = ix.shape[0]
            others = [e for e in spec if e[0] != "fancy"]
            if isnum(n) and val(n) <= 8:
                for k in range(int(val(n))):
                    idx2 = list(idx) if isinstance(idx, tuple) else [idx]
                    idx2[[j for j, e in enumerate(spec) if e[0] == "fancy"][0]] = ix.get((num(k),))
                    if isinstance(v, Arr):
                        wsh = [e for e in spec if e[0] != "int"]
                        pos = [j for j, e in enumerate(wsh) if e[0] == "fancy"][0]
                        vv = self.take_b(v, len(wsh), pos, num(k))
                    else: vv = v
                    self.setitem(a, tuple(idx2), vv)
                return
            if not isinstance(v, Arr):
                def region(i):
                    q = fresh("q"); c = binder("exists", q, n, eq(ix.get((q,)), i[d]))
                    for e in others:
                        if e[0] == "int": c = and_(c, eq(i[e[1]], e[2]))
                        else: c = and_(c, le(e[2], i[e[1]]), lt(i[e[1]], add(e[2], e[3])))
                    return c
                a.write(region, lambda i: S(v)); return
        if len(fancy) == 2 and len(spec) == 2 and all(e[2].ndim == 1 for e in fancy) and isinstance(v, Arr) and v.ndim == 1 and getattr(self.it, "pairs", None):
            # a[p[:, 0], p[:, 1]] = v where the rows of p enumerate every pair 0 <= s < t < n exactly once
            q = fresh("q"); g = [norm_T(e[2].get((q,)), self.it.ctx) for e in fancy]; P, np_, n = self.it.pairs
            col = [x.a[2] if x.op == "app" and x.a[0] == P and len(x.a) == 3 and x.a[1] is q else None for x in g]
            if set(col) == {ZERO, ONE}:
                self.need_same(v.shape[0], np_, "pair values")
                for e in fancy: self.need_same(a.shape[e[1]], n, "pair index")
                k = fresh("k"); pv = norm(v.get((k,)), self.it.ctx.extend(le(ZERO, k), lt(k, np_))); lo = fancy[col.index(ZERO)][1]; hi = 1 - lo
                frozen = a.copy(); i, j = fresh("i"), fresh("j"); o = frozen.get((i, j)); c = lt(i, j) if lo == 0 else lt(j, i)
                cx = self.it.ctx.extend(le(ZERO, i), lt(i, n), le(ZERO, j), lt(j, n), c)
                o = replace_apps(o, lambda t: ite(lt(t.a[2], t.a[3]), t, ZERO) if t.a[0] == "upp" else None)
                keep = prove_zero(o, cx)
                # linear in the values: factors common to all pairs are taken out
                parts = [(mono_T(tuple(x for x in m if k not in fv(x[0]) | fv(x[1])), c), norm_T(Lam(k, np_, mono_T(tuple(x for x in m if k in fv(x[0]) | fv(x[1])))), self.it.ctx)) for m, c in pv.items()]
                a.write(lambda i: TRUE, lambda i: add(frozen.get(i) if keep else ite(lt(i[lo], i[hi]), ZERO, frozen.get(i)), *[mul(c, app("upp", L, i[lo], i[hi])) for c, L in parts])); return
        if fancy and all(e[2].ndim == 1 for e in fancy) and all(e[0] in ("fancy", "int") for e in spec) and (not isinstance(v, Arr) or v.ndim <= 1):
            # shifted ranges a[arange(n) + c, arange(n) + d, ...] = v
            n = norm_T(fancy[0][2].shape[0], self.it.ctx); q = fresh("q"); cs = []; free = []
            for e in fancy:
                if not self.same(e[2].shape[0], n): raise Unsupported("fancy index write")
                cx = self.it.ctx.extend(le(ZERO, q), lt(q, n)); g = e[2].get((q,))
                c = norm_T(sub(g, q), cx)
                if q not in fv(c) and self.it.ctx.entails(le(ZERO, c)): cs.append((e[1], c)); continue
                save = self.it.ctx; self.it.ctx = cx
                try: self.it.oblige("bounds", and_(le(ZERO, g), lt(g, a.shape[e[1]])), "index %s within [0,%s)" % (g, a.shape[e[1]]))
                finally: self.it.ctx = save
                free.append((e[1], e[2]))
            if not cs: raise Unsupported("fancy index write")
            snap = v.copy() if isinstance(v, Arr) and v.ndim else v
            pos = lambda i: sub(i[cs[0][0]], cs[0][1])
            def region(i):
                p = pos(i); c = and_(le(ZERO, p), lt(p, n))
                for d, o in cs[1:]: c = and_(c, eq(sub(i[d], o), p))
                for d, g in free: c = and_(c, eq(i[d], g.get((p,))))
                for e in spec:
                    if e[0] == "int": c = and_(c, eq(i[e[1]], e[2]))
                return c
            a.write(region, lambda i: self.bget2(snap, (pos(i),), (n,)) if isinstance(snap, Arr) and snap.ndim else S(snap))
            return
        raise Unsupported("fancy index write")
    def S1(self, v):
        return S(v)
    def take_b(self, v, nd, pos, k):
        """v broadcast to rank nd, taken at index k of dimension pos"""
        off = nd - v.ndim
        p = pos - off
        if p < 0: return v
        if is1(v.shape[p]): k = ZERO
        sh = v.shape[:p] + v.shape[p + 1:]
        if not sh: return v.get((k,))
        return mkarr(sh, lambda *i: v.get(i[:p] + (k,) + i[p:]), v.dtype)
