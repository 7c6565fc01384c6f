"""Assumed contracts of builtins, numpy and scipy (the trusted base)."""
from fractions import Fraction
from .terms import *
from .norm import *
from .arrays import *

HARMLESS = {"copy", "check_finite", "overwrite_a", "overwrite_b", "subok"}
class ArgList(list):
    """positional arguments; remembers which ones the model looked at"""
    def __init__(self, a): list.__init__(self, a); self.seen = set()
    def __getitem__(self, k):
        self.seen.update(range(len(self))[k] if isinstance(k, slice) else [range(len(self))[k]] if -len(self) <= k < len(self) else [])
        return list.__getitem__(self, k)
    def __iter__(self): self.seen.update(range(len(self))); return list.__iter__(self)
    def __add__(self, o): self.seen.update(range(len(self))); return list(list.__add__(self, o))
class ArgDict(dict):
    def __init__(self, a): dict.__init__(self, a); self.seen = set()
    def get(self, k, d=None): self.seen.add(k); return dict.get(self, k, d)
    def __getitem__(self, k): self.seen.add(k); return dict.__getitem__(self, k)
    def __contains__(self, k): self.seen.add(k); return dict.__contains__(self, k)
    def pop(self, k, *d): return dict.pop(self, k, *d)
    def items(self): self.seen.update(dict.keys(self)); return dict.items(self)
    def keys(self): self.seen.update(dict.keys(self)); return dict.keys(self)

def install(it):
    from . import interp as I
    N = it.natives
    PyList, PyDict, PySet, SymSeq, RangeVal, Opaque, Obj, ClassVal, Builtin, Func, Bound, Native, ExcVal, PyRaise = (
        I.PyList, I.PyDict, I.PySet, I.SymSeq, I.RangeVal, I.Opaque, I.Obj, I.ClassVal, I.Builtin, I.Func, I.Bound, I.Native, I.ExcVal, I.PyRaise)
    S = I.S; NUMT = I.NUMT
    def reg(*names):
        def d(f):
            def g(it, a, kw, f=f):
                a_ = ArgList(a); k_ = ArgDict(kw); r = f(it, a_, k_)
                left = ["argument %d" % i for i in range(len(a_)) if i not in a_.seen] + ["argument " + str(k) for k in k_ if k not in k_.seen and k not in HARMLESS]
                if left: raise Unsupported("%s of %s not modelled" % (", ".join(left), names[0]))
                return r
            g.strict = True
            for n in names: N[n] = g
            return f
        return d
    def arg(a, kw, k, name, default=None):
        if len(a) > k: return a[k]
        return kw.get(name, default)
    np_ = it.np
    def A(x): return np_.asarr(x)
    def shape_of(x):
        s = it.seq_of(x)
        if s is None: return (S(x),)
        return tuple(S(d) for d in s)
    def dt(x, default="f"):
        if x is None: return default
        if isinstance(x, Builtin):
            n = x.name.split(".")[-1]
            if n.startswith("int") or n.startswith("uint"): return "i"
            if n.startswith("bool"): return "b"
            if n == "object": return "o"
            return "f"
        if isinstance(x, str): return "i" if x.startswith("int") else "b" if x.startswith("bool") else "f"
        if isinstance(x, I.Opaque) and x.what.startswith("dtype:"): return x.what[6:]
        return default
    # ------------------------------------------------------------ python builtins
    @reg("range")
    def _range(it, a, kw):
        if len(a) == 1: return RangeVal(0, a[0], 1)
        if len(a) == 2: return RangeVal(a[0], a[1], 1)
        return RangeVal(*a)
    @reg("slice")
    def _slice(it, a, kw):
        return slice(*a)
    @reg("numpy.ndindex")
    def _ndindex(it, a, kw):
        x = a[:]; x = x[0] if len(x) == 1 and isinstance(x[0], (tuple, PyList)) else x
        return I.NdIndex(tuple(x.items if isinstance(x, PyList) else x))
    @reg("len")
    def _len(it, a, kw):
        x = a[0]
        if isinstance(x, Arr): return simp(x.shape[0])
        if isinstance(x, str): return len(x)
        if isinstance(x, PyDict): return len(x.whole().d)
        if isinstance(x, Obj): return it.call(it.getattr(x, "__len__"), [])
        s = it.seq_of(x)
        if isinstance(s, list): return len(s)
        if s is not None: return simp(s[1])
        if x is None or isinstance(x, NUMT): raise PyRaise(ExcVal("TypeError", ["len"]))
        raise Unsupported("len of %r" % (x,))
    def simp(t):
        t = norm_T(t, it.ctx)
        if isnum(t): return int(val(t)) if val(t).denominator == 1 else val(t)
        return t
    it.simp = simp
    @reg("enumerate")
    def _enum(it, a, kw):
        st = arg(a, kw, 1, "start", 0)
        r = it.iterate(a[0])
        if r[0] == "list": return PyList([(k + st, v) for k, v in enumerate(r[1])])
        return SymSeq(r[1], lambda i: (add(i, S(st)), r[2](i)))
    @reg("zip")
    def _zip(it, a, kw):
        rs = [it.iterate(x) for x in a]
        if all(r[0] == "list" for r in rs): return PyList([tuple(t) for t in zip(*[r[1] for r in rs])])
        if any(r[0] == "list" for r in rs): raise Unsupported("zip of mixed sequences")
        n = rs[0][1]
        for r in rs[1:]:
            if not np_.same(n, r[1]): n = tmin(n, r[1])
        return SymSeq(n, lambda i: tuple(r[2](i) for r in rs))
    @reg("list")
    def _list(it, a, kw):
        if not a: return PyList([])
        r = it.iterate(a[0])
        if r[0] == "list": return PyList(r[1])
        l = PyList([]); l.c["items"] = SymSeq(r[1], r[2]); return l
    @reg("tuple")
    def _tuple(it, a, kw):
        if not a: return ()
        r = it.iterate(a[0])
        if r[0] == "list": return tuple(r[1])
        return SymSeq(r[1], r[2])
    @reg("set", "frozenset")
    def _set(it, a, kw):
        if not a: return PySet([])
        r = it.iterate(a[0])
        if r[0] != "list": raise Unsupported("set of symbolic")
        out = []
        for x in r[1]:
            if not any(it.pyeq(x, y) is True for y in out): out.append(x)
        return PySet(out)
    @reg("dict")
    def _dict(it, a, kw):
        d = {}
        if a and isinstance(a[0], PyDict) and not kw:
            r = a[0].dup(); r.factory = None; return r
        if a:
            if isinstance(a[0], PyDict): d.update(a[0].whole().d)
            else:
                r = it.iterate(a[0])
                if r[0] != "list": raise Unsupported("dict of symbolic")
                for x in r[1]:
                    k, v = it.iterate(x)[1]; d[it.hashable(k)] = v
        d.update(kw)
        return PyDict(d)
    @reg("str", "repr")
    def _str(it, a, kw):
        x = a[0] if a else ""
        if isinstance(x, (str, int)): return str(x)
        if isinstance(x, T) and isnum(norm_T(x, it.ctx)): return str(simp(x))
        return Opaque("string")
    @reg("int", "numpy.int", "numpy.int32", "numpy.int64")
    def _int(it, a, kw):
        x = a[0]
        if isinstance(x, bool): return int(x)
        if isinstance(x, NUMT): return int(x)
        if isinstance(x, str): return int(x)
        t = norm_T(S(x), it.ctx)
        if t.s == "B": return ite(t, ONE, ZERO)
        if t.s == "I": return simp(t)
        if isnum(t): return int(val(t))
        # int(p/q) of integers, nonnegative
        P = norm(t, it.ctx)
        den = 1
        for c in P.values():
            from math import lcm
            den = lcm(den, c.denominator)
        Q = pscale(P, den)
        if is_intpoly(Q) and den > 1:
            q = npoly_T(Q)
            if it.ctx.nonneg(q) or it.ctx.entails(le(ZERO, q)): return simp(fdiv(q, num(den)))
        return mk("fn_trunc", (t,), "I")
    @reg("_unsupported")
    def _unsupported(it, a, kw): raise Unsupported("C++ front end: %s" % (a[0],))
    @reg("_cdiv")
    def _cdiv(it, a, kw):
        x, y = S(a[0]), S(a[1])
        it.oblige("int-division", and_(le(ZERO, x), lt(ZERO, y)), "integer division of nonnegative by positive")
        return simp(fdiv(x, y))
    @reg("_cmod")
    def _cmod(it, a, kw):
        x, y = S(a[0]), S(a[1])
        it.oblige("int-division", and_(le(ZERO, x), lt(ZERO, y)), "remainder of nonnegative by positive")
        return simp(fmod(x, y))
    @reg("float", "numpy.float64", "numpy.float", "numpy.float32", "numpy.double")
    def _float(it, a, kw):
        x = a[0] if a else 0
        if isinstance(x, NUMT): return Fraction(x)
        if isinstance(x, str):
            if x in ("inf", "-inf"): return Opaque(x)
            return Fraction(x)
        return S(x)
    @reg("bool", "numpy.bool_", "numpy.bool")
    def _bool(it, a, kw): return it.truth(a[0])
    @reg("abs", "numpy.abs", "numpy.absolute", "numpy.fabs")
    def _abs(it, a, kw):
        if isinstance(a[0], NUMT): return abs(a[0])
        return np_.ew(absf, seqarr(a[0]))
    def seqarr(x):
        return A(x) if it.seq_of(x) is not None else x
    def pyminmax(ismax):
        def f(it, a, kw):
            if len(a) == 1:
                if isinstance(a[0], Arr) : return np_.reduce("max*" if ismax else "min*", a[0])
                r = it.iterate(a[0])
                if r[0] == "sym":
                    v = fresh("r"); return binder("max*" if ismax else "min*", v, r[1], S(r[2](v)))
                xs = r[1]
            else: xs = a
            if all(isinstance(x, NUMT) for x in xs): return (max if ismax else min)(xs)
            if any(isinstance(x, Opaque) for x in xs): raise Unsupported("opaque min/max")
            if all(isinstance(x, str) for x in xs): return (max if ismax else min)(xs)
            # python semantics: first extremal element
            r = S(xs[0])
            for x in xs[1:]:
                x = S(x)
                r = ite(lt(r, x), x, r) if ismax else ite(lt(x, r), x, r)
            return simp(r) if r.s == "I" else r
        return f
    N["max"] = pyminmax(True); N["min"] = pyminmax(False)
    @reg("sum")
    def _sum(it, a, kw):
        r = it.iterate(a[0]); acc = arg(a, kw, 1, "start", 0)
        if r[0] == "sym":
            v = fresh("r"); return add(S(acc), Sum(v, r[1], S(r[2](v))))
        for x in r[1]: acc = it.binop("Add", acc, x)
        return acc
    @reg("sorted")
    def _sorted(it, a, kw):
        r = it.iterate(a[0])
        if r[0] == "list" and all(isinstance(x, (str,) + NUMT) for x in r[1]) and "key" not in kw:
            return PyList(sorted(r[1], reverse=bool(kw.get("reverse", False))))
        raise Unsupported("sorted")
    @reg("reversed")
    def _rev(it, a, kw):
        r = it.iterate(a[0])
        if r[0] == "list": return PyList(r[1][::-1])
        return SymSeq(r[1], lambda i: r[2](sub(sub(r[1], 1), i)))
    @reg("isinstance")
    def _isinst(it, a, kw):
        x, t = a
        ts = it.seq_of(t) if it.seq_of(t) is not None else [t]
        if isinstance(x, T) and x.s == "U":
            acc = FALSE
            for y in ts: acc = or_(acc, app("isinst", x, it.tou(typename(y)), s="B"))
            return acc
        for y in ts:
            if isinst1(x, y): return True
        return False
    def typename(y):
        if isinstance(y, T): return y
        if isinstance(y, (Builtin, ClassVal)): return "type:" + y.name
        raise Unsupported("isinstance type %r" % (y,))
    def isinst1(x, y):
        if y is None: raise PyRaise(ExcVal("TypeError", ["isinstance arg"]))
        if isinstance(y, ClassVal): return isinstance(x, Obj) and y in x.cls.mro()
        n = y.name.split(".")[-1] if isinstance(y, Builtin) else "?"
        if n == "ndarray": return isinstance(x, Arr) and not isinstance(x, Sparse)
        if n in ("spmatrix", "csc_matrix", "csr_matrix"): return isinstance(x, Sparse)
        if n == "bool": return isinstance(x, bool) or isinstance(x, T) and x.s == "B"
        if n in ("int",): return isinstance(x, int) or (isinstance(x, T) and x.s == "I")
        if n in ("float", "float64"): return isinstance(x, Fraction) or (isinstance(x, T) and x.s == "R")
        if n == "str": return isinstance(x, str) or isinstance(x, Opaque)
        if n == "list": return isinstance(x, PyList)
        if n == "tuple": return isinstance(x, tuple)
        if n == "dict": return isinstance(x, PyDict)
        if n in ("integer", "int64", "int32", "Integral"): return isinstance(x, int) or (isinstance(x, T) and x.s == "I")
        if n == "FunctionType" or n == "LambdaType": return isinstance(x, Func)
        if n == "object": return True
        if n in ("NoneType",): return x is None
        if n in ("generic",): return isinstance(x, T)
        if n in I.EXC: return isinstance(x, ExcVal) and I.exc_isa(x.cls, n)
        if isinstance(x, Obj): return any(isinstance(b, Builtin) and b.name == y.name for c in x.cls.mro() for b in getattr(c, "extbases", []))
        return False
    @reg("issubclass")
    def _issub(it, a, kw): return a[1] in a[0].mro()
    @reg("hasattr")
    def _hasattr(it, a, kw):
        try: it.getattr(a[0], a[1]); return True
        except PyRaise: return False
    @reg("getattr")
    def _getattr(it, a, kw):
        if len(a) == 3:
            try: return it.getattr(a[0], a[1])
            except PyRaise: return a[2]
        return it.getattr(a[0], a[1])
    @reg("setattr")
    def _setattr(it, a, kw): it.setattr(a[0], a[1], a[2])
    @reg("print", "warnings.warn", "logging.warning", "logging.info", "warnings.filterwarnings", "warnings.simplefilter", "gc.collect")
    def _print(it, a, kw): a[:]; kw.items(); return None
    @reg("type")
    def _type(it, a, kw):
        x = a[0]
        if isinstance(x, Obj): return x.cls
        for n, c in (("bool", bool), ("int", int), ("float", Fraction), ("str", str), ("tuple", tuple), ("list", PyList), ("dict", PyDict)):
            if isinstance(x, c): return Builtin(n)
        if isinstance(x, Arr): return Builtin("numpy.ndarray")
        if x is None: return Builtin("NoneType")
        raise Unsupported("type of %r" % (x,))
    @reg("callable")
    def _callable(it, a, kw): return isinstance(a[0], (Func, Bound, Native, Builtin, ClassVal))
    @reg("any")
    def _any(it, a, kw): return anyall(a[0], False)
    @reg("all")
    def _all(it, a, kw): return anyall(a[0], True)
    def anyall(x, isall):
        if isinstance(x, Arr): return redbool(x, "forall" if isall else "exists", None)
        r = it.iterate(x)
        if r[0] == "sym":
            v = fresh("q"); c = it.truth(r[2](v))
            c = TRUE if c is True else FALSE if c is False else c
            return binder("forall" if isall else "exists", v, r[1], c)
        acc = TRUE if isall else FALSE
        for y in r[1]:
            c = it.truth(y); c = TRUE if c is True else FALSE if c is False else c
            acc = and_(acc, c) if isall else or_(acc, c)
        return True if acc is TRUE else False if acc is FALSE else acc
    @reg("map")
    def _map(it, a, kw):
        r = it.iterate(a[1])
        if r[0] == "list": return PyList([it.call(a[0], [x]) for x in r[1]])
        return SymSeq(r[1], lambda i: it.call(a[0], [r[2](i)]))
    @reg("round")
    def _round(it, a, kw):
        if isinstance(a[0], NUMT) and len(a) == 1: return round(a[0])
        return mk("fn_round", (S(a[0]),), "I")
    @reg("id")
    def _id(it, a, kw): return Opaque("id")
    @reg("object")
    def _object(it, a, kw): return Opaque("object")
    @reg("math.sqrt", "numpy.sqrt")
    def _sqrt(it, a, kw): return np_.ew(sqrt, seqarr(a[0]), dtype="f")
    # ------------------------------------------------------------ numpy construction
    @reg("numpy.array")
    def _array(it, a, kw):
        d = kw.get("dtype", a[1] if len(a) > 1 else None)
        r = np_.asarr(a[0], copy=True)
        if d is not None: r = cast(r, dt(d, r.dtype))
        nd = kw.get("ndmin")
        if nd: 
            while r.ndim < nd: r = np_.reshape(r, (ONE,) + r.shape).copy()
        return r
    def cast(r, d):
        if d == r.dtype: return r
        if d == "i" and r.dtype == "f":
            return mkarr(r.shape, lambda *i: totrunc(r.get(i)), "i")
        if d in "if" and r.dtype == "b":
            return mkarr(r.shape, lambda *i: ite(r.get(i), ONE, ZERO), d)
        if d == "b" and r.dtype != "b":
            return mkarr(r.shape, lambda *i: ne(r.get(i), ZERO), "b")
        return mkarr(r.shape, lambda *i: r.get(i), d)
    def totrunc(t):
        t = norm_T(t, it.ctx)
        if t.s == "I": return t
        return mk("fn_trunc", (t,), "I")
    it.cast = cast
    @reg("numpy.asarray", "numpy.ascontiguousarray", "numpy.asanyarray", "numpy.asfortranarray")
    def _asarray(it, a, kw):
        q = it.seq_of(a[0]) if not isinstance(a[0], Arr) else None
        if isinstance(q, list) and q and all(isinstance(x, (I.PyDict, I.Obj)) for x in q): return I.ObjArr(list(q))
        r = A(a[0]); d = kw.get("dtype", a[1] if len(a) > 1 else None)
        return cast(r, dt(d, r.dtype)) if d is not None else r
    @reg("numpy.atleast_2d")
    def _a2(it, a, kw):
        r = A(a[0])
        if r.ndim == 0: return np_.reshape(r, (ONE, ONE))
        if r.ndim == 1: return np_.view(r, [("new",), ("slice", 0, ZERO, r.shape[0], ONE)])
        return r
    @reg("numpy.atleast_1d")
    def _a1(it, a, kw):
        r = A(a[0])
        return mkarr((1,), lambda i: r.get(()), r.dtype) if r.ndim == 0 else r
    def filler(v, like=False):
        def f(it, a, kw):
            d = kw.get("dtype", a[1] if len(a) > 1 else None)
            if like:
                x = A(a[0]); return mkarr(x.shape, lambda *i: num(v), dt(d, x.dtype))
            ddt = dt(d)
            w = num(v) if ddt != "b" else (TRUE if v else FALSE)
            return mkarr(shape_of(a[0] if a else kw["shape"]), lambda *i: w, ddt)
        return f
    N["numpy.zeros"] = filler(0); N["numpy.ones"] = filler(1)
    N["numpy.zeros_like"] = filler(0, True); N["numpy.ones_like"] = filler(1, True)
    @reg("numpy.empty", "numpy.empty_like")
    def _empty(it, a, kw):
        it.loop_ctr += 1
        nm_ = "uninit!%d" % it.loop_ctr
        sh = A(a[0]).shape if isinstance(a[0], Arr) else shape_of(a[0])
        dt_ = arg(a, kw, 1, "dtype")
        if dt_ is not None and dt(dt_) not in "fi": raise Unsupported("uninitialised array of dtype %r" % (dt_,))
        return symarr(nm_, *sh, s="I" if dt_ is not None and dt(dt_) == "i" else "R")
    @reg("numpy.full")
    def _full(it, a, kw):
        return mkarr(shape_of(a[0]), lambda *i: S(a[1]), "f")
    @reg("numpy.eye", "numpy.identity")
    def _eye(it, a, kw):
        dt_ = kw.get("dtype")
        if dt_ is not None and dt(dt_) not in "fi": raise Unsupported("eye dtype")
        return mkarr((S(a[0]), S(a[1]) if len(a) > 1 and a[1] is not None else S(a[0])), lambda i, j: ite(eq(i, j), ONE, ZERO))
    @reg("numpy.arange")
    def _arange(it, a, kw):
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        st_ = S(st); n = sub(S(hi), S(lo))
        if st_ is not ONE: n = fdiv(add(n, sub(st_, 1)), st_)
        n = norm_T(n, it.ctx)
        if not it.ctx.entails(le(ZERO, n)): n = norm_T(tmax(ZERO, n), it.ctx)
        return mkarr((n,), lambda i: add(S(lo), mul(st_, i)), "i" if all(S(x).s == "I" and not isinstance(x, Fraction) for x in (lo, hi, st)) else "f")
    @reg("numpy.linspace")
    def _linspace(it, a, kw):
        if kw.get("endpoint", True) is not True: raise Unsupported("linspace without end point")
        n = S(arg(a, kw, 2, "num", 50)); lo, hi = S(a[0]), S(a[1])
        return mkarr((n,), lambda i: ite(eq(n, ONE), lo, add(lo, mul(sub(hi, lo), i, power(sub(n, 1), -1)))))
    @reg("numpy.copy")
    def _copy(it, a, kw): return A(a[0]).copy()
    @reg("copy.copy")
    def _ccopy(it, a, kw):
        x = a[0]
        if isinstance(x, Arr): return x.copy()
        if isinstance(x, PyList): 
            r = PyList([]); r.c["items"] = x.items if not isinstance(x.items, list) else list(x.items); return r
        if isinstance(x, PyDict): return x.dup()
        if isinstance(x, Obj):
            o = Obj(x.cls); o.c = dict(x.c); return o
        return x
    @reg("copy.deepcopy")
    def _dcopy(it, a, kw):
        memo = {}
        def go(x):
            if id(x) in memo: return memo[id(x)]
            if isinstance(x, Arr): r = x.copy()
            elif isinstance(x, PyList):
                r = PyList([]); memo[id(x)] = r
                its = x.items
                r.c["items"] = [go(y) for y in its] if isinstance(its, list) else SymSeq(its.n, lambda i: go(its.f(i)))
            elif isinstance(x, PyDict): 
                r = PyDict(); memo[id(x)] = r
                r.c["d"] = {k: go(v) for k, v in x.d.items()}; r.factory = x.factory
                if x.base is not None: r.base = (x.base[0], lambda k, g=x.base[1]: go(g(k)))
            elif isinstance(x, tuple): r = tuple(go(y) for y in x)
            elif isinstance(x, Obj):
                r = Obj(x.cls); memo[id(x)] = r
                r.c = {k: go(v) for k, v in x.c.items()}
            else: r = x
            memo[id(x)] = r
            return r
        return go(a[0])
    # ------------------------------------------------------------ elementwise
    def un(name, f, dtype="f"):
        def g(it, a, kw):
            r = np_.ew(f, seqarr(a[0]), dtype=dtype)
            if "out" in kw: raise Unsupported("out=")
            return r
        N["numpy." + name] = g; N["math." + name] = g; N["scipy.special." + name] = g
    un("exp", exp); un("log", lambda x: fn("log", x)); un("sin", lambda x: fn("sin", x)); un("cos", lambda x: fn("cos", x))
    un("tan", lambda x: fn("tan", x)); un("tanh", lambda x: fn("tanh", x)); un("square", lambda x: power(x, 2), None)
    un("sign", lambda x: fn("sign", x)); un("floor", lambda x: x if x.s == "I" else mk("fn_floor", (x,), "I"))
    un("ceil", lambda x: x if x.s == "I" else mk("fn_ceil", (x,), "I"))
    un("log10", lambda x: fn("log10", x)); un("arctan", lambda x: fn("arctan", x)); un("negative", neg, None)
    un("rint", lambda x: x if x.s == "I" else mk("fn_round", (x,), "I")); un("radians", lambda x: mul(x, PI, Fraction(1, 180))); un("deg2rad", lambda x: mul(x, PI, Fraction(1, 180)))
    un("cosh", lambda x: fn("cosh", x)); un("sinh", lambda x: fn("sinh", x))
    # complex step: real(x + i h) and imag(f(x + i h)) to first order in h (trusted rule, error O(h^2))
    IMAG = var("IMAG*", "R")
    from .norm import D as D_
    un("real", lambda x: subst(x, {IMAG: ZERO}) if IMAG in fv(x) else x)
    un("imag", lambda x: subst(D_(x, IMAG), {IMAG: ZERO}) if IMAG in fv(x) else ZERO)
    def b_complex(it, a, kw):
        re = a[0]; im = a[1] if len(a) > 1 else 0
        it.builtins_used.add("complex-step differentiation")
        return add(S(re), mul(IMAG, S(im)))
    N["complex"] = b_complex
    un("isnan", lambda x: FALSE, "b"); un("isinf", lambda x: FALSE, "b"); un("isfinite", lambda x: TRUE, "b"); un("conj", lambda x: x)
    N["numpy.round"] = N["numpy.around"] = lambda it, a, kw: (N["numpy.rint"](it, a[:1], {}) if arg(a, kw, 1, "decimals", 0) in (0, None) else (_ for _ in ()).throw(Unsupported("round decimals")))
    N["numpy.arctan2"] = lambda it, a, kw: np_.ew(lambda x, y: fn("atan2", x, y), seqarr(a[0]), seqarr(a[1]), dtype="f")
    def bi(name, op):
        N["numpy." + name] = lambda it, a, kw: it.binop(op, seqarr(a[0]), seqarr(a[1]))
    for n_, o_ in (("multiply", "Mult"), ("divide", "Div"), ("true_divide", "Div"), ("add", "Add"), ("subtract", "Sub"), ("power", "Pow"), ("matmul", "MatMult"), ("mod", "Mod"), ("floor_divide", "FloorDiv")): bi(n_, o_)
    N["numpy.maximum"] = lambda it, a, kw: np_.ew(tmax, seqarr(a[0]), seqarr(a[1]))
    N["numpy.minimum"] = lambda it, a, kw: np_.ew(tmin, seqarr(a[0]), seqarr(a[1]))
    N["numpy.fmax"] = N["numpy.maximum"]; N["numpy.fmin"] = N["numpy.minimum"]
    def ctob(x): return x if not isinstance(x, bool) else (TRUE if x else FALSE)
    N["numpy.logical_and"] = lambda it, a, kw: np_.ew(and_, ctob(a[0]), ctob(a[1]), dtype="b")
    N["numpy.logical_or"] = lambda it, a, kw: np_.ew(or_, ctob(a[0]), ctob(a[1]), dtype="b")
    N["numpy.logical_not"] = lambda it, a, kw: np_.ew(not_, ctob(a[0]), dtype="b")
    for n_, o_ in (("equal", "Eq"), ("not_equal", "NotEq"), ("less", "Lt"), ("less_equal", "LtE"), ("greater", "Gt"), ("greater_equal", "GtE")):
        N["numpy." + n_] = lambda it, a, kw, o_=o_: it.compare(o_, a[0], a[1])
    @reg("numpy.where")
    def _where(it, a, kw):
        if len(a) != 3: raise Unsupported("where with one argument")
        c, x, y = a
        if isinstance(c, bool): c = TRUE if c else FALSE
        return np_.ew(lambda c, x, y: ite(c, x, y), c, seqarr(x), seqarr(y), dtype="f")
    @reg("numpy.clip")
    def _clip(it, a, kw): return np_.ew(lambda x, l, h: tmin(tmax(x, l), h), seqarr(a[0]), seqarr(a[1]), seqarr(a[2]))
    # ------------------------------------------------------------ reductions
    def red(name, op):
        def f(it, a, kw):
            x = a[0]
            if op in ("sum", "prod"):
                y = A(x)
                if y.dtype == "b": y = cast(y, "i")
                r = np_.reduce(op, y, arg(a, kw, 1, "axis"), kw.get("keepdims", False))
            else: r = np_.reduce(op, A(x), arg(a, kw, 1, "axis"), kw.get("keepdims", False))
            return r
        N["numpy." + name] = f
    red("sum", "sum"); red("prod", "prod"); red("product", "prod")
    for n_ in ("max", "amax", "nanmax"): red(n_, "max*")
    for n_ in ("min", "amin", "nanmin"): red(n_, "min*")
    def redbool(x, op, axis, keepdims=False):
        y = cast(A(x), "b")
        r = np_.reduce(op, y, axis, keepdims)
        return r
    N["numpy.all"] = lambda it, a, kw: bsc(redbool(a[0], "forall", arg(a, kw, 1, "axis")))
    N["numpy.any"] = lambda it, a, kw: bsc(redbool(a[0], "exists", arg(a, kw, 1, "axis")))
    def bsc(r):
        if isinstance(r, T):
            c = norm_cond(r, it.ctx)
            return True if c is TRUE else False if c is FALSE else c
        return r
    N["numpy.argmax"] = lambda it, a, kw: np_.argred("argmax*", A(a[0]), arg(a, kw, 1, "axis"))
    N["numpy.argmin"] = lambda it, a, kw: np_.argred("argmin*", A(a[0]), arg(a, kw, 1, "axis"))
    def count(x, axis):
        if axis is None: return np_.size(x)
        axes = axis if isinstance(axis, tuple) else (axis,)
        t = ONE
        for k in axes: t = mul(t, x.shape[it.conc_int(k) % x.ndim])
        return t
    @reg("numpy.mean", "numpy.average")
    def _mean(it, a, kw):
        x = A(a[0]); ax = arg(a, kw, 1, "axis")
        r = np_.reduce("sum", x, ax, kw.get("keepdims", False))
        return it.binop("Div", r, count(x, ax))
    @reg("numpy.var")
    def _var(it, a, kw):
        x = A(a[0]); ax = arg(a, kw, 1, "axis"); dd = kw.get("ddof", 0)
        m = it.binop("Div", np_.reduce("sum", x, ax, True), count(x, ax))
        d = np_.ew(power, np_.ew(sub, x, m), 2)
        return it.binop("Div", np_.reduce("sum", d, ax, kw.get("keepdims", False)), sub(count(x, ax), S(dd)))
    @reg("numpy.std")
    def _std(it, a, kw): return np_.ew(sqrt, _var(it, a, kw), dtype="f")
    @reg("numpy.linalg.norm", "scipy.linalg.norm")
    def _norm(it, a, kw):
        x = A(a[0]); o = arg(a, kw, 1, "ord"); ax = arg(a, kw, 2, "axis"); kd = kw.get("keepdims", False)
        if o is None or (isinstance(o, (int, Fraction)) and o == 2 and (x.ndim == 1 or ax is not None)):
            return np_.ew(sqrt, np_.reduce("sum", np_.ew(lambda t: power(t, 2), x, dtype="f"), ax, kd), dtype="f")
        if x.ndim == 1 or ax is not None:
            if isinstance(o, (int, Fraction)) and o == 1: return np_.reduce("sum", np_.ew(absf, x), ax, kd)
            if isinstance(o, Opaque) and o.what == "inf": return np_.reduce("max*", np_.ew(absf, x), ax, kd)
            return np_.ew(lambda s: power(s, power(S(o), -1)), np_.reduce("sum", np_.ew(lambda t: power(absf(t), S(o)), x, dtype="f"), ax, kd), dtype="f")
        if isinstance(o, int) and o == 2 and x.ndim == 2 and any(is1(d) for d in x.shape):
            return np_.ew(sqrt, np_.reduce("sum", np_.ew(lambda t: power(t, 2), x, dtype="f")), dtype="f")
        raise Unsupported("matrix norm")
    @reg("numpy.cumsum")
    def _cumsum(it, a, kw):
        x = A(a[0])
        if x.ndim != 1: raise Unsupported("cumsum nd")
        def at(i):
            k = fresh("k"); return Sum(k, add(i, 1), x.get((k,)))
        return mkarr(x.shape, at, x.dtype)
    # ------------------------------------------------------------ linear algebra / layout
    N["numpy.dot"] = N["scipy.dot"] = lambda it, a, kw: np_.dot(A(a[0]) if it.seq_of(a[0]) is not None else a[0], A(a[1]) if it.seq_of(a[1]) is not None else a[1])
    def inner(it, a, kw):
        x, y = A(a[0]), A(a[1])
        if x.ndim != 1 or y.ndim != 1: raise Unsupported("inner product of matrices")
        return np_.dot(x, y)
    N["numpy.inner"] = inner; N["numpy.vdot"] = inner
    N["numpy.einsum"] = lambda it, a, kw: np_.einsum(a[0], *[A(x) for x in a[1:]])
    @reg("numpy.tensordot")
    def _td(it, a, kw): raise Unsupported("tensordot")
    @reg("numpy.outer")
    def _outer(it, a, kw):
        def fl(z):
            z = A(z)
            return np_.reshape(z, (num(-1),)) if z.ndim != 1 else z
        x, y = fl(a[0]), fl(a[1])
        return mkarr((x.shape[0], y.shape[0]), lambda i, j: mul(x.get((i,)), y.get((j,))))
    @reg("numpy.kron")
    def _kron(it, a, kw):
        x, y = A(a[0]), A(a[1])
        if x.ndim != 1 or y.ndim != 1: raise Unsupported("kron")
        m = y.shape[0]
        return mkarr((mul(x.shape[0], m),), lambda i: mul(x.get((fdiv(i, m),)), y.get((fmod(i, m),))))
    @reg("numpy.tile", "numpy.matlib.repmat")
    def _tile(it, a, kw):
        x = A(a[0])
        if len(a) == 3: reps = (a[1], a[2])
        else: reps = it.seq_of(a[1]); reps = reps if reps is not None else [a[1]]
        reps = [S(r) for r in reps]
        while len(reps) < x.ndim: reps.insert(0, ONE)
        while x.ndim < len(reps): x = np_.reshape(x, (ONE,) + x.shape)
        sh = [norm_T(mul(d, r), it.ctx) for d, r in zip(x.shape, reps)]
        return mkarr(sh, lambda *i: x.get([(ZERO if is1(d) else (k if r is ONE else fmod(k, d))) for k, d, r in zip(i, x.shape, reps)]), x.dtype)
    @reg("numpy.repeat")
    def _repeat(it, a, kw):
        x = A(a[0]); r = S(arg(a, kw, 1, "repeats")); ax = arg(a, kw, 2, "axis")
        if ax is None: x = np_.reshape(x, (num(-1),)); ax = 0
        ax = it.conc_int(ax) % x.ndim
        sh = list(x.shape); sh[ax] = norm_T(mul(sh[ax], r), it.ctx)
        one = is1(x.shape[ax])
        return mkarr(sh, lambda *i: x.get(i[:ax] + ((ZERO if one else fdiv(i[ax], r)),) + i[ax + 1:]), x.dtype)
    def seqlist(x):
        s = it.seq_of(x)
        if isinstance(x, Arr): return [np_.getitem(x, k) for k in range(it.conc_int(x.shape[0]))]
        if not isinstance(s, list): raise Unsupported("stack of symbolic sequence")
        return s
    @reg("numpy.concatenate")
    def _concat(it, a, kw): 
        return np_.concat(seqlist(a[0]), it.conc_int(arg(a, kw, 1, "axis", 0)))
    def up2(x):
        x = A(x)
        return N["numpy.atleast_2d"](it, [x], {})
    @reg("numpy.vstack", "numpy.row_stack")
    def _vstack(it, a, kw):
        s = it.seq_of(a[0])
        if isinstance(s, tuple) and s[0] == "symseq":
            x = A(a[0])
            if x.ndim == 2: return x
            if x.ndim == 3: return np_.reshape(x, (mul(x.shape[0], x.shape[1]), x.shape[2]))
            raise Unsupported("vstack symbolic")
        return np_.concat([up2(x) for x in seqlist(a[0])], 0)
    @reg("numpy.hstack")
    def _hstack(it, a, kw):
        xs = [N["numpy.atleast_1d"](it, [x], {}) for x in seqlist(a[0])]
        return np_.concat(xs, 0 if xs[0].ndim == 1 else 1)
    @reg("numpy.column_stack")
    def _cs(it, a, kw):
        xs = [A(x) for x in seqlist(a[0])]
        return np_.concat([np_.reshape(x, (x.shape[0], ONE)) if x.ndim == 1 else x for x in xs], 1)
    @reg("numpy.copyto")
    def _copyto(it, a, kw):
        if not isinstance(a[0], Arr): raise Unsupported("copyto")
        it.np.setitem(a[0], tuple(slice(None) for _ in a[0].shape), a[1])
    @reg("numpy.stack")
    def _stack(it, a, kw):
        ax = it.conc_int(arg(a, kw, 1, "axis", 0))
        if ax == 0: return A(PyList(seqlist(a[0])))
        xs = [A(x) for x in seqlist(a[0])]; nd = xs[0].ndim + 1
        if ax < 0: ax += nd
        if not 0 <= ax < nd or any(x.ndim != nd - 1 for x in xs): raise Unsupported("stack axis")
        return np_.concat([np_.reshape(x, x.shape[:ax] + (ONE,) + x.shape[ax:]) for x in xs], ax)
    @reg("numpy.append")
    def _append(it, a, kw):
        ax = arg(a, kw, 2, "axis"); x, y = A(a[0]), A(a[1])
        if ax is None:
            x = np_.reshape(x, (num(-1),)); y = np_.reshape(y, (num(-1),)); ax = 0
        return np_.concat([x, y], it.conc_int(ax))
    N["numpy.reshape"] = lambda it, a, kw: np_.reshape(A(a[0]), shape_of(arg(a, kw, 1, "newshape")))
    N["numpy.ravel"] = lambda it, a, kw: np_.reshape(A(a[0]), (num(-1),))
    N["numpy.transpose"] = lambda it, a, kw: np_.transpose(A(a[0]), it.seq_of(a[1]) if len(a) > 1 else None)
    N["numpy.expand_dims"] = lambda it, a, kw: np_.reshape(A(a[0]), A(a[0]).shape[:it.conc_int(arg(a, kw, 1, "axis"))] + (ONE,) + A(a[0]).shape[it.conc_int(arg(a, kw, 1, "axis")):])
    def squeeze(x, axis=None):
        if axis is not None:
            k = it.conc_int(axis) % x.ndim
            return np_.reshape(x, x.shape[:k] + x.shape[k + 1:])
        sh = [d for d in x.shape if not is1(d)]
        return np_.reshape(x, sh)
    N["numpy.squeeze"] = lambda it, a, kw: sc0(squeeze(A(a[0]), arg(a, kw, 1, "axis")))
    def sc0(x): return x.get(()) if isinstance(x, Arr) and x.ndim == 0 else x
    it.squeeze = squeeze
    @reg("numpy.diag")
    def _diag(it, a, kw):
        x = A(a[0])
        if x.ndim == 1: return mkarr((x.shape[0], x.shape[0]), lambda i, j: ite(eq(i, j), x.get((i,)), ZERO))
        return mkarr((x.shape[0],), lambda i: x.get((i, i)))
    N["numpy.shape"] = lambda it, a, kw: tuple(simp(d) for d in A(a[0]).shape)
    N["numpy.ndim"] = lambda it, a, kw: A(a[0]).ndim
    N["numpy.size"] = lambda it, a, kw: simp(np_.size(A(a[0])) if len(a) == 1 else A(a[0]).shape[it.conc_int(a[1])])
    N["numpy.isscalar"] = lambda it, a, kw: not isinstance(a[0], Arr) and it.seq_of(a[0]) is None
    N["numpy.array_equal"] = lambda it, a, kw: bsc(redbool(np_.ew(eq, A(a[0]), A(a[1]), dtype="b"), "forall", None))
    N["numpy.fill_diagonal"] = lambda it, a, kw: a[0].write(lambda i: eq(i[0], i[1]), lambda i: S(a[1]))
    @reg("numpy.apply_along_axis")
    def _aaa(it, a, kw):
        f, ax, x = a[0], it.conc_int(a[1]), A(a[2])
        if x.ndim != 2 or ax not in (0, 1): raise Unsupported("apply_along_axis")
        n = x.shape[1 - ax]
        v = var("L!a%d" % it.loop_ctr, "I"); it.loop_ctr += 1
        save = it.ctx; it.ctx = it.ctx.extend(le(ZERO, v), lt(v, n))
        try: r = it.call(f, [mkarr((x.shape[ax],), lambda j: x.get((v, j) if ax == 1 else (j, v)), x.dtype)] + a[3:])
        finally: it.ctx = save
        if isinstance(r, Arr): 
            return mkarr((n,) + r.shape, lambda i, *j: subst(r.get(j), {v: i}), r.dtype)
        return mkarr((n,), lambda i: subst(S(r), {v: i}), "i" if S(r).s == "I" else "f")
    @reg("numpy.isclose")
    def _isclose(it, a, kw): return np_.ew(eq, A(a[0]), A(a[1]), dtype="b")
    @reg("numpy.finfo")
    def _finfo(it, a, kw): a[:]; return Native(lambda it, a, k: None, "finfo")
    @reg("numpy.meshgrid")
    def _mesh(it, a, kw):
        if kw.get("indexing", "xy") != "ij": raise Unsupported("meshgrid xy")
        xs = [A(x) for x in a]; sh = [x.shape[0] for x in xs]
        return PyList([mkarr(sh, lambda *i, k=k: xs[k].get((i[k],)), xs[k].dtype) for k in range(len(xs))])
    @reg("numpy.resize")
    def _resize(it, a, kw):
        x = A(a[0]); n = a[1]
        if x.ndim != 1 or not isinstance(n, NUMT + (T,)): raise Unsupported("resize")
        return mkarr((num(n),), lambda i: x.get((fmod(i, x.shape[0]),)), x.dtype)
    @reg("numpy.cross")
    def _cross(it, a, kw): raise Unsupported("cross")
    # ------------------------------------------------------------ statistics
    N["scipy.stats.norm.cdf"] = lambda it, a, kw: np_.ew(lambda x: fn("Phi", x), seqarr(a[0]), dtype="f")
    N["scipy.stats.norm.pdf"] = lambda it, a, kw: np_.ew(lambda x: fn("phi", x), seqarr(a[0]), dtype="f")
    N["scipy.special.erf"] = lambda it, a, kw: np_.ew(lambda x: fn("erf", x), seqarr(a[0]), dtype="f")
    # triangular solves through an uninterpreted inverse of the referenced triangle
    @reg("scipy.linalg.solve_triangular")
    def _st(it, a, kw):
        M, b = A(a[0]), A(a[1]); low = kw.get("lower", False); tr = kw.get("trans", 0)
        if tr not in (0, "N"):
            M = np_.transpose(M); low = not low
        return tri_apply(it, M, bool(low), b)
    def tri_apply(it, M, low, b):
        n = M.shape[0]
        i_, j_ = fresh("i"), fresh("j")
        # identify M: content term as a function of (i,j)
        content = norm_T(M.get((i_, j_)), it.ctx)
        if content.op == "app" and len(content.a) >= 3 and set(content.a[-2:]) == {i_, j_} and not any(v in fv(z) for z in content.a[1:-2] for v in (i_, j_)):
            base = content.a[0]; more = content.a[1:-2]; transposed = content.a[-2] is j_
        else:
            base = None
        def inv(p, q):
            if base is not None:
                # inverse of transpose = transpose of inverse; lower triangle of M^T is the upper of M
                lo = low != transposed
                return app("inv_%s_%s" % ("lower" if lo else "upper", base), *more, *((q, p) if transposed else (p, q)))
            return app("inv_%s" % ("lower" if low else "upper"), Lam(i_, n, ONE) if False else Lam2(content, i_, j_, n), p, q)
        if b.ndim == 1:
            def at(p):
                k = fresh("k"); return Sum(k, n, mul(inv(p, k), b.get((k,))))
            return mkarr((n,), at)
        def at(p, c):
            k = fresh("k"); return Sum(k, n, mul(inv(p, k), b.get((k, c))))
        return mkarr((n, b.shape[1]), at)
    def Lam2(content, i_, j_, n):
        raise Unsupported("triangular solve of a computed matrix")
    it.tri_apply = tri_apply
    @reg("scipy.linalg.cholesky", "numpy.linalg.cholesky")
    def _chol(it, a, kw):
        """factor of a positive definite matrix: a function of the matrix"""
        low = kw.get("lower", False) or len(a) > 1 and a[1]
        M = A(a[0]); L = norm_T(matlam(M), it.ctx)
        return mkarr(M.shape, lambda p, q: app("chol", L, p, q) if low else app("chol", L, q, p))
    def matlam(M):
        i_, j_ = fresh("i"), fresh("j")
        return Lam(i_, M.shape[0], Lam(j_, M.shape[1], M.get((i_, j_))))
    it.matlam = matlam
    @reg("numpy.trace")
    def _trace(it, a, kw):
        M = A(a[0])
        if len(a) > 1 or kw or M.ndim != 2: raise Unsupported("trace")
        np_.need_same(M.shape[0], M.shape[1], "trace of a square matrix")
        k = fresh("k"); return Sum(k, M.shape[0], M.get((k, k)))
    @reg("numpy.linalg.inv", "scipy.linalg.inv", "numpy.linalg.pinv")
    def _inv(it, a, kw):
        M = A(a[0]); L = norm_T(matlam(M), it.ctx)
        return mkarr(M.shape, lambda p, q: app("inv", L, p, q))
    @reg("numpy.linalg.solve", "scipy.linalg.solve")
    def _solve(it, a, kw):
        return np_.dot(_inv(it, [a[0]], {}), A(a[1]))
    # ------------------------------------------------------------ sparse matrices and factorisations
    def bag(x):
        """(index shape, element, selection) of a masked selection or an ordinary array"""
        if isinstance(x, Masked): return x.shape, x.get, x.mask.get
        x = A(x); return x.shape, x.get, lambda i: TRUE
    def bagsum(shape, f):
        vs = [fresh("k") for _ in shape]
        t = f(tuple(vs))
        for v, d in reversed(list(zip(vs, shape))): t = Sum(v, d, t)
        return t
    @reg("scipy.sparse.csc_matrix", "scipy.sparse.csr_matrix", "scipy.sparse.coo_matrix")
    def _csc(it, a, kw):
        x = a[0]; sh = arg(a, kw, 1, "shape")
        if isinstance(x, Sparse): return sparse(x.copy())
        if isinstance(x, Arr): return sparse(x.copy())
        x = it.seq_of(x)
        if isinstance(x[1], (tuple, PyList)):
            rc = it.seq_of(x[1])
            (s0, d, m), (s1, r, m1), (s2, c, m2) = bag(x[0]), bag(rc[0]), bag(rc[1])
            if len(s0) != len(s1) or len(s0) != len(s2): raise Unsupported("coo ranks")
            for p, q in zip(s0, s1): np_.need_same(p, q, "coo data/rows")
            for p, q in zip(s0, s2): np_.need_same(p, q, "coo data/cols")
            if sh is None:
                # shape from the largest indices: known for arange indices only
                if len(s0) != 1 or not all(norm_T(g((i,)), it.ctx) is i for g in (r, c) for i in [fresh("i")]): raise Unsupported("coo shape")
                sh = (s0[0], s0[0])
            sh = tuple(S(v) for v in it.seq_of(sh))
            frozen = [mkarr(s0, lambda *i, g=g: g(i)) for g in (d, r, c, m)]
            d, r, c, m = [z.get for z in frozen]
            return sparse(mkarr(sh, lambda i, j: bagsum(s0, lambda k: ite(and_(m(k), eq(r(k), i), eq(c(k), j)), d(k), ZERO))))
        return sparse(mkarr([S(v) for v in x], lambda *i: ZERO))
    @reg("scipy.sparse.diags")
    def _diags(it, a, kw):
        x = A(a[0]); off = arg(a, kw, 1, "offsets", 0); kw.get("format")
        if x.ndim != 1 or off != 0: raise Unsupported("diags")
        return sparse(mkarr((x.shape[0], x.shape[0]), lambda i, j: ite(eq(i, j), x.get((i,)), ZERO)))
    @reg("scipy.sparse.find")
    def _find(it, a, kw):
        # bag of all entries (zero entries included: consumers that add them are unaffected)
        x = a[0]; sh = x.shape
        return (mkarr(sh, lambda i, j: i, "i"), mkarr(sh, lambda i, j: j, "i"), mkarr(sh, lambda i, j: x.get((i, j)), "f"))
    def addat(it, a, kw):
        t, ix, v = a
        (s0, r, m), (s1, d, m1) = bag(ix), bag(v)
        if len(s0) != len(s1) or t.ndim != 1: raise Unsupported("add.at")
        for p, q in zip(s0, s1): np_.need_same(p, q, "add.at")
        old = t.copy()
        new = mkarr(t.shape, lambda i: add(old.get((i,)), bagsum(s0, lambda k: ite(and_(m(k), eq(r(k), i)), d(k), ZERO))))
        t.write(lambda i: TRUE, lambda i: new.get(i))
    N["numpy.add.at"] = addat
    @reg("scipy.special.binom", "scipy.special.comb")
    def _binom(it, a, kw):
        n_, k_ = S(a[0]), S(a[1])
        for x, y in ((k_, n_), (sub(n_, k_), n_)):
            d = norm_T(x, it.ctx)
            if isnum(d) and 0 <= val(d) <= 6:
                r = ONE
                for q in range(int(val(d))): r = mul(r, sub(n_, q), Fraction(1, q + 1))
                return norm_T(r, it.ctx)
        raise Unsupported("binom")
    @reg("time.time", "time.perf_counter")
    def _time(it, a, kw): return Opaque("time")
    @reg("pickle.dumps", "hashlib.md5", "hashlib.sha1", "hashlib.sha256")
    def _dumps(it, a, kw): a[:]; kw.items(); return Opaque("bytes")
    @reg("open")
    def _open(it, a, kw):
        # no cache file exists (histories with cache files are the subject of P27)
        a[:]
        if len(a) > 1 and isinstance(a[1], str) and a[1].startswith("r"): raise PyRaise(ExcVal("FileNotFoundError", ["no such file"]))
        raise Unsupported("open for writing")
    @reg("collections.defaultdict")
    def _ddict(it, a, kw):
        d = PyDict({}); d.factory = a[0] if a else None
        return d
    # random: fresh arrays with declared range
    def rnd(name, lo=None, hi=None):
        def f(it, a, kw):
            sh = kw.get("size")
            if sh is None: sh = a[0] if (name.endswith(("random", "random_sample")) and a) else (tuple(a) if a else None)
            it.loop_ctr += 1
            nm_ = "%s!%d" % (name, it.loop_ctr)
            if name != "randn": AXIOM[nm_] = lambda *i: [le(ZERO, app(nm_, *i)), lt(app(nm_, *i), ONE)]
            if sh is None: return app(nm_, ZERO)
            return symarr(nm_, *shape_of(sh))
        return f
    def permutation(it, a, kw):
        n = S(a[0])
        it.loop_ctr += 1; nm_ = "perm!%d" % it.loop_ctr
        AXIOM[nm_] = lambda i: [or_(lt(i, ZERO), le(n, i), and_(le(ZERO, app(nm_, i, s="I")), lt(app(nm_, i, s="I"), n)))]
        return mkarr((n,), lambda i: app(nm_, i, s="I"), dtype="i")
    def randint(it, a, kw):
        if kw or len(a) > 2 or not a: raise Unsupported("randint form")
        lo, hi = (ZERO, S(a[0])) if len(a) == 1 else (S(a[0]), S(a[1]))
        if it.truth(lt(lo, hi)) is False: raise PyRaise(ExcVal("ValueError", ["low >= high"]))
        it.loop_ctr += 1; nm_ = "randint!%d" % it.loop_ctr
        AXIOM[nm_] = lambda i: [le(lo, app(nm_, i, s="I")), lt(app(nm_, i, s="I"), hi)]
        return app(nm_, ZERO, s="I")
    GEN = {n_: rnd(n_) for n_ in ("rand", "random", "random_sample", "randn")}
    GEN.update(permutation=permutation, randint=randint, seed=lambda it, a, kw: None)
    for k_, f_ in GEN.items(): N["numpy.random." + k_] = f_
    @reg("numpy.random.RandomState")
    def _rstate(it, a, kw):
        o = Obj(it.load("smt.utils.options_dictionary:OptionsDictionary")); o.c["kind"] = "RandomState"
        for k_, f_ in GEN.items(): o.c[k_] = I.Native(f_, k_)
        return o
    @reg("numpy.allclose")
    def _allclose(it, a, kw):
        # equal arrays are close; nothing is assumed about unequal ones
        x, y = A(a[0]), A(a[1]); kw.items(); a[:]
        sh = np_.bshape([x.shape, y.shape]); vs = [fresh("i") for _ in sh]
        c = it.ctx.extend(*[g for v, d in zip(vs, sh) for g in (le(ZERO, v), lt(v, d))])
        import itertools
        pts = list(itertools.product(*[map(num, range(int(val(d)))) for d in sh])) if all(isnum(d) for d in sh) else [vs]
        if all(norm_T(sub(np_.bget2(x, p, sh), np_.bget2(y, p, sh)), c) is ZERO for p in pts): return True
        raise Unsupported("allclose of different arrays")
    @reg("pow")
    def _pow(it, a, kw):
        if len(a) != 2: raise Unsupported("modular pow")
        return it.binop("Pow", a[0], a[1])
    @reg("packaging.version.parse")
    def _version(it, a, kw):
        # the installed scikit-learn (1.3) is newer than every version compared with
        v = a[0] if isinstance(a[0], str) else "1.3"
        p = v.split("."); return int(p[0]) * 1000 + int(p[1])
    for n in list(N):
        if not getattr(N[n], "strict", False): reg(n)(N[n])

def value_attr(it, o, n, default, has_default):
    """attributes and methods of non-Obj values"""
    from . import interp as I
    np_ = it.np; N = it.natives
    def meth(f): return I.Native(lambda it, a, k: f(*a, **k), n)
    if isinstance(o, Sparse):
        if n == "T" or n == "transpose": 
            t = sparse(np_.transpose(o)); return t if n == "T" else meth(lambda *a: t)
        if n == "A": return np_.ew(lambda v: v, o)
        if n in ("todense", "toarray"): return meth(lambda *a: np_.ew(lambda v: v, o))
        if n in ("tocsc", "tocsr", "tocoo", "copy"): return meth(lambda *a: sparse(o.copy()))
        if n in ("dot", "__mul__"): return meth(lambda b: it.binop("Mult", o, b))
        if n == "multiply": return meth(lambda b: sparse(np_.ew(mul, o, b)))
        if n == "diagonal": return meth(lambda: np_.diag_of(o))
        if n in ("sum", "mean"): return I.Native(lambda it, a, k: N["numpy." + n](it, [np_.ew(lambda v: v, o)] + list(a), k), n)
        if n not in ("shape", "ndim", "dtype"): raise Unsupported("sparse attribute %s" % n)
    if isinstance(o, Masked) and n != "sum": raise Unsupported("attribute of a masked selection")
    if isinstance(o, Arr):
        if n == "shape": return tuple(it.simp(d) for d in o.shape)
        if n == "T": return np_.transpose(o)
        if n == "ndim": return o.ndim
        if n == "size": return it.simp(np_.size(o))
        if n == "dtype": return I.Opaque("dtype:" + o.dtype)
        if n == "copy": return meth(lambda *a, **k: o.copy())
        if n == "reshape":
            def rs(*a, **k):
                if len(a) == 1 and it.seq_of(a[0]) is not None: a = it.seq_of(a[0])
                return np_.reshape(o, [I.S(x) for x in a])
            return meth(rs)
        if n == "ravel": return meth(lambda *a, **k: np_.reshape(o, (num(-1),)))
        if n == "flatten": return meth(lambda *a, **k: np_.reshape(o, (num(-1),)).copy())
        if n in ("sum", "mean", "min", "max", "prod", "std", "var", "argmin", "argmax", "all", "any", "squeeze", "cumsum", "dot", "round", "clip", "repeat"):
            return I.Native(lambda it, a, k: N["numpy." + n](it, [o] + list(a), k), n)
        if n == "transpose": return meth(lambda *a: np_.transpose(o, (it.seq_of(a[0]) if len(a) == 1 and it.seq_of(a[0]) is not None else list(a)) if a else None))
        if n == "astype":
            return I.Native(lambda it, a, k: N["numpy.array"](it, [o], {"dtype": a[0] if a else k.get("dtype")}), n)
        if n == "tolist":
            def tl():
                r = it.iterate(o)
                l = I.PyList([])
                g = lambda v: value_attr(it, v, "tolist", None, False).fn(it, [], {}) if isinstance(v, Arr) else v
                l.c["items"] = [g(v) for v in r[1]] if r[0] == "list" else I.SymSeq(r[1], lambda i: g(r[2](i)))
                return l
            return meth(tl)
        if n == "item": return meth(lambda *a: I.S(o))
        if n == "fill": return meth(lambda v: o.write(lambda i: TRUE, lambda i: I.S(v)))
        if n == "real": return o
    if isinstance(o, I.FamRef):
        if n == "append":
            def fap(v):
                f = o.fam.c["fam"]
                if it.merging: raise I.MergeFail("append to one of several lists")
                if not isinstance(f, I.FamHavoc) and (f is not None or it.loop_depth == 0): raise Unsupported("append to one of several lists")
                o.fam.put("fam", I.FamHavoc((f.app if f is not None else []) + [(o.k, v)]))
            return meth(fap)
        raise Unsupported("attribute %s of one of several lists" % n)
    if isinstance(o, I.PyList):
        if n == "append":
            def ap(v):
                its = o.items
                if isinstance(its, I.HavocList): o.put("items", I.HavocList(its.pre, its.app + [v]))
                elif isinstance(its, list): o.put("items", its + [v])
                elif isinstance(its, I.SymSeq):
                    s = its
                    def f(k):
                        kk = norm_T(num(k), it.ctx)
                        if it.ctx.entails(lt(kk, s.n)): return s.f(kk)
                        if kk is s.n or norm_T(sub(kk, s.n), it.ctx) is ZERO: return v
                        return it.merge_val(lt(kk, s.n), s.f(kk), v)
                    o.put("items", I.SymSeq(add(s.n, 1), f))
                else: raise Unsupported("append")
            return meth(ap)
        if n == "extend":
            def ex(v):
                r = it.iterate(v); cur = o.items
                if r[0] == "list" and isinstance(cur, list): o.put("items", cur + r[1]); return
                if r[0] == "sym" and isinstance(cur, list) and not cur: o.put("items", I.SymSeq(r[1], r[2])); return
                if not isinstance(cur, I.SymSeq): raise Unsupported("extend")
                if r[0] == "list":
                    for q in r[1]: ap_(q)
                    return
                def f(k, cur=cur, r=r):
                    kk = norm_T(num(k), it.ctx)
                    if it.ctx.entails(lt(kk, cur.n)): return cur.f(kk)
                    if it.ctx.entails(le(cur.n, kk)): return r[2](norm_T(sub(kk, cur.n), it.ctx))
                    return it.merge_val(lt(kk, cur.n), cur.f(kk), r[2](norm_T(sub(kk, cur.n), it.ctx)))
                o.put("items", I.SymSeq(norm_T(add(cur.n, num(r[1])), it.ctx), f))
            ap_ = lambda q: it.call(it.getattr(o, "append"), [q])
            return meth(ex)
        if n == "index":
            def ix(v):
                acc = None
                for k, x in enumerate(o.items):
                    r = it.pyeq(x, v)
                    c = it.truth(r) if not isinstance(r, bool) else r
                    if c is True: return k
                    if c is False: continue
                    raise Unsupported("list.index")
                raise I.PyRaise(I.ExcVal("ValueError", []))
            return meth(ix)
        if n == "pop":
            def pp(k=-1):
                l = list(o.items); v = l.pop(it.conc_int(k)); o.put("items", l); return v
            return meth(pp)
        if n == "insert":
            def ins(k, v):
                l = list(o.items); l.insert(it.conc_int(k), v); o.put("items", l)
            return meth(ins)
        if n == "remove":
            def rm(v):
                l = list(o.items)
                for k, x in enumerate(l):
                    if it.pyeq(x, v) is True: del l[k]; o.put("items", l); return
                raise I.PyRaise(I.ExcVal("ValueError", []))
            return meth(rm)
        if n == "reverse": return meth(lambda: o.put("items", o.items[::-1]))
        if n == "copy": return meth(lambda: N["copy.copy"](it, [o], {}))
        if n == "count": return meth(lambda v: sum(1 for x in o.items if it.pyeq(x, v) is True))
    if isinstance(o, I.PyDict):
        if n == "keys": return meth(lambda: I.PyList(list(o.whole().d.keys())))
        if n == "values": return meth(lambda: I.PyList(list(o.whole().d.values())))
        if n == "items": return meth(lambda: I.PyList([(k, v) for k, v in o.whole().d.items()]))
        if n == "get":
            def gt(k, d=None):
                k = it.hashable(k)
                c = it.truth(it.contains(o, k))
                if c is True: return it.getitem(o, k)
                if c is False: return d
                if it.merging: raise I.MergeFail("dict get")
                it.fork(c)
            return meth(gt)
        if n == "update":
            def up(x=None, **k):
                if x is not None:
                    if isinstance(x, I.PyDict): 
                        for kk, v in x.whole().d.items(): it.setitem(o, kk, v)
                    else: raise Unsupported("dict.update")
                for kk, v in k.items(): it.setitem(o, kk, v)
            return meth(up)
        if n == "pop":
            def pp(k, *d):
                k = it.hashable(k); o.whole()
                if k in o.d:
                    dd = dict(o.d); v = dd.pop(k); o.put("d", dd); return v
                if d: return d[0]
                raise I.PyRaise(I.ExcVal("KeyError", [k]))
            return meth(pp)
        if n == "copy": return meth(lambda: o.dup())
        if n == "setdefault":
            def sd(k, d=None):
                c = it.truth(it.contains(o, k))
                if not isinstance(c, bool): it.fork(c)
                if c is True: return it.getitem(o, k)
                it.setitem(o, k, d); return d
            return meth(sd)
    if isinstance(o, I.PySet):
        if n == "add":
            def ad(v):
                if not any(it.pyeq(x, v) is True for x in o.items): o.put("items", o.items + [v])
            return meth(ad)
    if isinstance(o, str):
        if n == "format":
            def fm(*a, **k):
                if all(isinstance(x, (str, int)) for x in a) and not k: return o.format(*a)
                return I.Opaque("string")
            return meth(fm)
        if n == "join":
            def jn(x):
                r = it.iterate(x)
                if r[0] == "list" and all(isinstance(y, str) for y in r[1]): return o.join(r[1])
                return I.Opaque("string")
            return meth(jn)
        if hasattr(o, n):
            return meth(lambda *a: wrap(getattr(o, n)(*a)))
    if isinstance(o, I.Opaque):
        if o.what == "inf": raise Unsupported("attribute of inf")
        return I.Native(lambda it, a, k: I.Opaque(o.what + "." + n), n)
    if isinstance(o, I.Native) and o.name == "finfo": 
        if n == "eps": return var("eps#", "R")
    if isinstance(o, T):
        if n == "shape": return ()
        if n == "ndim": return 0
        if n == "size": return 1
        if n in ("copy", "item", "squeeze"): return meth(lambda *a: o)
        if n == "T": return o
        if n == "astype": return meth(lambda *a: o)
        if n == "sum": return meth(lambda *a: o)
        if n in ("reshape", "flatten", "ravel"):
            return value_attr(it, np_.asarr(o), n, None, False)
    if isinstance(o, I.NUMT):
        if n == "shape": return () 
        if n == "real": return o
    if has_default: return default
    if isinstance(o, (I.PyList, tuple, I.PyDict, str, type(None)) + I.NUMT) or isinstance(o, T):
        raise I.PyRaise(I.ExcVal("AttributeError", ["%r has no attribute %s" % (type(o).__name__, n)]))
    raise Unsupported("attribute %s of %r" % (n, o))

def wrap(x):
    from . import interp as I
    if isinstance(x, list): return I.PyList(x)
    return x
