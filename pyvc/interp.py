"""Symbolic executor for the Python subset used by SMT, dimension-generic.  See DESIGN.md."""
import warnings; warnings.filterwarnings("ignore", category=SyntaxWarning)
import ast, os, sys, time
from fractions import Fraction
from .terms import *
from .norm import *
from . import norm as nm, terms as tm
from .arrays import *
from . import arrays as ar

REPO = os.environ.get("PYVC_REPO", "/repo")
NUMT = (int, Fraction)
ABSENT = {"cPickle", "matplotlib.pyplot", "matplotlib.pylab", "sklearn.mixture.GMM"}      # modules and names that are not importable in the verified configuration

def S(x):
    if isinstance(x, T): return x
    if isinstance(x, (bool, int, Fraction)): return num(x)
    if isinstance(x, float): return num(x)
    if isinstance(x, Arr):
        if all(is1(d) for d in x.shape): return x.get([ZERO] * len(x.shape))
    raise Unsupported("scalar expected, got %r" % (x,))
ar.S = S

PASS = object()      # a contract standing for a function declines this call: the body is interpreted
class ForkRestart(Exception):
    def __init__(self, cond): self.cond = cond
class MergeFail(Exception): pass
class PathInfeasible(Exception): pass
class ReturnEx(Exception):
    def __init__(self, v): self.v = v
class BreakEx(Exception): pass
class ContinueEx(Exception): pass
class PyRaise(Exception):
    def __init__(self, v): self.v = v
    def __str__(self): return "PyRaise(%r)" % (self.v,)

class Env(Cell):
    def __init__(self, parent=None, module=None):
        self.c = {}; self.parent = parent; self.module = module; self.globals_ = set(); self.nonlocals_ = set()
    def lookup(self, n):
        e = self
        while e is not None:
            if n in e.c: return e.c[n]
            e = e.parent
        raise KeyError(n)
class ModuleVal(Cell):
    def __init__(self, name, external=False): self.c = {}; self.name = name; self.external = external; self.env = None
    def __repr__(self): return "<module %s>" % self.name
class ClassVal(Cell):
    def __init__(self, name, bases, module): self.c = {}; self.name = name; self.bases = bases; self.module = module
    def mro(self):
        out = [self]
        # C3 is not needed: bases are linear or mixin-style
        for b in self.bases:
            if isinstance(b, ClassVal):
                for x in b.mro():
                    if x in out: out.remove(x)
                    out.append(x)
        return out
    def __repr__(self): return "<class %s>" % self.name
class Obj(Cell):
    def __init__(self, cls): self.c = {}; self.cls = cls
    def __repr__(self): return "<%s>" % self.cls.name
class Func:
    def __init__(self, name, node, env, defaults, kwdefaults, module, qual, owner=None):
        self.name = name; self.node = node; self.env = env; self.defaults = defaults; self.kwdefaults = kwdefaults
        self.module = module; self.qual = qual; self.owner = owner; self.attrs = {}
    def __repr__(self): return "<func %s>" % self.qual
class Bound:
    def __init__(self, f, self_): self.f = f; self.self_ = self_
class Prop:
    def __init__(self, f, setter=None): self.f = f; self.setter = setter
class StaticM:
    def __init__(self, f): self.f = f
class ClassM:
    def __init__(self, f): self.f = f
class Builtin:
    def __init__(self, name): self.name = name
    def __repr__(self): return "<builtin %s>" % self.name
class Native:
    """python callable (it, args, kwargs) -> value"""
    def __init__(self, fn, name="native"): self.fn = fn; self.name = name
class PyList(Cell):
    def __init__(self, items): self.c = {"items": list(items)}
    @property
    def items(self): return self.c["items"]
    def __repr__(self): return "PyList%r" % (self.c["items"],)
class ObjArr(PyList):
    """one-dimensional numpy array of objects"""
class PyDict(Cell):
    factory = None
    base = None          # (has, get): arbitrary content below the overlay d
    def whole(self):
        if self.base is not None: raise Unsupported("enumeration of a dictionary of arbitrary content")
        return self
    def dup(self):
        r = PyDict(self.d); r.base = self.base; r.factory = self.factory; return r
    def __init__(self, items=None): self.c = {"d": dict(items or {})}
    @property
    def d(self): return self.c["d"]
class PySet(Cell):
    def __init__(self, items): self.c = {"items": list(items)}
    @property
    def items(self): return self.c["items"]
class SymSeq:
    def __init__(self, n, f): self.n = num(n); self.f = f
class ListFam(Cell):
    """n lists created empty; filled by `fam[e(i)].append(v(i))` for i < m: list k is v(i) over the i with e(i) = k, in order"""
    def __init__(self, n): self.c = {"fam": None}; self.n = n
    def _cells(self): return self.c
class FamHavoc:
    def __init__(self, app_=()): self.app = list(app_)
class FamRef:
    """one list of a family"""
    def __init__(self, fam, k): self.fam = fam; self.k = k
    def seq(self):
        f = self.fam.c["fam"]
        if f is None: return ("symseq", ZERO, lambda i: None)
        if isinstance(f, FamHavoc): raise Unsupported("read of list being built in a loop")
        m, e, v = f; i = fresh("i")
        L = Lam(i, m, eq(e(i), self.k))
        return ("symseq", app("count!", L, s="I"), lambda q: v(app("nth!", L, num(q), s="I")))
class NdIndex:
    def __init__(self, shape): self.shape = shape
class RangeVal:
    def __init__(self, lo, hi, step): self.lo = lo; self.hi = hi; self.step = step
class Opaque:
    """value without modelled content (strings, loggers, times)"""
    def __init__(self, what): self.what = what
    def __repr__(self): return "<opaque %s>" % self.what
class Poison:
    def __init__(self, what): self.what = what
class HavocList:
    """list content at the start of an arbitrary loop iteration, plus appended values"""
    def __init__(self, pre, app_=()): self.pre = pre; self.app = list(app_)
class ExcVal:
    def __init__(self, cls, args): self.cls = cls; self.args = args
    def __repr__(self): return "%s(%s)" % (self.cls, ", ".join(map(str, self.args)))
EXC = {"Exception": None, "BaseException": None, "ValueError": "Exception", "KeyError": "LookupError", "LookupError": "Exception",
       "IndexError": "LookupError", "TypeError": "Exception", "AssertionError": "Exception", "AttributeError": "Exception",
       "NotImplementedError": "RuntimeError", "RuntimeError": "Exception", "ImportError": "Exception", "NameError": "Exception",
       "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception", "FileNotFoundError": "OSError", "OSError": "Exception",
       "IOError": "Exception", "ModuleNotFoundError": "ImportError", "Warning": "Exception", "UserWarning": "Warning", "DeprecationWarning": "Warning",
       "StopIteration": "Exception", "UnboundLocalError": "NameError", "FloatingPointError": "ArithmeticError", "LinAlgError": "Exception"}
def exc_isa(a, b):
    while a is not None:
        if a == b or (b in ("Exception", "BaseException")): return True
        a = EXC.get(a)
    return False

class PathEnd(Exception):
    """end of an arbitrary iteration of a loop with a stated invariant"""

class Obligation:
    def __init__(self, kind, label, ok, how, t, residual=None, goal=None, facts=None):
        self.kind = kind; self.label = label; self.ok = ok; self.how = how; self.time = t; self.residual = residual
        self.goal = goal; self.facts = facts

class Interp:
    def __init__(self):
        self.modules = {}
        self.stubs = {}          # qualname -> Native-like callable(it, args, kwargs)
        self.natives = {}        # builtin name -> callable(it, args, kwargs)
        self.ctx = TOP
        self.obligations = []
        self.functions = set()   # qualnames executed
        self.builtins_used = set()
        self.merging = 0
        self.np = NP(self)
        self.fork_conds = []
        self.loop_ctr = 0
        self.fancy_neg = True; self.bag_masks = False
        self.check_bounds = True
        self.loop_specs = {}     # qualified name -> loop invariants
        self.handling = None     # exception being handled
        self.call_depth = 0
        self.cur_func = []
        self.steps = 0
        self.loop_depth = 0
        self.cache_mod_nodes = {}
        from . import npmodel
        npmodel.install(self)
    # ------------------------------------------------------------ obligations
    def oblige(self, kind, goal, label):
        t0 = time.time()
        if kind == "bounds" and not self.check_bounds: return
        try:
            r = prove(goal, self.ctx)
        except Budget as e:
            r = Proof(False, "budget: %s" % e)
        self.obligations.append(Obligation(kind, "%s: %s" % (self.where(), label), r.ok, r.how, time.time() - t0,
                                           None if r.ok else r.residual, None if r.ok else goal, None if r.ok else self.ctx.all_facts()))
        return r.ok
    def where(self):
        return self.cur_func[-1] if self.cur_func else "contract"
    def rule(self, kind, label, how):
        self.obligations.append(Obligation(kind, "%s: %s" % (self.where(), label), True, how, 0.0))
    # ------------------------------------------------------------ modules
    def module(self, name):
        m = self.modules.get(name)
        if m is not None: return m
        if name in ABSENT or name.split(".")[0] in ABSENT: raise PyRaise(ExcVal("ImportError", [name]))
        from . import cxx
        text = None
        if name in cxx.LIBS:
            text = cxx.source(REPO, cxx.LIBS[name])
        path = os.path.join(REPO, *name.split("."))
        f = path + ".py" if os.path.exists(path + ".py") else os.path.join(path, "__init__.py")
        if text is None and (not name.startswith("smt") or not os.path.exists(f)):
            m = ModuleVal(name, external=True); self.modules[name] = m; return m
        m = ModuleVal(name); self.modules[name] = m
        m.env = Env(None, m); m.c = m.env.c
        m.env.c["__name__"] = name
        tree = ast.parse(open(f).read() if text is None else text, f)
        from .loops import WhileToFor
        tree = WhileToFor().visit(tree)
        save = self.ctx, self.cur_func
        self.cur_func = [name]
        stack = Cell.J.stack; Cell.J.stack = []
        try:
            for st in tree.body:
                self.exec(st, m.env)
        finally:
            self.ctx, self.cur_func = save; Cell.J.stack = stack
        return m
    def load(self, path):
        """'smt.pkg.mod:Class.attr' -> value"""
        mod, _, attr = path.partition(":")
        v = self.module(mod)
        for a in attr.split("."):
            if isinstance(v, ClassVal):
                for c in v.mro():
                    if a in c.c: v = c.c[a]; break
                else: raise Unsupported("no attribute %s" % path)
            else:
                if a not in v.c: raise Unsupported("no attribute %s" % path)
                v = v.c[a]
        return v
    # ------------------------------------------------------------ helpers
    def conc_int(self, x):
        if isinstance(x, bool): return int(x)
        if isinstance(x, int): return x
        if isinstance(x, Fraction) and x.denominator == 1: return int(x)
        if isinstance(x, T):
            t = norm_T(x, self.ctx)
            if isnum(t) and val(t).denominator == 1: return int(val(t))
        if isinstance(x, Arr): return self.conc_int(S(x))
        raise Unsupported("concrete integer needed, got %s" % (x,))
    def simplify(self, v):
        if isinstance(v, T) and v.s in ("I", "B"):
            return norm_T(v, self.ctx)
        return v
    def seq_of(self, x):
        if isinstance(x, PyList):
            it = x.items
            if isinstance(it, SymSeq): return ("symseq", it.n, it.f)
            if isinstance(it, (HavocList, Poison)): raise Unsupported("read of list being built in a loop")
            return list(it)
        if isinstance(x, PySet): return list(x.items)
        if isinstance(x, (tuple,)): return list(x)
        if isinstance(x, list): return x
        if isinstance(x, SymSeq): return ("symseq", x.n, x.f)
        if isinstance(x, FamRef): return x.seq()
        if isinstance(x, RangeVal): 
            r = self.iterate(x)
            return r[1] if r[0] == "list" else ("symseq", r[1], r[2])
        return None
    def iterate(self, x):
        if isinstance(x, RangeVal):
            lo, hi, st = x.lo, x.hi, x.step
            n = norm_T(sub(S(hi), S(lo)), self.ctx)
            st = self.conc_int(st)
            if isnum(n):
                lo_ = S(lo)
                if isnum(lo_): 
                    l0 = int(val(lo_)); h0 = l0 + int(val(n))
                    return ("list", list(range(l0, h0, st)))
                return ("list", [norm_T(add(lo_, num(k)), self.ctx) for k in range(0, int(val(n)), st)])
            if st == -1:
                m = norm_T(sub(S(lo), S(hi)), self.ctx)
                return ("sym", m, lambda i: sub(S(lo), i))
            if st != 1:
                if st < 0: raise Unsupported("range step")
                n = norm_T(fdiv(add(n, num(st - 1)), num(st)), self.ctx)
                return ("sym", n, lambda i: add(S(lo), mul(num(st), i)))
            return ("sym", n, lambda i: norm_T(add(S(lo), i), self.ctx))
        if isinstance(x, Arr):
            if not x.shape: raise PyRaise(ExcVal("TypeError", ["iteration over 0-d"]))
            n = x.shape[0]
            if isnum(n): return ("list", [self.np.getitem(x, k) for k in range(int(val(n)))])
            def el(i):      # elements are taken within the range by construction
                save = self.ctx; self.ctx = save.extend(le(ZERO, S(i)), lt(S(i), n))
                try: return self.np.getitem(x, i)
                finally: self.ctx = save
            return ("sym", n, el)
        if isinstance(x, PyDict):
            return ("list", list(x.whole().d.keys()))
        if isinstance(x, str): return ("list", list(x))
        s = self.seq_of(x)
        if s is None: raise Unsupported("iteration over %r" % (x,))
        if isinstance(s, tuple) and s and s[0] == "symseq": return ("sym", s[1], s[2])
        return ("list", s)
    def truth(self, v):
        """-> True/False or symbolic T (normalised condition)"""
        if v is None: return False
        if isinstance(v, bool): return v
        if isinstance(v, NUMT): return v != 0
        if isinstance(v, str): return v != ""
        if isinstance(v, T):
            c = v if v.s == "B" else ne(v, ZERO)
            c = norm_cond(c, self.ctx)
            if c is TRUE: return True
            if c is FALSE: return False
            return c
        if isinstance(v, Arr):
            if all(is1(d) or norm_cond(eq(num(d), ONE), self.ctx) is TRUE for d in v.shape): return self.truth(v.get([ZERO] * len(v.shape)))
            return self.truth(S(v))
        if isinstance(v, PyDict): return len(v.whole().d) > 0
        s = self.seq_of(v)
        if s is not None:
            if isinstance(s, tuple) and s and s[0] == "symseq": return self.truth(lt(ZERO, s[1]))
            return len(s) > 0
        if isinstance(v, (Obj, Func, Bound, ClassVal, Builtin, Native, ModuleVal)):
            if isinstance(v, Obj) and v.cls is not None:
                m = self.find(v.cls, "__len__") or self.find(v.cls, "__bool__")
                if m is not None: return self.truth(self.call(Bound(m, v), []))
            return True
        raise Unsupported("truth of %r" % (v,))
    def decide(self, v):
        """branch without merging: concrete or fork"""
        c = self.truth(v)
        if isinstance(c, bool): return c
        self.fork(c)
    def fork(self, c):
        if self.loop_scoped(c): raise MergeFail("condition depends on a loop: %s" % c)
        raise ForkRestart(c)
    def loop_scoped(self, c):
        return any(v.a[0].startswith(("L!", "H!")) for v in fv(c)) or any(n.startswith("H!") for n in apps_in(c))
    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, env, tail=True):
        for k, st in enumerate(stmts):
            if isinstance(st, ast.If):
                c = self.truth(self.eval(st.test, env))
                if isinstance(c, bool):
                    rest = stmts[k + 1:]
                    self.exec_block(st.body if c else st.orelse, env)
                    continue
                try:
                    self.merge_if(c, st.body, st.orelse, env)
                except MergeFail as e:
                    if tail and str(e) == "escape":
                        # execute the continuation in both branches
                        try:
                            return self.merge_tail(c, list(st.body) + stmts[k + 1:], list(st.orelse) + stmts[k + 1:], env)
                        except MergeFail as e2:
                            if self.merging or self.loop_scoped(c): raise
                            self.fork(c)
                    if self.merging or self.loop_scoped(c): raise
                    self.fork(c)
            else:
                self.exec(st, env)
    def run_branch(self, c, stmts, env):
        """-> (changes, outcome)"""
        save = self.ctx; fc = list(self.cur_func); ld = self.loop_depth
        Cell.J.mark(); self.merging += 1
        out = ("fall", None)
        try:
            self.ctx = save.extend(c)
            if self.ctx.infeasible(): out = ("dead", None)
            else:
                try: self.exec_block(stmts, env, tail=True)
                except ReturnEx as e: out = ("return", e.v)
                except ContinueEx: out = ("continue", None)
                except BreakEx: out = ("break", None)
                except PyRaise as e: out = ("raise", e.v)
        except (ForkRestart,) as e:
            Cell.J.undo(); 
            raise MergeFail("fork inside")
        except BaseException:
            Cell.J.undo(); raise
        finally:
            self.ctx = save; self.merging -= 1; self.cur_func = fc; self.loop_depth = ld
        return Cell.J.undo(), out
    def merge_if(self, c, body, orelse, env):
        ch1, o1 = self.run_branch(c, body, env)
        if o1[0] not in ("fall", "dead"): raise MergeFail("escape" if o1[0] in ("return", "continue") else o1[0])
        ch2, o2 = self.run_branch(not_(c), orelse, env)
        if o2[0] not in ("fall", "dead"): raise MergeFail("escape" if o2[0] in ("return", "continue") else o2[0])
        self.apply_merge(c, ch1, ch2)
    def merge_tail(self, c, s1, s2, env):
        ch1, o1 = self.run_branch(c, s1, env)
        ch2, o2 = self.run_branch(not_(c), s2, env)
        k1, k2 = o1[0], o2[0]
        if "raise" in (k1, k2) or "break" in (k1, k2): raise MergeFail("raise/break in branch")
        if {k1, k2} <= {"fall", "continue"}:
            self.apply_merge(c, ch1, ch2)
            raise ContinueEx()
        if k1 in ("return", "fall") and k2 in ("return", "fall"):
            v = self.merge_val(c, o1[1], o2[1])
            self.apply_merge(c, ch1, ch2)
            raise ReturnEx(v)
        raise MergeFail("mixed escape")
    def apply_merge(self, c, ch1, ch2):
        todo = []
        for k in list(ch1) + [k for k in ch2 if k not in ch1]:
            obj, kk, _ = ch1.get(k) or ch2.get(k)
            cur = obj._cells().get(kk, MISSING)
            v1 = ch1[k][2] if k in ch1 else cur
            v2 = ch2[k][2] if k in ch2 else cur
            if v1 is MISSING or v2 is MISSING:
                # defined in one branch only: usable only where that branch was taken
                v = Poison("possibly undefined %s" % (kk,)) if isinstance(obj, Env) else None
                if v is None: raise MergeFail("attribute set in one branch")
            else: v = self.merge_val(c, v1, v2, isinstance(obj, Env))
            todo.append((obj, kk, v))
        for obj, kk, v in todo: obj.put(kk, v)
    def merge_val(self, c, a, b, envvar=False):
        if a is b: return a
        if isinstance(a, (T,) + NUMT) and isinstance(b, (T,) + NUMT) and not isinstance(a, str):
            if isinstance(a, NUMT) and isinstance(b, NUMT) and type(a) == type(b) and a == b: return a
            return ite(c, S(a), S(b))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            if len(a) == 2 and isinstance(a[0], tuple) and isinstance(a[1], T):   # store content
                va, ta = a; vb, tb = b
                return (va, ite_simpl(c, ta, subst(tb, dict(zip(vb, va)))))
            return tuple(self.merge_val(c, x, y) for x, y in zip(a, b))
        if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == b.ndim and all(self.np.same(x, y) for x, y in zip(a.shape, b.shape)):
            return mkarr(a.shape, lambda *i: ite(c, a.get(i), b.get(i)), a.dtype if a.dtype == b.dtype else "f")
        if isinstance(a, str) and a == b: return a
        if isinstance(a, Opaque) or isinstance(b, Opaque): 
            return Opaque("merged")
        if isinstance(a, PyList) and isinstance(b, PyList): 
            if isinstance(a.items, list) and isinstance(b.items, list) and len(a.items) == len(b.items):
                return PyList([self.merge_val(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
            return [self.merge_val(c, x, y) for x, y in zip(a, b)]
        if isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b):
            return {k: self.merge_val(c, a[k], b[k]) for k in a}
        if isinstance(a, Poison): return a
        if isinstance(b, Poison): return b
        raise MergeFail("values %r / %r" % (a, b))

    def exec(self, st, env):
        m = getattr(self, "x_" + type(st).__name__, None)
        if m is None: raise Unsupported("statement " + type(st).__name__)
        return m(st, env)
    def x_Expr(self, st, env):
        if isinstance(st.value, ast.Constant): return
        self.eval(st.value, env)
    def x_Pass(self, st, env): pass
    def x_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets: self.assign(t, v, env)
    def x_AnnAssign(self, st, env):
        if st.value is not None: self.assign(st.target, self.eval(st.value, env), env)
    def x_AugAssign(self, st, env):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env)
            get = lambda: cur
            def put(v): self.assign(t, v, env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env); cur = self.getattr(o, t.attr)
            def put(v): self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env); ix = self.eval_index(t.slice, env)
            cur = self.getitem(o, ix)
            def put(v): self.setitem(o, ix, v)
        else: raise Unsupported("augassign target")
        v = self.eval(st.value, env)
        if isinstance(cur, Arr) and isinstance(t, ast.Subscript) and isinstance(o, Arr) and cur.store is not o.store:
            put(self.binop(type(st.op).__name__, cur, v)); return      # fancy index: read, compute, write back
        if isinstance(cur, Arr) and not isinstance(cur, Sparse):
            r = self.binop(type(st.op).__name__, cur, v)
            if isinstance(r, Arr):
                self.np.need_same_shape = None
                if cur.ndim != r.ndim: raise Unsupported("in-place rank change")
                for p, q in zip(cur.shape, r.shape): self.np.need_same(p, q, "in-place op")
                rr = r
                content = mkarr(rr.shape, lambda *i: rr.get(i), rr.dtype)
                cur.write(lambda i: TRUE, lambda i: content.get(i))
            else:
                cur.write(lambda i: TRUE, lambda i: S(r))
            if isinstance(t, ast.Subscript) and not isinstance(o, Arr): put(cur)
            return
        if isinstance(cur, PyList) and isinstance(st.op, ast.Add):
            it = self.iterate(v)
            if it[0] == "list" and isinstance(cur.items, list):
                cur.put("items", cur.items + it[1]); return
        put(self.binop(type(st.op).__name__, cur, v))
    def x_Return(self, st, env):
        raise ReturnEx(self.eval(st.value, env) if st.value is not None else None)
    def x_If(self, st, env): self.exec_block([st], env, tail=False)
    def x_For(self, st, env):
        v0 = self.eval(st.iter, env)
        if isinstance(v0, NdIndex):
            # row-major nested loops over the index ranges
            if st.orelse or any(isinstance(x, ast.Break) for b in st.body for x in ast.walk(b)): raise Unsupported("break in an ndindex loop")
            k = len(v0.shape); tag = "!nd%d" % id(v0); nm = lambda d, c: "%s%s%d" % (tag, c, d)
            for d in range(k): env.put(nm(d, "r"), RangeVal(0, v0.shape[d], 1))
            body = [ast.Assign([st.target], ast.Tuple([ast.Name(nm(d, "i"), ast.Load()) for d in range(k)], ast.Load()))] + st.body
            for d in range(k - 1, -1, -1):
                body = [ast.For(ast.Name(nm(d, "i"), ast.Store()), ast.Name(nm(d, "r"), ast.Load()), body, [])]
            for b in body: ast.copy_location(b, st); ast.fix_missing_locations(b)
            return self.exec_block(body, env)
        it = self.iterate(v0)
        sp = self.loop_spec(st)
        if sp is not None:
            from .loops import invariant_loop
            if it[0] == "list": it = ("sym", num(len(it[1])), lambda i, l=it[1]: self.getitem(PyList(l), i))
            return invariant_loop(self, st, env, sp, it[1], it[2])
        if it[0] == "list":
            if len(it[1]) > 3000: raise Unsupported("long concrete loop")
            broke = False
            for v in it[1]:
                self.assign(st.target, v, env)
                try: self.exec_block(st.body, env)
                except ContinueEx: continue
                except BreakEx: broke = True; break
            if not broke: self.exec_block(st.orelse, env)
            return
        from .loops import summarise_for
        summarise_for(self, it[1], lambda i: self.assign(st.target, it[2](i), env), st.body, env)
        self.exec_block(st.orelse, env)
    def x_While(self, st, env):
        k = 0
        sp = self.loop_spec(st)
        if sp is not None:
            from .loops import invariant_loop
            return invariant_loop(self, st, env, sp)
        from .loops import summarise_while
        after = summarise_while(self, st, env)
        if after is not None: return self.exec_block(after, env)
        while True:
            c = self.decide(self.eval(st.test, env))
            if not c: break
            k += 1
            if k > 200: raise Unsupported("while loop without invariant")
            try: self.exec_block(st.body, env)
            except ContinueEx: continue
            except BreakEx: return
        self.exec_block(st.orelse, env)
    def loop_spec(self, st):
        """contract-supplied invariant of a loop of the current function, by its ordinal in the function"""
        q = self.cur_func[-1] if self.cur_func else ""
        l = self.loop_specs.get(q)
        if not l: return None
        return next((sp for sp in l if sp.match(st)), None)
    def x_Break(self, st, env): raise BreakEx()
    def x_Continue(self, st, env): raise ContinueEx()
    def x_FunctionDef(self, st, env):
        f = self.mkfunc(st.name, st, env)
        for d in reversed(st.decorator_list):
            f = self.decorate(d, f, env)
        self.assign(ast.Name(id=st.name, ctx=ast.Store()), f, env)
    def mkfunc(self, name, node, env, owner=None):
        a = node.args
        defaults = [self.eval(d, env) for d in a.defaults]
        kwd = [None if d is None else self.eval(d, env) for d in a.kw_defaults]
        e = env; mod = None
        while e is not None:
            if e.module is not None: mod = e.module
            e = e.parent
        pre = getattr(env, "qual", None)
        q = "%s:%s%s" % (mod.name if mod else "?", (pre + ".") if pre else "", name)
        return Func(name, node, env, defaults, kwd, mod, q, owner)
    def decorate(self, d, f, env):
        if isinstance(d, ast.Name):
            if d.id == "property": return Prop(f)
            if d.id in ("abstractmethod", "abstractproperty"): return f
            if d.id == "staticmethod": return StaticM(f)
            if d.id == "classmethod": return ClassM(f)
            if d.id == "contextmanager": f.attrs["ctxmgr"] = True; return f
        if isinstance(d, ast.Attribute):
            if d.attr == "setter":
                p = self.eval(d.value, env)
                return Prop(p.f, f)
            if d.attr == "contextmanager": f.attrs["ctxmgr"] = True; return f
            if d.attr in ("jit", "njit", "wraps", "lru_cache", "abstractmethod"): return f
        v = self.eval(d, env)
        if isinstance(v, (Func, Native)): return self.call(v, [f])
        raise Unsupported("decorator %s" % ast.dump(d))
    def x_ClassDef(self, st, env):
        bases = [self.eval(b, env) for b in st.bases]
        mod = env
        while mod.parent is not None: mod = mod.parent
        c = ClassVal(st.name, [b for b in bases if isinstance(b, ClassVal)], mod.module)
        c.extbases = [b for b in bases if not isinstance(b, ClassVal)]
        e = Env(env, None); e.qual = st.name
        for s in st.body: self.exec(s, e)
        c.c = e.c
        for v in c.c.values():
            f = v
            if isinstance(v, (Prop, StaticM, ClassM)): f = v.f
            if isinstance(f, Func):
                f.owner = c; f.env = env
            if isinstance(v, Prop) and v.setter: v.setter.owner = c; v.setter.env = env
        env.put(st.name, c)
    def x_Import(self, st, env):
        for a in st.names:
            if a.asname: env.put(a.asname, self.module(a.name))
            else:
                top = a.name.split(".")[0]
                if not a.name.startswith("smt"):
                    env.put(top, self.module(top))
                else:
                    self.module(a.name); env.put(top, self.module(top))
    def x_ImportFrom(self, st, env):
        base = st.module or ""
        if st.level:
            e = env
            while e.module is None: e = e.parent
            parts = e.module.name.split(".")
            path = os.path.join(REPO, *parts)
            pk = parts if os.path.isdir(path) and not os.path.exists(path + ".py") else parts[:-1]
            pk = pk[:len(pk) - (st.level - 1)]
            base = ".".join(pk + ([st.module] if st.module else []))
        m = self.module(base)
        for a in st.names:
            if a.name == "*":
                for k, v in m.c.items():
                    if not k.startswith("_"): env.put(k, v)
                continue
            env.put(a.asname or a.name, self.modattr(m, a.name))
    def modattr(self, m, n):
        if n in m.c: return m.c[n]
        if m.external:
            full = m.name + "." + n
            if full in CONSTS: return CONSTS[full]
            if full in ("numpy.linalg", "numpy.random", "scipy.linalg", "scipy.optimize", "scipy.stats", "scipy.sparse", "numpy.matlib", "os.path", "scipy.spatial", "scipy.spatial.distance", "scipy.special", "scipy.sparse.linalg", "matplotlib.pyplot"):
                return self.module(full)
            if n in EXC: return Builtin(n)
            if full in ABSENT: raise PyRaise(ExcVal("ImportError", ["cannot import name " + n]))
            return Builtin(full)
        sub_ = m.name + "." + n
        path = os.path.join(REPO, *sub_.split("."))
        if os.path.exists(path + ".py") or os.path.isdir(path): return self.module(sub_)
        # compiled extension or missing
        mm = self.module(sub_)
        return mm
    def x_Try(self, st, env):
        def guarded():
            try:
                self.exec_block(st.body, env, tail=False)
            except PyRaise as e:
                for h in st.handlers:
                    if self.exc_match(e.v, h.type, env):
                        if h.name: env.put(h.name, e.v)
                        save = self.handling; self.handling = e.v
                        try: self.exec_block(h.body, env, tail=False)
                        finally: self.handling = save
                        return
                raise
            self.exec_block(st.orelse, env, tail=False)
        try: guarded()
        except (PyRaise, ReturnEx, BreakEx, ContinueEx):
            self.exec_block(st.finalbody, env, tail=False)
            raise
        self.exec_block(st.finalbody, env, tail=False)
    def exc_match(self, v, typ, env):
        if typ is None: return True
        ts = typ.elts if isinstance(typ, ast.Tuple) else [typ]
        for t in ts:
            tv = self.eval(t, env)
            name = tv.name.split(".")[-1] if isinstance(tv, (Builtin, ClassVal)) else "?"
            if exc_isa(v.cls if isinstance(v, ExcVal) else "Exception", name): return True
        return False
    def x_Raise(self, st, env):
        if st.exc is None: raise PyRaise(self.handling or ExcVal("RuntimeError", ["no active exception"]))
        v = self.eval(st.exc, env)
        if isinstance(v, Builtin): v = ExcVal(v.name, [])
        raise PyRaise(v)
    def x_Assert(self, st, env):
        c = self.truth(self.eval(st.test, env))
        if c is True: return
        if c is False: raise PyRaise(ExcVal("AssertionError", []))
        if self.loop_scoped(c) or self.merging:
            # assertion over a loop variable: must hold for all iterations, else unsupported
            raise MergeFail("assertion in loop")
        self.fork(c)
    def x_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name): env.drop(t.id)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env); k = self.eval_index(t.slice, env)
                if isinstance(o, PyDict):
                    o.whole(); k = self.hashable(k)
                    if k not in o.d: raise PyRaise(ExcVal("KeyError", [k]))
                    d = dict(o.d); del d[k]; o.put("d", d)
                elif isinstance(o, PyList) and isinstance(o.items, list):
                    l = list(o.items); del l[self.conc_int(k)]; o.put("items", l)
                else: raise Unsupported("del")
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, env); o.drop(t.attr)
    def x_Global(self, st, env): env.globals_ |= set(st.names)
    def x_Nonlocal(self, st, env): env.nonlocals_ |= set(st.names)
    def x_With(self, st, env):
        def rec(k):
            if k == len(st.items):
                return self.exec_block(st.body, env, tail=False)
            w = st.items[k]
            # context manager function of the repository: run generator inline
            if isinstance(w.context_expr, ast.Call):
                f = self.eval(w.context_expr.func, env)
                ff = f.f if isinstance(f, Bound) else f
                if isinstance(ff, Func) and ff.attrs.get("ctxmgr") and ff.qual not in self.stubs:
                    args, kw = self.eval_args(w.context_expr, env)
                    if isinstance(f, Bound): args = [f.self_] + args
                    e2 = self.bind(ff, args, kw)
                    depth = len(self.cur_func); outer = self.cur_func[-1] if self.cur_func else "contract"
                    pending = []
                    def on_yield(v):
                        if w.optional_vars is not None: self.assign(w.optional_vars, v, env)
                        d = len(self.cur_func)
                        self.cur_func.append(outer)
                        try: rec(k + 1)
                        except (ReturnEx, BreakEx, ContinueEx) as e:      # control leaves the block after the manager's exit code
                            pending.append(e)
                        finally: del self.cur_func[d:]
                    e2.on_yield = on_yield
                    self.cur_func.append(ff.qual); self.functions.add(ff.qual)
                    try: self.exec_block(ff.node.body, e2)
                    except ReturnEx: pass
                    finally: del self.cur_func[depth:]
                    if pending: raise pending[0]
                    return
            v = self.eval(w.context_expr, env)
            if isinstance(v, Obj):
                r = self.call(self.getattr(v, "__enter__"), [])
                if w.optional_vars is not None: self.assign(w.optional_vars, r, env)
                try: rec(k + 1)
                except PyRaise:
                    self.call(self.getattr(v, "__exit__"), [Opaque("exc")] * 3); raise
                self.call(self.getattr(v, "__exit__"), [None] * 3)
                return
            if w.optional_vars is not None: self.assign(w.optional_vars, v, env)
            rec(k + 1)
        rec(0)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            if t.id in env.globals_:
                e = env
                while e.parent is not None: e = e.parent
                e.put(t.id, v); return
            if t.id in env.nonlocals_:
                e = env.parent
                while t.id not in e.c: e = e.parent
                e.put(t.id, v); return
            env.put(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            it = self.iterate(v)
            if it[0] != "list": raise Unsupported("unpacking symbolic sequence")
            vals = it[1]
            st = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if st:
                k = st[0]; after = len(t.elts) - k - 1
                self.assign_list(t.elts[:k], vals[:k], env)
                self.assign(t.elts[k].value, PyList(vals[k:len(vals) - after]), env)
                self.assign_list(t.elts[k + 1:], vals[len(vals) - after:], env)
            else:
                if len(vals) != len(t.elts): raise PyRaise(ExcVal("ValueError", ["unpack"]))
                self.assign_list(t.elts, vals, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, env), self.eval_index(t.slice, env), v)
        else: raise Unsupported("assign target")
    def assign_list(self, ts, vs, env):
        for t, v in zip(ts, vs): self.assign(t, v, env)

    # ------------------------------------------------------------ expressions
    def eval(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None: raise Unsupported("expression " + type(e).__name__)
        return m(e, env)
    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, (int, str, bytes)): return v
        if isinstance(v, float):
            return Fraction(repr(v)) if v == v and abs(v) != float("inf") else Opaque("nan" if v != v else "inf" if v > 0 else "-inf")
        if v is Ellipsis: return Ellipsis
        raise Unsupported("constant")
    def e_Name(self, e, env): return self.lookup(e.id, env)
    def lookup(self, n, env):
        try: v = env.lookup(n)
        except KeyError:
            if n in PYBUILTINS or n in EXC: return Builtin(n)
            # local variable never assigned on this path
            raise PyRaise(ExcVal("NameError", [n]))
        if isinstance(v, Poison): raise Unsupported("read of %s (%s)" % (n, v.what))
        return v
    def e_Tuple(self, e, env): return tuple(self.elts(e.elts, env))
    def e_List(self, e, env): return PyList(self.elts(e.elts, env))
    def e_Set(self, e, env): return PySet(self.elts(e.elts, env))
    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                it = self.iterate(self.eval(x.value, env))
                if it[0] != "list": raise Unsupported("star of symbolic")
                out += it[1]
            else: out.append(self.eval(x, env))
        return out
    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eval(v, env)
                if not isinstance(o, PyDict): raise Unsupported("** of non-dict")
                d.update(o.d)
            else: d[self.hashable(self.eval(k, env))] = self.eval(v, env)
        return PyDict(d)
    def hashable(self, k):
        if isinstance(k, T) and isnum(k): 
            return int(val(k)) if val(k).denominator == 1 else val(k)
        if isinstance(k, T):
            k2 = norm_T(k, self.ctx)
            if isnum(k2): return self.hashable(k2)
        return k
    def e_BinOp(self, e, env):
        return self.binop(type(e.op).__name__, self.eval(e.left, env), self.eval(e.right, env))
    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        op = type(e.op).__name__
        if op == "Not":
            c = self.truth(v)
            return (not c) if isinstance(c, bool) else not_(c)
        if op == "USub":
            if isinstance(v, NUMT): return -v
            if isinstance(v, Arr): return self.np.ew(neg, v)
            if isinstance(v, T): return neg(v)
            if isinstance(v, Opaque): return Opaque({"inf": "-inf", "-inf": "inf"}.get(v.what, v.what))
            if isinstance(v, Obj): return self.call(self.getattr(v, "__neg__"), [])
        if op == "UAdd": return v
        if op == "Invert":
            if isinstance(v, Arr): return self.np.ew(not_, v, dtype="b")
            if isinstance(v, T): return not_(v)
        raise Unsupported("unary " + op)
    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        acc = None
        save = self.ctx
        try:
            for k, x in enumerate(e.values):
                v = self.eval(x, env)
                c = self.truth(v)
                if isinstance(c, bool):
                    if acc is None:
                        if c != isand: return v
                        if k == len(e.values) - 1: return v
                    else:
                        if c != isand: 
                            return FALSE if isand else TRUE
                else:
                    acc = c if acc is None else (and_(acc, c) if isand else or_(acc, c))
                    self.ctx = self.ctx.extend(c if isand else not_(c))
            return acc
        finally: self.ctx = save
    def e_Compare(self, e, env):
        l = self.eval(e.left, env); out = None
        for op, r_ in zip(e.ops, e.comparators):
            r = self.eval(r_, env)
            c = self.compare(type(op).__name__, l, r)
            if out is None: out = c
            else:
                a, b = self.truth(out), self.truth(c)
                if a is False or b is False: return False
                out = and_(TRUE if a is True else a, TRUE if b is True else b)
            l = r
        return out
    def compare(self, op, a, b):
        if op in ("Is", "IsNot"):
            if isinstance(a, NUMT) and isinstance(b, NUMT) and type(a) == type(b): r = a == b
            elif isinstance(a, T) and a.s == "U" or isinstance(b, T) and b.s == "U":
                r = self.pyeq(a, b)
                r = r if isinstance(r, bool) else norm_cond(r, self.ctx)
                r = True if r is TRUE else False if r is FALSE else r
                if not isinstance(r, bool): return r if op == "Is" else not_(r)
            else: r = a is b or (isinstance(a, Builtin) and isinstance(b, Builtin) and a.name == b.name)
            return r if op == "Is" else not r
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            if isinstance(r, bool): return r if op == "In" else not r
            return r if op == "In" else not_(r)
        if isinstance(a, Arr) and a.ndim == 0: a = a.get(())
        if isinstance(b, Arr) and b.ndim == 0: b = b.get(())
        f = {"Eq": eq, "NotEq": ne, "Lt": lt, "LtE": le, "Gt": gt, "GtE": ge}[op]
        if isinstance(a, Arr) or isinstance(b, Arr):
            if a is None or b is None or isinstance(a, str) or isinstance(b, str): return op == "NotEq"
            if self.seq_of(a) is not None: a = self.np.asarr(a)
            if self.seq_of(b) is not None: b = self.np.asarr(b)
            return self.np.ew(f, a, b, dtype="b")
        numa = isinstance(a, NUMT) or isinstance(a, T); numb = isinstance(b, NUMT) or isinstance(b, T)
        if numa and numb:
            if isinstance(a, NUMT) and isinstance(b, NUMT):
                return {"Eq": a == b, "NotEq": a != b, "Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
            a, b = S(a), S(b)
            if "U" in (a.s, b.s) and a.s != b.s:
                raise Unsupported("comparison of opaque with number")
            c = norm_cond(f(a, b), self.ctx)
            return True if c is TRUE else False if c is FALSE else c
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            sg = {"inf": 1, "-inf": -1}
            if isinstance(a, Opaque) and isinstance(b, Opaque) and a.what in sg and b.what in sg: a, b = num(sg[a.what]), num(sg[b.what]); return {"Eq": val(a) == val(b), "NotEq": val(a) != val(b), "Lt": val(a) < val(b), "LtE": val(a) <= val(b), "Gt": val(a) > val(b), "GtE": val(a) >= val(b)}[op]
            if isinstance(b, Opaque) and b.what == "-inf" and numa: return {"Lt": False, "LtE": False, "Gt": True, "GtE": True, "Eq": False, "NotEq": True}[op]
            if isinstance(a, Opaque) and a.what == "-inf" and numb: return {"Lt": True, "LtE": True, "Gt": False, "GtE": False, "Eq": False, "NotEq": True}[op]
            if isinstance(b, Opaque) and b.what == "inf" and numa: return {"Lt": True, "LtE": True, "Gt": False, "GtE": False, "Eq": False, "NotEq": True}[op]
            if isinstance(a, Opaque) and a.what == "inf" and numb: return {"Lt": False, "LtE": False, "Gt": True, "GtE": True, "Eq": False, "NotEq": True}[op]
            raise Unsupported("comparison of opaque value %r %r" % (a, b))
        if isinstance(a, Obj) and self.find(a.cls, "__eq__") and op in ("Eq", "NotEq"):
            r = self.truth(self.call(self.getattr(a, "__eq__"), [b]))
            return r if op == "Eq" else ((not r) if isinstance(r, bool) else not_(r))
        if op in ("Eq", "NotEq"):
            r = self.pyeq(a, b)
            if isinstance(r, bool): return r if op == "Eq" else not r
            return r if op == "Eq" else not_(r)
        if isinstance(a, str) and isinstance(b, str):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
        raise Unsupported("compare %s %r %r" % (op, a, b))
    def pyeq(self, a, b):
        if a is b: return True
        if isinstance(a, (str, type(None), bool) + NUMT) and isinstance(b, (str, type(None), bool) + NUMT): return a == b
        if isinstance(a, (T,) + NUMT) and isinstance(b, (T,) + NUMT): return self.compare("Eq", a, b)
        la, lb = self.seq_of(a), self.seq_of(b)
        if isinstance(la, list) and isinstance(lb, list):
            if (isinstance(a, PyList)) != isinstance(b, PyList): return False
            if len(la) != len(lb): return False
            acc = True
            for x, y in zip(la, lb):
                r = self.pyeq(x, y)
                if r is False: return False
                if r is not True: acc = r if acc is True else and_(acc, r)
            return acc
        if isinstance(a, (Builtin, ClassVal, Func)) or isinstance(b, (Builtin, ClassVal, Func)):
            return isinstance(a, Builtin) and isinstance(b, Builtin) and a.name == b.name
        if isinstance(a, T) and a.s == "U" or isinstance(b, T) and b.s == "U":
            if isinstance(a, T) and isinstance(b, T): return eq(a, b)
            return False if (a is None or b is None) and False else self._ueq(a, b)
        return False
    def _ueq(self, a, b):
        lit = a if not isinstance(a, T) else b; sy = a if isinstance(a, T) else b
        if isinstance(lit, (str, bool) + NUMT) or lit is None: return eq(sy, var("lit:%r" % (lit,), "U"))
        return False
    def contains(self, cont, x):
        if isinstance(cont, PyDict):
            k = self.hashable(x)
            if isinstance(k, T):
                # symbolic key: compare with every stored key
                rs = [self._tb(self.pyeq(k, kk)) for kk in cont.d]
            else:
                try:
                    if k in cont.d: return True
                except TypeError: raise PyRaise(ExcVal("TypeError", ["unhashable"]))
                rs = [self._tb(self.pyeq(k, kk)) for kk in cont.d if isinstance(kk, T)]
            if cont.base is not None: rs.append(cont.base[0](self.tou(k)))
            return or_(*rs) if rs else False
        if isinstance(cont, Obj):
            m = self.find(cont.cls, "__contains__")
            if m: return self.call(Bound(m, cont), [x])
        if isinstance(cont, str): 
            if isinstance(x, str): return x in cont
        if isinstance(cont, Builtin): raise PyRaise(ExcVal("TypeError", ["argument not iterable"]))
        if cont is None: raise PyRaise(ExcVal("TypeError", ["argument of type NoneType is not iterable"]))
        if isinstance(cont, T) and cont.s == "U": return app("in", self.tou(x), cont, s="B")
        s = self.seq_of(cont)
        if isinstance(s, list):
            acc = []
            for y in s:
                r = self.pyeq(y, x)
                if r is True: return True
                if r is not False: acc.append(r)
            return or_(*acc) if acc else False
        if isinstance(s, tuple) and s[0] == "symseq":
            q = fresh("q")
            return binder("exists", q, s[1], self._tb(self.pyeq(s[2](q), x)))
        if isinstance(cont, Arr):
            idx = [fresh("q") for _ in cont.shape]
            t = eq(cont.get(idx), S(x))
            for q, n in reversed(list(zip(idx, cont.shape))): t = binder("exists", q, n, t)
            return t
        raise Unsupported("in %r" % (cont,))
    def tou(self, x):
        if isinstance(x, T) and x.s == "U": return x
        if isinstance(x, (str, bool) + NUMT) or x is None: return var("lit:%r" % (x,), "U")
        raise Unsupported("opaque embedding of %r" % (x,))
    def _tb(self, b): return TRUE if b is True else FALSE if b is False else b
    def e_IfExp(self, e, env):
        c = self.truth(self.eval(e.test, env))
        if isinstance(c, bool): return self.eval(e.body if c else e.orelse, env)
        save = self.ctx
        try:
            self.ctx = save.extend(c); a = self.eval(e.body, env)
            self.ctx = save.extend(not_(c)); b = self.eval(e.orelse, env)
        finally: self.ctx = save
        try: return self.merge_val(c, a, b)
        except MergeFail: self.fork(c)
    def e_Lambda(self, e, env):
        node = ast.FunctionDef(name="<lambda>", args=e.args, body=[ast.Return(value=e.body)], decorator_list=[])
        return self.mkfunc("<lambda>", node, env)
    def e_JoinedStr(self, e, env):
        out = ""
        for p in e.values:
            if isinstance(p, ast.Constant): out += p.value
            else:
                v = self.eval(p.value, env)
                if isinstance(v, (str, int)): out += str(v)
                else: return Opaque("fstring")
        return out
    def e_Starred(self, e, env): raise Unsupported("starred")
    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env); self.assign(e.target, v, env); return v
    def e_Yield(self, e, env):
        v = self.eval(e.value, env) if e.value else None
        x = env
        while x is not None and not hasattr(x, "on_yield"): x = x.parent
        if x is None: raise Unsupported("generator")
        x.on_yield(v)
        return None
    def comp(self, gens, env, leaf):
        """list comprehension -> list or SymSeq"""
        e2 = Env(env)
        def rec(k):
            if k == len(gens): return [leaf(e2)]
            g = gens[k]
            it = self.iterate(self.eval(g.iter, e2))
            out = []
            if it[0] == "sym":
                if k != len(gens) - 1 or g.ifs: raise Unsupported("symbolic comprehension")
                n, f = it[1], it[2]
                def at(i):
                    save = self.ctx
                    e3 = Env(env); e3.c = dict(e2.c)
                    self.ctx = self.ctx.extend(le(ZERO, i), lt(i, n))
                    try:
                        self.assign(g.target, f(i), e3)
                        return leaf(e3)
                    finally: self.ctx = save
                # evaluate once now (effects, obligations), then by substitution
                v = tm.fresh("L!c")
                item = at(v)
                if k == 0 and isinstance(item, PyList):
                    if isinstance(item.items, list) and not item.items and type(item) is PyList:
                        fam = ListFam(n); return SymSeq(n, lambda i: FamRef(fam, num(i)))
                if k == 0: return SymSeq(n, lambda i: lend(vsubst(item, {v: num(i)}), item))
                raise Unsupported("nested symbolic comprehension")
            for v in it[1]:
                self.assign(g.target, v, e2)
                ok = True
                for c in g.ifs:
                    if not self.decide(self.eval(c, e2)): ok = False; break
                if ok:
                    r = rec(k + 1)
                    if isinstance(r, SymSeq): raise Unsupported("nested symbolic comprehension")
                    out += r
            return out
        return rec(0)
    def e_ListComp(self, e, env):
        r = self.comp(e.generators, env, lambda e2: self.eval(e.elt, e2))
        if isinstance(r, SymSeq):
            l = PyList([]); l.c["items"] = r; return l
        return PyList(r)
    def e_GeneratorExp(self, e, env): return self.e_ListComp(e, env)
    def e_SetComp(self, e, env): return PySet(self.comp(e.generators, env, lambda e2: self.eval(e.elt, e2)))
    def e_DictComp(self, e, env):
        r = self.comp(e.generators, env, lambda e2: (self.hashable(self.eval(e.key, e2)), self.eval(e.value, e2)))
        if isinstance(r, SymSeq): raise Unsupported("symbolic dict comprehension")
        return PyDict(dict(r))
    def e_Attribute(self, e, env): return self.getattr(self.eval(e.value, env), e.attr)
    def e_Subscript(self, e, env):
        return self.getitem(self.eval(e.value, env), self.eval_index(e.slice, env))
    def eval_index(self, s, env):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.eval(x, env)
            return slice(f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple): return tuple(self.eval_index(x, env) for x in s.elts)
        return self.eval(s, env)
    e_Slice = lambda self, e, env: self.eval_index(e, env)
    def e_Call(self, e, env):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            if e.args:
                cls = self.eval(e.args[0], env); o = self.eval(e.args[1], env)
            else:
                x = env
                while not hasattr(x, "fn"): x = x.parent
                cls = x.fn.owner; o = x.c[x.fn.node.args.args[0].arg]
            return ("super", cls, o)
        f = self.eval(e.func, env)
        args, kw = self.eval_args(e, env)
        if isinstance(f, Builtin) and f.name in ("locals", "globals", "eval", "exec"): raise Unsupported(f.name)
        return self.call(f, args, kw)
    def eval_args(self, e, env):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                it = self.iterate(self.eval(a.value, env))
                if it[0] != "list": raise Unsupported("star args")
                args += it[1]
            else: args.append(self.eval(a, env))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                if not isinstance(d, PyDict): raise Unsupported("** args")
                d.whole()
                kw.update(d.d)
            else: kw[k.arg] = self.eval(k.value, env)
        return args, kw
    # ------------------------------------------------------------ calls
    def bind(self, f, args, kw):
        env = Env(f.env); env.fn = f
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        vals = {}
        for n, v in zip(names, args): vals[n] = v
        if len(args) > len(names):
            if a.vararg is None: raise PyRaise(ExcVal("TypeError", ["too many arguments to " + f.name]))
            vals[a.vararg.arg] = tuple(args[len(names):])
        elif a.vararg is not None: vals[a.vararg.arg] = ()
        for n in names[len(args):]:
            if n in kw: vals[n] = kw.pop(n)
        dn = names[len(names) - len(f.defaults):]
        for n, d in zip(dn, f.defaults):
            if n not in vals: vals[n] = d
        for n, d in zip([x.arg for x in a.kwonlyargs], f.kwdefaults):
            vals[n] = kw.pop(n) if n in kw else d
        if a.kwarg is not None: vals[a.kwarg.arg] = PyDict(kw); kw = {}
        if kw:
            raise PyRaise(ExcVal("TypeError", ["unexpected keyword %s" % list(kw)]))
        for n in names:
            if n not in vals: raise PyRaise(ExcVal("TypeError", ["missing argument %s of %s" % (n, f.name)]))
        env.c.update(vals)
        return env
    def call(self, f, args=(), kw=None):
        args = list(args); kw = kw or {}
        self.steps += 1
        if isinstance(f, Bound):
            return self.call(f.f, [f.self_] + args, kw)
        if isinstance(f, StaticM): return self.call(f.f, args, kw)
        if isinstance(f, Func):
            if f.qual in self.stubs:
                r = self.stubs[f.qual](self, args, kw)
                if r is not PASS:
                    self.builtins_used.add("contract:" + f.qual)
                    return r
            env = self.bind(f, args, kw)
            self.functions.add(f.qual)
            self.call_depth += 1
            if self.call_depth > 60: raise Unsupported("recursion")
            self.cur_func.append(f.qual)
            try:
                self.exec_block(f.node.body, env, tail=True)
                return None
            except ReturnEx as e: return e.v
            finally:
                self.call_depth -= 1; self.cur_func.pop()
        if isinstance(f, ClassVal): return self.instantiate(f, args, kw)
        if isinstance(f, Native): return f.fn(self, args, kw)
        if isinstance(f, Builtin): return self.call_builtin(f.name, args, kw)
        if isinstance(f, Obj):
            return self.call(self.getattr(f, "__call__"), args, kw)
        raise Unsupported("call of %r" % (f,))
    def instantiate(self, cls, args, kw):
        for c in cls.mro():
            q = "%s:%s" % (c.module.name if c.module else "?", c.name)
            if q in self.stubs: return self.stubs[q](self, [cls] + list(args), kw)
        if any(isinstance(b, Builtin) and b.name in EXC for c in cls.mro() for b in getattr(c, "extbases", [])):
            return ExcVal("Exception", args)
        o = Obj(cls)
        init = self.find(cls, "__init__")
        if init is not None: self.call(Bound(init, o), args, kw)
        return o
    def find(self, cls, name, after=None):
        ok = after is None
        for c in cls.mro():
            if ok and name in c.c: return c.c[name]
            if c is after: ok = True
        return None
    def call_builtin(self, name, args, kw):
        if name in EXC: return ExcVal(name, args)
        fn_ = self.natives.get(name)
        if fn_ is None: raise Unsupported("external function %s" % name)
        self.builtins_used.add(name)
        return fn_(self, args, kw)
    # ------------------------------------------------------------ attributes
    def getattr(self, o, n, default=None, has_default=False):
        if isinstance(o, tuple) and o and isinstance(o[0], str) and o[0] == "super":
            _, cls, ob = o
            mro = ob.cls.mro(); k = mro.index(cls)
            for c in mro[k + 1:]:
                if n in c.c:
                    v = c.c[n]
                    if isinstance(v, Prop): return self.call(v.f, [ob])
                    if isinstance(v, StaticM): return v.f
                    return Bound(v, ob)
            if n in ("__init__", "__setattr__"): return Native(lambda it, a, k: None)
            raise PyRaise(ExcVal("AttributeError", [n]))
        if isinstance(o, Obj):
            if n in o.c:
                v = o.c[n]
                if isinstance(v, Poison): raise Unsupported("read of attribute %s (%s)" % (n, v.what))
                return v
            v = self.find(o.cls, n)
            if v is not None or any(n in c.c for c in o.cls.mro()):
                if isinstance(v, Func): return Bound(v, o)
                if isinstance(v, Prop): return self.call(v.f, [o])
                if isinstance(v, StaticM): return v.f
                if isinstance(v, ClassM): return Bound(v.f, o.cls)
                if isinstance(v, Native): return Native(lambda it, a, k, v=v: v.fn(it, [o] + list(a), k))
                return v
            if n == "__class__": return o.cls
            if n == "__dict__": return PyDict(o.c)
            g = self.find(o.cls, "__getattr__")
            if g is not None: return self.call(Bound(g, o), [n])
            if has_default: return default
            raise PyRaise(ExcVal("AttributeError", [n]))
        if isinstance(o, ModuleVal):
            if not o.external and n not in o.c:
                sub_ = o.name + "." + n
                if sub_ in self.modules: return self.modules[sub_]
            return self.modattr(o, n)
        if isinstance(o, ClassVal):
            v = self.find(o, n)
            if v is None:
                if n == "__name__": return o.name
                if has_default: return default
                raise PyRaise(ExcVal("AttributeError", [n]))
            if isinstance(v, StaticM): return v.f
            if isinstance(v, ClassM): return Bound(v.f, o)
            return v
        if isinstance(o, Builtin):
            full = o.name + "." + n
            if full in CONSTS: return CONSTS[full]
            if n == "__name__": return o.name.split(".")[-1]
            return Builtin(full)
        if isinstance(o, Func):
            if n == "__name__": return o.name
            if n in o.attrs: return o.attrs[n]
            raise PyRaise(ExcVal("AttributeError", [n]))
        if isinstance(o, Bound):
            if n == "__name__": return o.f.name
            if n == "__func__": return o.f
            if n == "__self__": return o.self_
        from .npmodel import value_attr
        return value_attr(self, o, n, default, has_default)
    def setattr(self, o, n, v):
        if isinstance(o, Obj):
            p = self.find(o.cls, n)
            if isinstance(p, Prop):
                if p.setter is None: raise PyRaise(ExcVal("AttributeError", [n]))
                self.call(p.setter, [o, v]); return
            o.put(n, v)
        elif isinstance(o, Arr) and n == "shape":
            raise Unsupported("in-place reshape")
        elif isinstance(o, (ClassVal, ModuleVal)): o.put(n, v)
        elif isinstance(o, Func): o.attrs[n] = v
        else: raise Unsupported("setattr on %r" % (o,))
    def getitem(self, o, k):
        if isinstance(o, Arr): return self.np.getitem(o, k)
        if isinstance(o, Builtin) and o.name == "numpy.c_":
            xs = [self.np.asarr(x) for x in (k if isinstance(k, tuple) else (k,))]
            if not all(isinstance(x, Arr) and x.ndim in (1, 2) for x in xs): raise Unsupported("c_")
            return self.call_builtin("numpy.hstack", [tuple(self.np.view(x, [("slice", 0, ZERO, x.shape[0], ONE), ("new",)]) if x.ndim == 1 else x for x in xs)], {})
        if isinstance(o, Obj):
            m = self.find(o.cls, "__getitem__")
            if m is None: raise PyRaise(ExcVal("TypeError", ["not subscriptable"]))
            return self.call(Bound(m, o), [k])
        if isinstance(o, PyDict):
            k = self.hashable(k)
            try:
                if k in o.d: return o.d[k]
            except TypeError: raise PyRaise(ExcVal("TypeError", ["unhashable"]))
            return self.dict_sym(o, k)
        if isinstance(o, str):
            if isinstance(k, slice): return o[slice(*[None if x is None else self.conc_int(x) for x in (k.start, k.stop, k.step)])]
            return o[self.conc_int(k)]
        s = self.seq_of(o)
        if isinstance(o, ObjArr) and not isinstance(k, slice):
            if self.merging: raise MergeFail("object array")
            m = self.seq_of(k) if not isinstance(k, T) else None
            if isinstance(m, list):
                if not all(isinstance(b, bool) or isinstance(b, T) and b.s == "B" for b in m): raise Unsupported("object array index")
                if len(m) != len(s) and m: raise PyRaise(ExcVal("IndexError", ["boolean index did not match"]))
                return ObjArr([x for x, b in zip(s, m) if self.decide(b)])
            if not isinstance(k, (Arr,) + NUMT):
                t = norm_T(S(k), self.ctx)
                for j in range(len(s) - 1):
                    if self.decide(eq(t, num(j))): return s[j]
                self.oblige("bounds", eq(t, num(len(s) - 1)), "index of an object array")
                return s[-1]
        if isinstance(s, list):
            if isinstance(k, slice):
                sl = slice(*[None if x is None else self.conc_int(x) for x in (k.start, k.stop, k.step)])
                return PyList(s[sl]) if not isinstance(o, tuple) else tuple(s[sl])
            try: i = self.conc_int(k)
            except Unsupported:
                t = norm_T(S(k), self.ctx)
                n = len(s)
                self.oblige("bounds", and_(le(ZERO, t), lt(t, num(n))), "list index %s in [0,%d)" % (t, n))
                r = s[-1]
                for j in range(n - 2, -1, -1): r = self.merge_val(eq(t, num(j)), s[j], r)
                return r
            if i >= len(s) or i < -len(s): raise PyRaise(ExcVal("IndexError", ["list index out of range"]))
            return s[i]
        if isinstance(s, tuple) and s and s[0] == "symseq":
            _, n, f = s
            if isinstance(k, slice):
                lo, ln, st = self.np.slice(k, n)
                r = PyList([]); r.c["items"] = SymSeq(ln, lambda i: f(add(lo, mul(st, i))))
                return r
            t = self.np.index(S(k), n)
            return f(t)
        if isinstance(o, T) and o.s == "U": raise Unsupported("subscript of opaque")
        if o is None or isinstance(o, NUMT): raise PyRaise(ExcVal("TypeError", ["not subscriptable"]))
        if isinstance(o, T): raise PyRaise(ExcVal("TypeError", ["scalar not subscriptable"]))
        raise Unsupported("getitem of %r" % (o,))
    def dict_sym(self, o, k):
        """lookup with a symbolic key or in a dict with symbolic keys"""
        conds = []
        for kk in o.d:
            r = self.pyeq(kk, k)
            if r is True: return o.d[kk]
            if r is False: continue
            c = self.truth(r)
            if c is True: return o.d[kk]
            if c is False: continue
            conds.append((c, kk))
        if not conds:
            if o.base is not None:
                c = self.truth(o.base[0](self.tou(k)))
                if c is True: return o.base[1](self.tou(k))
                if c is not False:
                    if self.merging: raise MergeFail("dict lookup")
                    self.fork(c)
            if o.factory is not None:
                v = self.call(o.factory, []); self.setitem(o, k, v); return v
            raise PyRaise(ExcVal("KeyError", [k]))
        if self.merging: raise MergeFail("dict lookup")
        self.fork(conds[0][0])
    def setitem(self, o, k, v):
        if isinstance(o, Arr): self.np.setitem(o, k, v); return
        if isinstance(o, Obj):
            m = self.find(o.cls, "__setitem__")
            if m is None: raise PyRaise(ExcVal("TypeError", ["no item assignment"]))
            self.call(Bound(m, o), [k, v]); return
        if isinstance(o, PyDict):
            k = self.hashable(k)
            if isinstance(k, T) or any(isinstance(kk, T) for kk in o.d):
                for kk in o.d:
                    r = self.pyeq(kk, k)
                    c = self.truth(r) if not isinstance(r, bool) else r
                    if c is True: k = kk; break
                    if c is False: continue
                    if self.merging: raise MergeFail("dict store")
                    self.fork(c)
            d = dict(o.d); d[k] = v; o.put("d", d); return
        if isinstance(o, PyList):
            if isinstance(o.items, list):
                i = self.conc_int(k)
                l = list(o.items)
                if i >= len(l) or i < -len(l): raise PyRaise(ExcVal("IndexError", []))
                l[i] = v; o.put("items", l); return
            if isinstance(o.items, SymSeq):
                s = o.items; t = norm_T(S(k), self.ctx)
                o.put("items", SymSeq(s.n, lambda i, s=s: v if i is t else self.merge_val(eq(num(i), t), v, s.f(i)))); return
        raise Unsupported("setitem on %r" % (o,))
    # ------------------------------------------------------------ operators
    def binop(self, op, a, b):
        if isinstance(a, Arr) and a.ndim == 0: a = a.get(())
        if isinstance(b, Arr) and b.ndim == 0: b = b.get(())
        if isinstance(a, NUMT) and isinstance(b, NUMT) :
            if op == "Add": return a + b
            if op == "Sub": return a - b
            if op == "Mult": return a * b
            if op == "Div":
                if b == 0: raise PyRaise(ExcVal("ZeroDivisionError", []))
                return Fraction(a) / b
            if op == "FloorDiv":
                if b == 0: raise PyRaise(ExcVal("ZeroDivisionError", []))
                return a // b
            if op == "Mod":
                if b == 0: raise PyRaise(ExcVal("ZeroDivisionError", []))
                return a % b
            if op == "Pow":
                if isinstance(b, int) or b.denominator == 1:
                    r = Fraction(a) ** int(b)
                    return int(r) if isinstance(a, int) and isinstance(b, int) and b >= 0 else r
                return power(num(a), num(b))
            if op in ("BitAnd", "BitOr", "BitXor", "LShift", "RShift"):
                return {"BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b, "LShift": a << b if op == "LShift" else 0, "RShift": a >> b if op == "RShift" else 0}[op]
        if isinstance(a, str) or isinstance(b, str):
            if op == "Add" and isinstance(a, str) and isinstance(b, str): return a + b
            if op == "Mod":
                try:
                    vals = b if isinstance(b, tuple) else (b,)
                    if all(x is None or isinstance(x, (str, int)) for x in vals): return a % vals
                except Exception: pass
                return Opaque("string")
            if op == "Mult" and isinstance(b, int): return a * b
            if op == "Mult" and isinstance(a, int): return a * b
            return Opaque("string")
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if isinstance(a, Arr) or isinstance(b, Arr) : raise Unsupported("opaque in array arithmetic")
            return Opaque("arith")
        if isinstance(a, Sparse) or isinstance(b, Sparse):
            sp = isinstance(a, Sparse) and isinstance(b, Sparse)
            if op in ("Mult", "MatMult") and isinstance(a, Arr) and isinstance(b, Arr):
                r = self.np.dot(a, b); return sparse(r) if sp else r
            if op in ("Add", "Sub") and sp or op in ("Mult", "Div") and not (isinstance(b, Sparse) and op == "Div"):
                f = {"Add": add, "Sub": sub, "Mult": mul, "Div": div}[op]
                if sp:
                    for p, q in zip(a.shape, b.shape): self.np.need_same(p, q, "sparse sum")
                return sparse(self.np.ew(f, a, b, dtype="f"))
            if op not in ("Add", "Sub"): raise Unsupported("sparse operator %s" % op)
        la, lb = None, None
        if isinstance(a, (PyList, tuple)) and not (isinstance(b, Arr)) :
            if op == "Add" and isinstance(b, (PyList, tuple)):
                sa, sb = self.seq_of(a), self.seq_of(b)
                if isinstance(sa, list) and isinstance(sb, list):
                    return PyList(sa + sb) if isinstance(a, PyList) else tuple(sa + sb)
                raise Unsupported("symbolic list concatenation")
            if op == "Mult":
                sa = self.seq_of(a)
                if isinstance(sa, list):
                    try:
                        n = self.conc_int(b)
                        return PyList(sa * n) if isinstance(a, PyList) else tuple(sa * n)
                    except Unsupported:
                        if len(sa) == 1:
                            r = PyList([]); v0 = sa[0]
                            r.c["items"] = SymSeq(S(b), lambda i: v0); return r
                        raise
        if isinstance(b, (PyList,)) and op == "Mult" and isinstance(a, (int, T)) and not isinstance(a, bool):
            return self.binop("Mult", b, a)
        if isinstance(a, Obj) or isinstance(b, Obj):
            nm_ = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "MatMult": "matmul", "Pow": "pow"}[op]
            if isinstance(a, Obj) and self.find(a.cls, "__%s__" % nm_): return self.call(self.getattr(a, "__%s__" % nm_), [b])
            if isinstance(b, Obj) and self.find(b.cls, "__r%s__" % nm_): return self.call(self.getattr(b, "__r%s__" % nm_), [a])
        if isinstance(a, (PyList, tuple)) : a = self.np.asarr(a)
        if isinstance(b, (PyList, tuple)) : b = self.np.asarr(b)
        if isinstance(a, PyDict) or isinstance(b, PyDict): raise Unsupported("dict arithmetic")
        if a is None or b is None: raise PyRaise(ExcVal("TypeError", ["None in arithmetic"]))
        if op == "MatMult": return self.np.dot(a, b)
        f = {"Add": add, "Sub": sub, "Mult": mul, "Div": div, "Pow": power, "FloorDiv": fdiv, "Mod": fmod,
             "BitAnd": and_, "BitOr": or_}.get(op)
        if f is None: raise Unsupported("operator " + op)
        if op in ("BitAnd", "BitOr"):
            if isinstance(a, bool): a = TRUE if a else FALSE
            if isinstance(b, bool): b = TRUE if b else FALSE
            return self.np.ew(f, a, b, dtype="b")
        if op in ("Add", "Sub", "Mult"):
            g = f
            f = lambda x, y: g(self.b2n(x), self.b2n(y))
        if isinstance(a, Arr) or isinstance(b, Arr):
            dt = None
            if op == "Div": dt = "f"
            if op == "Pow" and not (isinstance(b, int)): dt = "f"
            return self.np.ew(f, a, b, dtype=dt)
        r = f(S(a), S(b))
        if r.s == "I" and r.op not in ("num", "var"):
            r = norm_T(r, self.ctx)
        return r
    def b2n(self, t):
        return ite(t, ONE, ZERO) if t.s == "B" else t

def vsubst(v, m):
    """substitution in values"""
    if isinstance(v, T): return subst(v, m)
    if isinstance(v, Arr):
        vs = tuple(fresh("i") for _ in v.shape)
        t = v.get(vs)
        return Arr(Store([subst(d, m) for d in v.shape], vs, subst(t, m), v.dtype))
    if isinstance(v, tuple): return tuple(vsubst(x, m) for x in v)
    if isinstance(v, PyList):
        it = v.items
        if isinstance(it, SymSeq):
            r = PyList([]); r.c["items"] = SymSeq(subst(it.n, m), lambda i: lend(vsubst(it.f(i), m), None)); return r
        return PyList([vsubst(x, m) for x in it])
    if isinstance(v, PyDict): return PyDict({k: vsubst(x, m) for k, x in v.whole().d.items()})
    if isinstance(v, FamRef): return FamRef(v.fam, subst(v.k, m))
    if isinstance(v, Func): return func_map(v, lambda x: vsubst(x, m), lambda t: any(k in fv(t) for k in m))
    return v
def lend(v, own):
    """element number i of a symbolic list, built on demand from `own`: a copy that must not be written"""
    if v is own: return v
    if isinstance(v, Arr): v.store.lent = True
    elif isinstance(v, tuple):
        for x, o in zip(v, own if isinstance(own, tuple) else v): lend(x, o if isinstance(own, tuple) else None)
    elif isinstance(v, PyList):
        v.lent = True
        for x in v.items if isinstance(v.items, list) else []: lend(x, None)
    elif isinstance(v, PyDict):
        v.lent = True
        for x in v.d.values(): lend(x, None)
    return v
def func_map(v, f, hit):
    """a function value created in an iteration: its defaults and the scalars captured from that iteration"""
    def envm(e):
        if e is None or e.module is not None: return e
        p = envm(e.parent)
        if p is e.parent and not any(isinstance(x, T) and hit(x) for x in e.c.values()): return e
        n = Env(p, None); n.__dict__.update({k: x for k, x in e.__dict__.items() if k not in ("c", "parent")}); n.c = {k: f(x) if isinstance(x, T) else x for k, x in e.c.items()}
        return n
    return Func(v.name, v.node, envm(v.env), [f(x) for x in v.defaults], [f(x) if x is not None else None for x in v.kwdefaults], v.module, v.qual, v.owner)

PYBUILTINS = {"_unsupported", "_cdiv", "_cmod", "range", "len", "enumerate", "zip", "list", "tuple", "dict", "set", "str", "int", "float", "bool", "abs", "min", "max", "sum",
  "sorted", "reversed", "isinstance", "issubclass", "hasattr", "getattr", "setattr", "print", "any", "all", "map", "filter", "type", "super", "object", "round",
  "callable", "property", "staticmethod", "classmethod", "open", "id", "hash", "repr", "iter", "next", "pow", "divmod", "slice", "__name__", "complex", "bytes", "frozenset", "vars", "locals", "globals", "input"}
CONSTS = {"numpy.pi": PI, "numpy.newaxis": None, "math.pi": PI, "numpy.inf": Opaque("inf"), "numpy.Inf": Opaque("inf"), "numpy.nan": Opaque("nan"),
          "numpy.ndarray": Builtin("numpy.ndarray"), "numpy.e": EULER, "scipy.pi": PI}
