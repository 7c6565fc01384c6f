"""Front end for contracts: path exploration, symbolic inputs, assertions, reports."""
import time, traceback
from fractions import Fraction
from .terms import *
from .norm import *
from . import norm as nm, terms as tm
from .arrays import *
from .interp import *
from . import interp as I

class VC:
    def __init__(self, it): self.it = it; self.assumed = []
    # inputs
    def dim(self, name, lo=1):
        v = var(name, "I"); self.assume(le(num(lo), v)); return v
    def int_(self, name): return var(name, "I")
    def real(self, name): return var(name, "R")
    def arr(self, name, *shape, s="R", dtype=None): return symarr(name, *shape, s=s, dtype=dtype)
    def assume(self, *c):
        self.it.ctx = self.it.ctx.extend(*[norm_cond(x, self.it.ctx) for x in c])
    def positive(self, *names):
        self.it.ctx = Ctx((), self.it.ctx, names)
    def axiom(self, head, f):
        """assumed contract of an uninterpreted symbol: f(*args) -> conditions"""
        nm.AXIOM[head] = f
        self.it.ctx = Ctx((), self.it.ctx)
    def invariant(self, qual, inv, havoc=None, extra=None, match=None, kind=None):
        """state the invariant of a loop of function `qual` ('module:Class.meth')"""
        from .loops import LoopSpec
        self.it.loop_specs.setdefault(qual, []).append(LoopSpec(inv, havoc, extra, match, kind))
    def lemma_min(self, n, E, *at):
        """definition of min / argmin over 0..n-1 (n >= 1), instantiated: min <= E(t), E(argmin) = min, 0 <= argmin < n"""
        l = fresh("l"); m = binder("min*", l, num(n), E(l)); l = fresh("l"); a = binder("argmin*", l, num(n), E(l))
        a, m = norm_T(a, self.it.ctx), norm_T(m, self.it.ctx)
        self.assume(le(ZERO, a), lt(a, num(n)), eq(E(a), m), *[le(m, E(t)) for t in at])
        return m, a
    def argmin_def(self, a, *at):
        """definition of the argmin term a, instantiated: 0 <= a < n, E(a) <= E(t) for t in range"""
        a = norm_T(S(a), self.it.ctx)
        if a.op != "argmin*": raise Unsupported("argmin term expected, got %s" % a)
        (v, n), = a.a[0]; E = a.a[1]
        self.assume(le(ZERO, a), lt(a, n), *[or_(not_(and_(le(ZERO, t), lt(t, n))), le(subst(E, {v: a}), subst(E, {v: t}))) for t in at])
        return a, n
    def load(self, p): return self.it.load(p)
    def call(self, f, *args, **kw):
        if isinstance(f, str): f = self.it.load(f)
        return self.it.call(f, [self.py(a) for a in args], {k: self.py(v) for k, v in kw.items()})
    def py(self, v):
        if isinstance(v, list): return PyList([self.py(x) for x in v])
        if isinstance(v, dict): return PyDict({k: self.py(x) for k, x in v.items()})
        if isinstance(v, float): return Fraction(repr(v))
        return v
    def obj(self, cls, **attrs):
        if isinstance(cls, str): cls = self.it.load(cls)
        o = Obj(cls); o.c = {k: self.py(v) for k, v in attrs.items()}
        return o
    def new(self, cls, *args, **kw):
        if isinstance(cls, str): cls = self.it.load(cls)
        return self.call(cls, *args, **kw)
    def method(self, o, name, *args, **kw):
        return self.it.call(self.it.getattr(o, name), [self.py(a) for a in args], {k: self.py(v) for k, v in kw.items()})
    def within(self, o, name, kw, body):
        """with o.name(**kw): body()"""
        import ast as A
        env = Env(None, None); env.c.update({"o": o, "body": body, **{"k_" + k: self.py(v) for k, v in kw.items()}})
        src = "with o.%s(%s):\n    body()" % (name, ", ".join("%s=k_%s" % (k, k) for k in kw))
        for st in A.parse(src).body: self.it.exec(st, env)
    def within_fn(self, f, kw, body):
        """with f(**kw) as v: body(v)"""
        import ast as A
        env = Env(None, None); env.c.update({"f": self.it.load(f), "body": body, **{"k_" + k: self.py(v) for k, v in kw.items()}})
        src = "with f(%s) as v:\n    body(v)" % ", ".join("%s=k_%s" % (k, k) for k in kw)
        for st in A.parse(src).body: self.it.exec(st, env)
    def attr(self, o, n): return self.it.getattr(o, n)
    def raises(self, f):
        """-> (raised?, value)"""
        try: return None, f()
        except PyRaise as e: return e.v, None
    # assertions
    def check(self, goal, label, kind="post"): return self.it.oblige(kind, goal, label)
    def check_eq(self, a, b, label, kind="post"):
        """term equality"""
        a, b = S(a), S(b)
        if a.s in ("B", "U") : return self.it.oblige(kind, eq(a, b), label)
        t0 = time.time()
        try: r = prove_zero(sub(a, b), self.it.ctx)
        except Budget as e: r = Proof(False, "budget %s" % e)
        self.it.obligations.append(Obligation(kind, "%s" % label, r.ok, r.how, time.time() - t0, None if r.ok else r.residual,
            None if r.ok else eq(a, b), None if r.ok else self.it.ctx.all_facts()))
        return r.ok
    def check_shape(self, a, shape, label):
        if not isinstance(a, Arr) or a.ndim != len(shape):
            self.fail(label + ": shape %s expected, got %r" % (tuple(map(str, shape)), a)); return False
        ok = True
        for p, q in zip(a.shape, shape):
            if not self.it.np.same(p, num(q)):
                ok = self.check(eq(p, num(q)), label + ": shape") and ok
        if ok: self.it.rule("post", label + ": shape", "normal form")
        return ok
    def check_arr(self, a, shape, f, label):
        """array a has the given shape and elements f(*idx)"""
        if not self.check_shape(a, shape, label): return False
        vs = [ZERO if is1(num(d)) else var("k%d" % k, "I") for k, d in enumerate(shape)]
        save = self.it.ctx
        self.it.ctx = self.it.ctx.extend(*[g for v, d in zip(vs, shape) if v is not ZERO for g in (le(ZERO, v), lt(v, num(d)))])
        try: return self.check_eq(a.get(vs), num(f(*vs)), label + ": elements")
        finally: self.it.ctx = save
    def forall(self, ranges, f):
        """run f with fresh indices constrained to ranges"""
        vs = [var("k%d" % k, "I") for k in range(len(ranges))]
        save = self.it.ctx
        self.it.ctx = self.it.ctx.extend(*[g for v, d in zip(vs, ranges) for g in (le(ZERO, v), lt(v, num(d)))])
        try: return f(*vs)
        finally: self.it.ctx = save
    def fail(self, label, kind="post"):
        self.it.obligations.append(Obligation(kind, label, False, "refuted", 0.0, None, FALSE, self.it.ctx.all_facts()))
    def ok(self, label, how="structural", kind="post"):
        self.it.obligations.append(Obligation(kind, label, True, how, 0.0))
    def require(self, cond, label):
        if cond: self.ok(label)
        else: self.fail(label)
    def snapshot(self, a): return a.copy()
    def D(self, t, tgt): return nm.D(S(t), tgt)

# rows selected by a condition: nth!(mask, i) is the i-th index where the mask holds, count!(mask) their number
def _nth(L, i):
    (v, n), = L.a[0]
    t = app("nth!", L, i, s="I")
    return [or_(not_(and_(le(ZERO, i), lt(i, app("count!", L, s="I")))), and_(le(ZERO, t), lt(t, n), subst(L.a[1], {v: t})))]
def _count(L):
    (v, n), = L.a[0]
    t = app("count!", L, s="I")
    return [le(ZERO, t), le(t, n)]
SELECTION = {"nth!": _nth, "count!": _count}

def run_contract(name, proof, setup=None, timeout=120, maxpaths=64):
    """explore all paths of proof(vc); -> dict(result)"""
    t0 = time.time()
    out = dict(name=name, obligations=[], paths=0, status="ok", detail="", functions=set(), builtins=set())
    work = [[]]
    nm.DEADLINE[0] = t0 + timeout
    nm.AXIOM.clear(); nm.DERIV.clear(); nm.AXIOM.update(SELECTION)
    for d in (TOP.memo, TOP.ent, TOP.kids): d.clear()
    TOP._s = None
    it = Interp()
    if setup: setup(it)
    try:
        while work:
            assum = work.pop()
            if out["paths"] >= maxpaths: out["status"] = "unsupported"; out["detail"] = "too many paths"; break
            tm._cnt = __import__("itertools").count()
            Cell.J.stack = []
            it.ctx = TOP; it.obligations = []; it.loop_ctr = 0; it.loop_specs = {}; it.cur_func = []; it.merging = 0; it.call_depth = 0; it.loop_depth = 0
            vc = VC(it)
            vc.path = assum
            it.path_assum = assum
            # path conditions are added once their symbols are constrained; adding first is equivalent
            it.ctx = TOP.extend(*assum)
            if it.ctx.infeasible(): continue
            try:
                proof(vc)
            except ForkRestart as e:
                c = e.cond
                work.append(assum + [not_(c)]); work.append(assum + [c])
                continue
            except PathEnd: pass
            except MergeFail as e: raise Unsupported("merge: %s" % e)
            except PyRaise as e:
                if it.ctx.infeasible(): continue
                it.obligations.append(Obligation("exception", "%s: no exception escapes (got %r)" % (name, e.v), False, "refuted", 0.0, None, FALSE, it.ctx.all_facts()))
            if it.ctx.infeasible(): continue
            out["paths"] += 1
            out["obligations"] += it.obligations
    except Unsupported as e:
        out["status"] = "unsupported"; out["detail"] = str(e)
        out["where"] = traceback.format_exc()
    except Budget as e:
        out["status"] = "unsupported"; out["detail"] = "budget: %s" % e
    except RecursionError as e:
        out["status"] = "unsupported"; out["detail"] = "recursion"
    except Exception as e:
        out["status"] = "unsupported"; out["detail"] = "engine error: %r" % (e,)
        out["where"] = traceback.format_exc()
    nm.DEADLINE[0] = None
    out["functions"] = it.functions; out["builtins"] = it.builtins_used
    out["time"] = time.time() - t0
    if out["status"] == "ok" and not out["obligations"]:
        out["status"] = "unsupported"; out["detail"] = "no obligations generated (vacuous)"
    return out
