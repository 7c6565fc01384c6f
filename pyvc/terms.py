"""Term language: hash-consed scalar terms (reals, integers, booleans, opaque values) with binders
(sum, prod, max, min, forall) over symbolic ranges.  Light simplification at construction; the heavy
normal form lives in norm.py."""
from fractions import Fraction
import itertools, math

class T:
    __slots__ = ("op", "a", "s", "_fv", "_key", "h", "__weakref__")
    def __repr__(self): return key(self)
    def __hash__(self): return self.h
    def __eq__(self, o): return self is o
    def __ne__(self, o): return self is not o

_tab = {}
def mk(op, a, s):
    k = (op, a, s)
    t = _tab.get(k)
    if t is None:
        t = T(); t.op = op; t.a = a; t.s = s; t._fv = None; t._key = None
        t.h = len(_tab) * 2654435761 % (1 << 61)
        _tab[k] = t
    return t

def key(t):
    if t._key is None:
        op = t.op
        if op == "num": r = str(t.a[0])
        elif op == "var": r = t.a[0]
        elif op == "app": r = t.a[0] + "(" + ",".join(key(x) for x in t.a[1:]) + ")"
        elif op in BIND: r = "%s{%s}(%s)" % (op, ",".join(key(v) + "<" + key(n) for v, n in t.a[0]), key(t.a[1]))
        elif op == "+": r = "(" + " + ".join(key(x) for x in t.a) + ")"
        elif op == "*": r = "*".join(key(x) for x in t.a)
        elif op == "pow": r = "%s^{%s}" % (key(t.a[0]), key(t.a[1]))
        else: r = op + "(" + ",".join(key(x) for x in t.a) + ")"
        t._key = r
    return t._key

BIND = {"sum", "prod", "max*", "min*", "argmax*", "argmin*", "forall", "exists", "all*", "any*", "lam"}

_cnt = itertools.count()
def fresh(name="v", s="I"):
    return var("%s!%d" % (name.split("!")[0], next(_cnt)), s)

def num(x):
    if isinstance(x, T): return x
    if isinstance(x, bool): return TRUE if x else FALSE
    if isinstance(x, float):
        x = Fraction(repr(x)) if math.isfinite(x) else None
        if x is None: raise ValueError("non-finite number")
    f = Fraction(x)
    return mk("num", (f,), "I" if f.denominator == 1 else "R")
def rnum(x):
    return num(x)
TRUE = mk("true", (), "B"); FALSE = mk("false", (), "B")
ZERO = num(0); ONE = num(1)
def var(n, s="R"): return mk("var", (n,), s)
def app(f, *args, s="R"): return mk("app", (f,) + tuple(num(x) for x in args), s)
EULER = var("e#", "R")
PI = var("pi#", "R")

def isnum(t): return t.op == "num"
def val(t): return t.a[0]

def add(*xs):
    out = []; c = Fraction(0)
    for x in xs:
        x = num(x)
        if x.op == "num": c += x.a[0]
        elif x.op == "+":
            for y in x.a:
                if y.op == "num": c += y.a[0]
                else: out.append(y)
        else: out.append(x)
    if c != 0: out.append(num(c))
    if not out: return ZERO
    if len(out) == 1: return out[0]
    return mk("+", tuple(out), "I" if all(o.s == "I" for o in out) else "R")
def mul(*xs):
    out = []; c = Fraction(1)
    for x in xs:
        x = num(x)
        if x.op == "num": c *= x.a[0]
        elif x.op == "*":
            for y in x.a:
                if y.op == "num": c *= y.a[0]
                else: out.append(y)
        else: out.append(x)
    if c == 0: return ZERO
    if c != 1: out.insert(0, num(c))
    if not out: return ONE
    if len(out) == 1: return out[0]
    return mk("*", tuple(out), "I" if all(o.s == "I" for o in out) else "R")
def neg(x): return mul(-1, x)
def sub(a, b): return add(a, neg(b))
def power(b, e):
    b = num(b); e = num(e)
    if e.op == "num":
        if e.a[0] == 0: return ONE
        if e.a[0] == 1: return b
        if b.op == "num" and e.a[0].denominator == 1 and not (b.a[0] == 0 and e.a[0] < 0):
            return num(b.a[0] ** int(e.a[0]))
    s = "I" if (b.s == "I" and e.op == "num" and e.a[0].denominator == 1 and e.a[0] >= 0) else "R"
    return mk("pow", (b, e), s)
def div(a, b):
    a = num(a); b = num(b)
    return mul(a, power(b, -1))
def exp(x):
    x = num(x)
    if x is ZERO: return ONE
    return mk("pow", (EULER, x), "R")
def sqrt(x): return power(x, Fraction(1, 2))
def fn(name, *xs):
    return mk("fn_" + name, tuple(num(x) for x in xs), "R")
def absf(x):
    x = num(x)
    if isnum(x): return num(abs(val(x)))
    return mk("fn_abs", (x,), x.s)
def fdiv(a, b):
    a = num(a); b = num(b)
    if isnum(a) and isnum(b) and val(b) != 0: return num(val(a) // val(b))
    if b is ONE and a.s == "I": return a
    return mk("div", (a, b), "I")
def fmod(a, b):
    return sub(a, mul(b, fdiv(a, b)))
def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    a = num(a); b = num(b)
    if a is b: return a
    if a.s == "B" or b.s == "B":
        return or_(and_(c, a), and_(not_(c), b))
    return mk("ite", (c, a, b), a.s if a.s == b.s else "R")
def eq(a, b):
    a = num(a); b = num(b)
    if a is b: return TRUE
    if isnum(a) and isnum(b): return TRUE if val(a) == val(b) else FALSE
    if a.s == "B": return or_(and_(a, b), and_(not_(a), not_(b)))
    if key(a) > key(b): a, b = b, a
    return mk("eq", (a, b), "B")
def le(a, b):
    a = num(a); b = num(b)
    if a is b: return TRUE
    if isnum(a) and isnum(b): return TRUE if val(a) <= val(b) else FALSE
    return mk("le", (a, b), "B")
def lt(a, b):
    a = num(a); b = num(b)
    if a is b: return FALSE
    if isnum(a) and isnum(b): return TRUE if val(a) < val(b) else FALSE
    return mk("lt", (a, b), "B")
def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)
def not_(c):
    if c is TRUE: return FALSE
    if c is FALSE: return TRUE
    if c.op == "not": return c.a[0]
    return mk("not", (c,), "B")
def and_(*cs):
    out = []
    for c in cs:
        if c is TRUE: continue
        if c is FALSE: return FALSE
        for d in (c.a if c.op == "and" else (c,)):
            if d not in out: out.append(d)
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return mk("and", tuple(out), "B")
def or_(*cs):
    out = []
    for c in cs:
        if c is FALSE: continue
        if c is TRUE: return TRUE
        for d in (c.a if c.op == "or" else (c,)):
            if d not in out: out.append(d)
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return mk("or", tuple(out), "B")
def implies(a, b): return or_(not_(a), b)
def ne(a, b): return not_(eq(a, b))
def binder(op, v, n, body):
    """op over v in [0, n)."""
    s = body.s
    if op in ("argmax*", "argmin*"): s = "I"
    if op in ("forall", "exists"):
        if body is TRUE and op == "forall": return TRUE
        if body is FALSE and op == "exists": return FALSE
        s = "B"
    n = num(n)
    if op == "sum" and body is ZERO: return ZERO
    if op == "prod" and body is ONE: return ONE
    if isnum(n) and 1 <= val(n) <= 8 and op in ("max*", "min*"):
        r = subst(body, {v: ZERO})
        for k in range(1, int(val(n))): r = (tmax if op == "max*" else tmin)(r, subst(body, {v: num(k)}))
        return r
    if isnum(n) and val(n) <= 8 and op in ("sum", "prod", "forall", "exists"):
        items = [subst(body, {v: num(i)}) for i in range(int(max(0, val(n))))]
        return {"sum": add, "prod": mul, "forall": and_, "exists": or_}[op](*items)
    if op == "lam": s = "L"
    return mk(op, (((v, n),), body), s)
def Lam(v, n, body): return binder("lam", v, n, num(body))
def Sum(v, n, body): return binder("sum", v, n, num(body))
def Prod(v, n, body): return binder("prod", v, n, num(body))
def tmax(a, b):
    a = num(a); b = num(b)
    if a is b: return a
    return ite(le(a, b), b, a)
def tmin(a, b):
    a = num(a); b = num(b)
    if a is b: return a
    return ite(le(b, a), b, a)

def children(t):
    if t.op in ("num", "var", "true", "false"): return ()
    if t.op == "app": return t.a[1:]
    if t.op in BIND: return tuple(n for _, n in t.a[0]) + (t.a[1],)
    return t.a

EMPTY = frozenset()
def fv(t):
    if t._fv is None:
        if t.op == "var": r = frozenset((t,))
        elif t.op in BIND:
            r = fv(t.a[1])
            for v, n in reversed(t.a[0]):
                r = (r - {v}) | fv(n)
        else:
            r = EMPTY
            for c in children(t):
                r = r | fv(c)
        t._fv = r
    return t._fv

def rebuild(t, ch):
    op = t.op
    if op == "+": return add(*ch)
    if op == "*": return mul(*ch)
    if op == "pow": return power(*ch)
    if op == "ite": return ite(*ch)
    if op == "eq": return eq(*ch)
    if op == "le": return le(*ch)
    if op == "lt": return lt(*ch)
    if op == "not": return not_(*ch)
    if op == "and": return and_(*ch)
    if op == "or": return or_(*ch)
    if op == "div": return fdiv(*ch)
    if op == "fn_abs": return absf(*ch)
    if op == "app": return mk("app", (t.a[0],) + tuple(ch), t.s)
    if op in BIND:
        k = len(t.a[0])
        bs = tuple((v, n) for (v, _), n in zip(t.a[0], ch[:k]))
        if k == 1: return binder(op, bs[0][0], bs[0][1], ch[k])
        return mk(op, (bs, ch[k]), t.s)
    return mk(op, tuple(ch), t.s)

def subst(t, m):
    """simultaneous capture-avoiding substitution of variables"""
    if not m: return t
    rep_fv = EMPTY
    for x in m.values(): rep_fv = rep_fv | fv(x)
    return _subst(t, m, frozenset(m), rep_fv, {})
def _subst(t, m, dom, rfv, memo):
    if t in memo: return memo[t]
    if not (fv(t) & dom):
        r = t
    elif t.op == "var":
        r = m.get(t, t)
    elif t.op in BIND:
        bs = t.a[0]; body = t.a[1]
        bvs = {v for v, _ in bs}
        if (bvs & dom) or (bvs & rfv):
            ren = {v: fresh(v.a[0].split("!")[0], v.s) for v in bvs}
            nbs = []; sofar = {}
            for v, n in bs:
                nbs.append((ren[v], subst(n, sofar))); sofar[v] = ren[v]
            body = subst(body, ren); bs = tuple(nbs)
        bs2 = [(v, subst(n, m)) for v, n in bs]
        b2 = subst(body, m)
        r = rebuild(mk(t.op, (tuple(bs2), b2), t.s), [n for _, n in bs2] + [b2])
    else:
        r = rebuild(t, [_subst(c, m, dom, rfv, memo) for c in children(t)])
    memo[t] = r
    return r

def replace_apps(t, f, memo=None):
    """bottom-up rewriting: f(app term with rewritten args) -> T or None.  Binder-safe as long as f
    only uses the arguments it is given."""
    if memo is None: memo = {}
    if t in memo: return memo[t]
    if t.op in ("num", "var", "true", "false"): r = t
    else:
        if t.op in BIND:
            # refresh binder variables to avoid capture
            ren = {v: fresh(v.a[0].split("!")[0], v.s) for v, _ in t.a[0]}
            bs = []; sofar = {}
            for v, n in t.a[0]:
                bs.append((ren[v], replace_apps(subst(n, sofar), f, memo))); sofar[v] = ren[v]
            body = replace_apps(subst(t.a[1], ren), f, memo)
            r = rebuild(mk(t.op, (tuple(bs), body), t.s), [n for _, n in bs] + [body])
        else:
            r = rebuild(t, [replace_apps(c, f, memo) for c in children(t)])
            if r.op == "app":
                q = f(r)
                if q is not None: r = q
    memo[t] = r
    return r

def replace_term(t, m, memo=None):
    """replace whole subterms (no binder capture handling: replacements mention no bound variables)"""
    if memo is None: memo = {}
    if t in m: return m[t]
    r = memo.get(t)
    if r is not None: return r
    ch = children(t)
    if not ch: return t
    n = [replace_term(x, m, memo) for x in ch]
    r = t if all(a is b for a, b in zip(n, ch)) else rebuild(t, n)
    memo[t] = r
    return r

def apps_in(t, acc=None, seen=None):
    """names of uninterpreted functions occurring in t"""
    if acc is None: acc = set(); seen = set()
    if t in seen: return acc
    seen.add(t)
    if t.op == "app": acc.add(t.a[0])
    for c in children(t): apps_in(c, acc, seen)
    return acc

# ---------------------------------------------------------------- numeric evaluation
class Undefined(Exception): pass
def _ndtr(x): return 0.5 * math.erfc(-x / math.sqrt(2))
FN = {"sin": math.sin, "cos": math.cos, "tan": math.tan, "tanh": math.tanh, "log": math.log, "log10": math.log10,
      "abs": abs, "floor": math.floor, "Phi": _ndtr, "phi": lambda x: math.exp(-x * x / 2) / math.sqrt(2 * math.pi),
      "sign": lambda x: (x > 0) - (x < 0), "round": lambda x: float(round(x)), "trunc": lambda x: float(math.trunc(x)),
      "arctan": math.atan, "cosh": math.cosh, "sinh": math.sinh, "erf": math.erf, "atan2": math.atan2, "ceil": math.ceil}

def evaluate(t, env, funcs, memo=None):
    """env: var name -> number; funcs(name, args) -> number"""
    op = t.op
    if op == "num":
        f = t.a[0]
        return int(f) if f.denominator == 1 else float(f)
    if op == "var":
        if t is EULER: return math.e
        if t is PI: return math.pi
        return env[t.a[0]]
    if op == "true": return True
    if op == "false": return False
    ev = lambda x: evaluate(x, env, funcs)
    if op == "app": return funcs(t.a[0], tuple(ev(x) for x in t.a[1:]), t.s)
    if op == "+": return sum(ev(x) for x in t.a)
    if op == "*":
        r = 1
        for x in t.a:
            if r == 0 and False: return 0
            r = r * ev(x)
        return r
    if op == "pow":
        b = ev(t.a[0]); e = ev(t.a[1])
        try:
            r = b ** e if not (isinstance(e, int) and e < 0) else float(b) ** e
            if isinstance(r, complex): raise Undefined("complex")
            return r
        except ZeroDivisionError: raise Undefined("0^neg")
        except OverflowError: raise Undefined("overflow")
    if op == "ite": return ev(t.a[1]) if ev(t.a[0]) else ev(t.a[2])
    if op == "eq": return ev(t.a[0]) == ev(t.a[1])
    if op == "le": return ev(t.a[0]) <= ev(t.a[1])
    if op == "lt": return ev(t.a[0]) < ev(t.a[1])
    if op == "not": return not ev(t.a[0])
    if op == "and": return all(ev(x) for x in t.a)
    if op == "or": return any(ev(x) for x in t.a)
    if op == "div":
        b = ev(t.a[1])
        if b == 0: raise Undefined("div 0")
        return ev(t.a[0]) // b
    if op == "ind": return 1 if ev(t.a[0]) else 0
    if op.startswith("fn_"):
        try: return FN[op[3:]](*[ev(x) for x in t.a])
        except (ValueError, OverflowError): raise Undefined(op)
    if op in BIND:
        env = dict(env)
        vals = []
        def rec(k):
            if k == len(t.a[0]):
                vals.append(evaluate(t.a[1], env, funcs)); return
            v, n = t.a[0][k]
            nn = evaluate(n, env, funcs)
            if nn > 100000: raise Undefined("range")
            for i in range(int(nn)):
                env[v.a[0]] = i
                rec(k + 1)
        rec(0)
        if op == "sum": return sum(vals)
        if op == "lam": return tuple(round(v, 9) if isinstance(v, float) else v for v in vals)
        if op == "prod":
            r = 1
            for x in vals: r *= x
            return r
        if op in ("max*", "min*", "argmax*", "argmin*"):
            if not vals: raise Undefined("empty reduction")
            m = max(vals) if "max" in op else min(vals)
            return m if not op.startswith("arg") else vals.index(m)
        if op in ("forall", "all*"): return all(vals)
        if op in ("exists", "any*"): return any(vals)
    raise NotImplementedError(op)
