"""Normal forms and the rewriting prover.

A real/integer term is normalised to a polynomial: dict monomial -> Fraction; a monomial is a sorted
tuple of (atom, exponent).  Conditions become 0/1 indicator atoms, sums are distributed over monomials,
factored into connected components and Kronecker-collapsed; integer side conditions are decided by z3
in a context of assumptions."""
from fractions import Fraction
import itertools, time
import z3
from .terms import *
from . import terms as tm

ONE_M = ()
class Budget(Exception): pass

STATS = {"z3_calls": 0, "z3_time": 0.0}
MAXMONO = 6000
DEADLINE = [None]
TSCALE = [1]            # multiplies every solver timeout (check.py retries undecided contracts with more time)
def check_deadline():
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]: raise Budget("time")

# ------------------------------------------------------------------ z3 encoding
class Z3Enc:
    def __init__(self): self.memo = {}; self.side = []
    def sort(self, s): return {"I": z3.IntSort(), "R": z3.RealSort(), "B": z3.BoolSort(), "U": _U}[s]
    def e(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._e(t); self.memo[t] = r
        return r
    def real(self, t):
        x = self.e(t)
        return z3.ToReal(x) if z3.is_int(x) else x
    def _pair(self, a, b):
        x, y = self.e(a), self.e(b)
        if z3.is_int(x) and z3.is_real(y): x = z3.ToReal(x)
        if z3.is_real(x) and z3.is_int(y): y = z3.ToReal(y)
        return x, y
    def _e(self, t):
        op = t.op
        if op == "num":
            f = t.a[0]
            return z3.IntVal(int(f)) if f.denominator == 1 else z3.RealVal(str(f))
        if op == "true": return z3.BoolVal(True)
        if op == "false": return z3.BoolVal(False)
        if op == "var": return z3.Const(t.a[0], self.sort(t.s))
        if op == "app":
            if len(t.a) == 1: return z3.Const("f:" + t.a[0], self.sort(t.s))
            args = [self.e(x) for x in t.a[1:]]
            if t.a[0] in AXIOM:
                f = z3.Function("f:%s:%s:%s" % (t.a[0], "".join(x.sort().name()[0] for x in args), t.s), *([x.sort() for x in args] + [self.sort(t.s)]))
                r = self.memo[t] = f(*args)
                self.side += [self.e(g) for g in AXIOM[t.a[0]](*t.a[1:])]
                return r
            f = z3.Function("f:%s:%s:%s" % (t.a[0], "".join(x.sort().name()[0] for x in args), t.s), *([x.sort() for x in args] + [self.sort(t.s)]))
            return f(*args)
        if op in ("+", "*"):
            xs = [self.e(x) for x in t.a]
            if any(z3.is_real(x) for x in xs): xs = [z3.ToReal(x) if z3.is_int(x) else x for x in xs]
            r = xs[0]
            for x in xs[1:]: r = (r + x) if op == "+" else r * x
            return r
        if op == "pow":
            b, ex = t.a
            if isnum(ex) and val(ex).denominator == 1 and 0 < val(ex) <= 6:
                x = self.e(b); r = x
                for _ in range(int(val(ex)) - 1): r = r * x
                return r
            if isnum(ex) and val(ex) == -1:
                return z3.RealVal(1) / self.real(b)
            r = z3.Const("p:" + key(t), z3.RealSort())
            if b is EULER: self.side.append(r > 0)
            if isnum(ex) and val(ex) == Fraction(1, 2):
                bb = self.real(b)
                self.side.append(z3.Implies(bb >= 0, z3.And(r >= 0, r * r == bb)))
            return r
        if op == "div": 
            a, b = self.e(t.a[0]), self.e(t.a[1])
            if z3.is_int(a) and z3.is_int(b): return a / b
            return z3.ToInt(self.real(t.a[0]) / self.real(t.a[1]))
        if op == "ite":
            x, y = self._pair(t.a[1], t.a[2])
            return z3.If(self.e(t.a[0]), x, y)
        if op == "ind": return z3.If(self.e(t.a[0]), z3.IntVal(1), z3.IntVal(0))
        if op == "eq":
            x, y = self._pair(*t.a); return x == y
        if op == "le":
            x, y = self._pair(*t.a); return x <= y
        if op == "lt":
            x, y = self._pair(*t.a); return x < y
        if op == "not": return z3.Not(self.e(t.a[0]))
        if op == "and": return z3.And([self.e(x) for x in t.a])
        if op == "or": return z3.Or([self.e(x) for x in t.a])
        if op == "fn_abs":
            x = self.e(t.a[0]); return z3.If(x >= 0, x, -x)
        if op in ("forall", "exists"):
            (v, n), = t.a[0]
            zv = self.e(v); zn = self.e(n); b = self.e(t.a[1])
            return z3.ForAll([zv], z3.Implies(z3.And(zv >= 0, zv < zn), b)) if op == "forall" else z3.Exists([zv], z3.And(zv >= 0, zv < zn, b))
        r = z3.Const("t:" + key(t), self.sort(t.s if t.s != "L" else "U"))
        if op == "fn_Phi": self.side += [r >= 0, r <= 1]
        if op == "fn_phi": self.side += [r > 0]
        if op == "fn_ceil" and t.s == "I": x = self.real(t.a[0]); self.side += [x <= r, r < x + 1]
        if op in ("argmin*", "argmax*"):
            n = self.e(t.a[0][0][1]); self.side += [z3.Implies(n >= 1, z3.And(r >= 0, r < n))]
        return r
_U = z3.DeclareSort("U")
AXIOM = {}      # head -> f(*args) -> conditions true of every application (assumed contract of that symbol; reset per contract)

class Ctx:
    """immutable chain of assumptions"""
    def __init__(self, facts=(), parent=None, positive=()):
        self.parent = parent; self.facts = tuple(facts)
        self.positive = frozenset(positive) | (parent.positive if parent else frozenset())
        self.memo = {}; self.ent = {}; self.kids = {}; self._s = None; self._enc = None
        self.depth = parent.depth + 1 if parent else 0
    def all_facts(self):
        c = self; out = []
        while c: out = list(c.facts) + out; c = c.parent
        return out
    def extend(self, *facts):
        fs = []
        for f in facts:
            for g in (f.a if f.op == "and" else (f,)):
                if g is not TRUE and not self.has(g): fs.append(g)
        if not fs: return self
        k = tuple(fs)
        c = self.kids.get(k)
        if c is None: c = self.kids[k] = Ctx(k, self)
        return c
    def has(self, f):
        c = self
        while c:
            if f in c.facts: return True
            c = c.parent
        return False
    def solver(self):
        if self._s is None:
            s = z3.Solver(); s.set("timeout", 400 * TSCALE[0])
            enc = Z3Enc()
            for f in self.all_facts(): s.add(enc.e(f))
            for x in enc.side: s.add(x)
            enc.side = []
            self._s = s; self._enc = enc
        return self._s, self._enc
    def entails(self, c, strong=False):
        if c is TRUE: return True
        if c is FALSE: return self.infeasible()
        r = self.ent.get(c)
        if r is None:
            r = self._entails(c); self.ent[c] = r
        return r
    def infeasible(self):
        r = self.ent.get(FALSE)
        if r is None:
            r = self.ent[FALSE] = (self.check(TRUE) == "unsat")
        return r
    def _entails(self, c):
        if self.has(c): return True
        if c.op == "and": return all(self.entails(x) for x in c.a)
        if self.check(not_(c)) == "unsat": return True
        return self.entails_prod(c)
    def entails_prod(self, c):
        """integer inequality of degree 2: retry with the pairwise products of the linear facts as extra facts"""
        t = c.a[0] if c.op == "not" else c
        if t.op not in ("le", "lt"): return False
        try: P = padd(norm(t.a[0], TOP), norm(t.a[1], TOP), -1)
        except Budget: return False
        vs = set(); deg = 0
        for m in P:
            d = 0
            for a, e in m:
                if a.op != "var" or a.s != "I" or not isnum(e) or val(e).denominator != 1 or val(e) < 0: return False
                d += val(e); vs.add(a)
            deg = max(deg, d)
        if deg != 2: return False
        lin = []
        for f in self.all_facts():
            neg_ = f.op == "not"; g = f.a[0] if neg_ else f
            if g.op not in ("le", "lt"): continue
            Q = padd(norm(g.a[1], TOP), norm(g.a[0], TOP), -1)      # g: 0 <= Q (or <)
            if any(len(m) > 1 or any(a.op != "var" or a.s != "I" or e is not ONE for a, e in m) for m in Q): continue
            if any(x.denominator != 1 for x in Q.values()): continue
            if neg_: Q = pscale(Q, -1)
            if (g.op == "lt") != neg_: Q = padd(Q, pconst(1), -1)
            if not any(a in vs for m in Q for a, _ in m): continue
            lin.append(Q)
        if not lin or len(lin) > 10: return False
        s, enc = self.solver(); t0 = time.time()
        s.push()
        for i in range(len(lin)):
            for j in range(i, len(lin)):
                s.add(enc.e(npoly_T(pmul(lin[i], lin[j], TOP))) >= 0)
        s.add(enc.e(mk(t.op, (npoly_T(P), ZERO), "B")) if c.op == "not" else z3.Not(enc.e(mk(t.op, (npoly_T(P), ZERO), "B"))))
        for x in enc.side: s.add(x)
        enc.side = []
        r = s.check(); s.pop()
        STATS["z3_calls"] += 1; STATS["z3_time"] += time.time() - t0
        return str(r) == "unsat"
    def check(self, c):
        check_deadline()
        s, enc = self.solver()
        t0 = time.time()
        e = enc.e(c)
        for x in enc.side: s.add(x)
        enc.side = []
        s.push()
        s.add(e)
        r = s.check()
        s.pop()
        STATS["z3_calls"] += 1; STATS["z3_time"] += time.time() - t0
        return str(r)
    def pos(self, t):
        """t > 0 known"""
        if t.op == "app" and t.a[0] in self.positive: return True
        if t.op == "var" and (t in (EULER, PI) or t.a[0] in self.positive): return True
        if t.op == "num": return val(t) > 0
        if t.op == "pow": return self.pos(t.a[0])
        if t.op == "*" : 
            if all(self.pos(x) for x in t.a): return True
        if t.op == "+" :
            if any(self.pos(x) for x in t.a) and all(self.nonneg(x) for x in t.a): return True
        if t.op == "sum":
            k = ("sumpos", t); r = self.memo.get(k)
            if r is None:
                c = self; r = True
                for v, n in t.a[0]:
                    if not c.entails(lt(ZERO, n)): r = False; break
                    c = c.extend(le(ZERO, v), lt(v, n))
                r = self.memo[k] = r and c.pos(t.a[1])
            return r
        if t.op in ("var", "app") and (t.s == "I" or self.parent or self.facts): return self.entails(lt(ZERO, t))
        return False
    def nonneg(self, t):
        if self.pos(t): return True
        if t.op == "num": return val(t) >= 0
        if t.op in ("fn_abs", "ind", "fn_Phi", "fn_phi"): return True
        if t.op == "pow":
            b, e = t.a
            if isnum(e) and val(e).denominator == 1 and val(e) % 2 == 0 and b.s != "B": return True
            if isnum(e) and val(e).denominator == 2: return True
            return self.nonneg(b)
        if t.op in ("*", "+"):
            if all(self.nonneg(x) for x in t.a): return True
        if t.op in ("sum", "prod"):
            c = self
            for v, n in t.a[0]: c = c.extend(le(ZERO, v), lt(v, n))
            return c.nonneg(t.a[1])
        if t.op in ("var", "app", "+", "div") : return self.entails(le(ZERO, t))
        return False

TOP = Ctx()

# ------------------------------------------------------------------ polynomials
def padd(p, q, c=1):
    if not q: return p
    r = dict(p)
    for m, v in q.items():
        x = r.get(m, 0) + v * c
        if x == 0: r.pop(m, None)
        else: r[m] = x
    return r
def pscale(p, c):
    if c == 0: return {}
    if c == 1: return p
    return {m: v * c for m, v in p.items()}
def pconst(c):
    return {ONE_M: Fraction(c)} if c != 0 else {}
def patom(a, e=ONE): return {((a, e),): Fraction(1)}
def is_const(p): return not p or (len(p) == 1 and ONE_M in p)
def const_of(p): return p.get(ONE_M, Fraction(0))

def mono_mul(m1, m2, ctx):
    """product of two monomials -> poly (usually one monomial)"""
    if not m1: return {m2: Fraction(1)}
    if not m2: return {m1: Fraction(1)}
    d = dict(m1); dirty = []
    for a, e in m2:
        if a in d:
            ne = npoly_T(padd(norm(d[a], ctx), norm(e, ctx))) if not (isnum(d[a]) and isnum(e)) else num(val(d[a]) + val(e))
            if ne is ZERO: del d[a]
            else: d[a] = ne; dirty.append(a)
        else: d[a] = e
    return fix(d, dirty, ctx)

def sorted_mono(d):
    return tuple(sorted(d.items(), key=lambda x: key(x[0])))

def fix(d, dirty, ctx):
    coef = Fraction(1); extra = None
    for a in dirty:
        if a not in d: continue
        e = d[a]
        if a.op == "ind" and isnum(e):
            d[a] = ONE
        elif a.op == "fn_abs" and isnum(e) and val(e).denominator == 1 and abs(val(e)) >= 2:
            k = int(val(e)); ev = (abs(k) // 2) * 2 * (1 if k > 0 else -1)
            if k - ev: d[a] = num(k - ev)
            else: del d[a]
            q = ppow(norm(a.a[0], ctx), num(ev), ctx)
            extra = q if extra is None else pmul(extra, q, ctx)
        elif a.op == "fn_cos" and isnum(e) and val(e).denominator == 1 and val(e) >= 2 and False:
            pass
        elif a.op == "fn_sin" and isnum(e) and val(e).denominator == 1 and val(e) >= 2:
            k = int(val(e))
            if k % 2: d[a] = ONE
            else: del d[a]
            c2 = {ONE_M: Fraction(1), ((mk("fn_cos", a.a, "R"), num(2)),): Fraction(-1)}
            q = ppow(c2, num(k // 2), ctx)
            extra = q if extra is None else pmul(extra, q, ctx)
        elif a.op == "fn_sign" and isnum(e) and val(e).denominator == 1 and val(e) >= 2:
            # sign^2 = 1 - [x = 0]; away from zero it is 1
            k = int(val(e))
            if k % 2: d[a] = ONE
            else:
                del d[a]
                q = padd(pconst(1), cond_poly(eq(a.a[0], ZERO), ctx), -1)
                extra = q if extra is None else pmul(extra, q, ctx)
        elif a.op == "num" and isnum(e):
            # numeric base with fractional exponent: extract integer part
            k = val(e).numerator // val(e).denominator
            if k:
                coef *= val(a) ** k
                r = val(e) - k
                if r == 0: del d[a]
                else: d[a] = num(r)
        elif a.op == "+" and isnum(e) and val(e).denominator == 1 and 0 < val(e) <= 4:
            k = d.pop(a)
            q = ppow(norm(a, ctx), k, ctx)
            extra = q if extra is None else pmul(extra, q, ctx)
    # implications between indicators with the same linear part
    inds = [a for a in d if a.op == "ind"]
    if len(inds) > 1:
        r = prune_inds(d, inds, ctx)
        if r is None: return {}
    p = {sorted_mono(d): coef}
    if extra is not None: p = pmul(p, extra, ctx)
    return p

_lin = {}
def ind_lin(a):
    """ind atom -> (kind, nonconstant part key, const)"""
    r = _lin.get(a)
    if r is None:
        c = a.a[0]
        if c.op in ("le", "lt") and c.a[1] is ZERO:
            P = norm(c.a[0], TOP)
            k = P.get(ONE_M, Fraction(0))
            q = frozenset((m, v) for m, v in P.items() if m != ONE_M)
            r = (c.op, q, k)
        else: r = (c.op, None, None)
        _lin[a] = r
    return r

def prune_inds(d, inds, ctx):
    """drop implied inequality indicators; None if contradictory"""
    for i, a in enumerate(inds):
        if a not in d: continue
        ka, qa, ca = ind_lin(a)
        for b in inds[i + 1:]:
            if b not in d or a not in d: continue
            kb, qb, cb = ind_lin(b)
            if qa is not None and qa == qb:
                # q + c <= 0 : larger c is stronger; strict stronger at equal c
                if (ca, ka == "lt") >= (cb, kb == "lt"): d.pop(b)
                else: d.pop(a)
    # contradictions / implications through the solver for pairs with opposite sign are left to case split
    return d

def pmul(p, q, ctx):
    if len(p) == 1 and ONE_M in p: return pscale(q, p[ONE_M])
    if len(q) == 1 and ONE_M in q: return pscale(p, q[ONE_M])
    r = {}
    if len(p) * len(q) > 4 * MAXMONO: raise Budget("product size")
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            for m, c in mono_mul(m1, m2, ctx).items():
                x = r.get(m, 0) + c * c1 * c2
                if x == 0: r.pop(m, None)
                else: r[m] = x
    if len(r) > MAXMONO: raise Budget("poly size")
    return r

def rational_pow(c, e):
    """Fraction c>0, Fraction e -> (coef, poly-mono dict) exact"""
    out = {}; coef = Fraction(1)
    def factor(n):
        f = {}; k = 2
        while k * k <= n and k < 10000:
            while n % k == 0: f[k] = f.get(k, 0) + 1; n //= k
            k += 1
        if n > 1: f[n] = f.get(n, 0) + 1
        return f
    fs = {}
    for k, v in factor(c.numerator).items(): fs[k] = fs.get(k, 0) + v
    for k, v in factor(c.denominator).items(): fs[k] = fs.get(k, 0) - v
    for k, v in fs.items():
        x = v * e
        i = x.numerator // x.denominator
        coef *= Fraction(k) ** i
        if x - i != 0: out[num(k)] = num(x - i)
    return coef, out

def ppow(p, e, ctx):
    """p ** e; e canonical T"""
    if e is ZERO: return pconst(1)
    if e is ONE: return p
    ei = isnum(e) and val(e).denominator == 1
    if ei and len(p) == 1:
        (m, c), = p.items()
        if any(a.op == "fn_cosh" for a, x in m):
            # cosh^(-2k) = (1 - tanh^2)^k
            r = pconst(c ** int(val(e))) if c != 0 else {}
            for a, x in m:
                y = norm_T(mul(x, e), ctx)
                if a.op == "fn_cosh" and isnum(y) and val(y) < 0 and val(y).denominator == 1 and val(y) % 2 == 0:
                    r = pmul(r, ppow(norm(sub(1, power(mk("fn_tanh", a.a, "R"), 2)), ctx), num(-val(y) / 2), ctx), ctx)
                else: r = pmul(r, patom(a, y), ctx)
            return r
    if not p:
        if isnum(e) and val(e) > 0: return {}
        return patom(ZERO, e)
    if ei and val(e) > 0:
        k = int(val(e))
        if len(p) == 1 or (k <= 4 and len(p) ** k <= 400) :
            if len(p) == 1:
                (m, c), = p.items()
                if not m: return pconst(c ** k)
                d = {}; dirty = []
                for a, x in m:
                    d[a] = norm_T(mul(x, e), ctx); dirty.append(a)
                return pscale(fix(d, dirty, ctx), c ** k)
            r = p
            for _ in range(k - 1): r = pmul(r, p, ctx)
            return r
    if len(p) == 1:
        (m, c), = p.items()
        if ei:
            d = {}; dirty = []
            for a, x in m:
                d[a] = norm_T(mul(x, e), ctx); dirty.append(a)
            return pscale(fix(d, dirty, ctx), c ** int(val(e)))
        if c > 0:
            good = {}; bad = {}
            for a, x in m:
                (good if (ctx.nonneg(a)) else bad)[a] = x
            # even powers of unknown sign: (a^2k)^e = |a|^(2ke)
            for a in list(bad):
                x = bad[a]
                if isnum(x) and val(x).denominator == 1 and val(x) % 2 == 0:
                    del bad[a]
                    good[mk("fn_abs", (a,), a.s)] = x
            if isnum(e): cc, extra = rational_pow(c, val(e))
            else:
                cc, extra = Fraction(1), ({num(c): e} if c != 1 else {})
            d = {}; dirty = []
            for a, x in good.items(): d[a] = norm_T(mul(x, e), ctx); dirty.append(a)
            for a, x in extra.items():
                d[a] = x if a not in d else norm_T(add(x, d[a]), ctx)
                dirty.append(a)
            r = pscale(fix(d, dirty, ctx), cc)
            if bad:
                base = npoly_T({sorted_mono(bad): Fraction(1)})
                if len(bad) == 1 and list(bad.values())[0] is ONE: base = list(bad)[0]
                r = pmul(r, patom(base, e), ctx)
            return r
        return patom(npoly_T(p), e)
    # multi-term: extract content
    g = None
    for c in p.values():
        g = abs(c) if g is None else _fgcd(g, abs(c))
    common = None
    for m in p:
        dm = {a: x for a, x in m if isnum(x)}
        if common is None: common = dict(dm)
        else:
            for a in list(common):
                if a in dm and (val(dm[a]) > 0) == (val(common[a]) > 0):
                    common[a] = num(min(val(dm[a]), val(common[a])) if val(dm[a]) > 0 else max(val(dm[a]), val(common[a])))
                else: del common[a]
        if not common: break
    common = common or {}
    # factors shared through negative exponents (e.g. 1/a + 1/(ab)): put over common denominator
    if ei:
        for m in p:
            for a, x in m:
                if isnum(x) and val(x) < 0:
                    cur = common.get(a)
                    if cur is None or val(cur) > val(x): common[a] = x
        common = {a: x for a, x in common.items() if a.op != "ind"}
    else:
        common = {a: x for a, x in common.items() if a.op != "ind" and ctx.pos(a)}
    sgn = 1
    lead = sorted(p, key=lambda m: [(key(a), key(x)) for a, x in m])
    if ei:
        nz = [m for m in lead if m] or lead
        if p[nz[0]] < 0: sgn = -1
    inv = {a: num(-val(x)) for a, x in common.items()}
    q = pscale(p, Fraction(1) / (g * sgn))
    if inv: q = pmul(q, fix(dict(inv), [], ctx), ctx)
    if len(q) == 1 or is_const(q):
        r = ppow(q, e, ctx)
    else:
        base = npoly_T(q)
        r = patom(base, e)
        if ei and 0 < val(e) <= 4 and len(q) ** int(val(e)) <= 400:
            r = q
            for _ in range(int(val(e)) - 1): r = pmul(r, q, ctx)
    cp = {ONE_M: Fraction(1)}
    if common:
        cp = ppow({sorted_mono(common): Fraction(1)}, e, ctx)
    c = g * sgn
    if ei: cc = pconst(c ** int(val(e)))
    elif isnum(e):
        k, extra = rational_pow(g, val(e)); cc = {sorted_mono(extra): k}
    else: cc = patom(num(g), e) if g != 1 else pconst(1)
    return pmul(pmul(cc, cp, ctx), r, ctx)

from math import gcd
def _fgcd(a, b):
    return Fraction(gcd(a.numerator * b.denominator, b.numerator * a.denominator), a.denominator * b.denominator)

def mono_T(m, c=1):
    xs = [] if c == 1 else [num(c)]
    for a, e in m:
        xs.append(power(a, e) if e is not ONE else a)
    return mul(*xs) if xs else num(c)
_p2t = {}
def npoly_T(p):
    k = frozenset(p.items())
    r = _p2t.get(k)
    if r is None:
        items = sorted(((mono_T(m, c)) for m, c in p.items()), key=key)
        r = _p2t[k] = add(*items) if items else ZERO
    return r

# ------------------------------------------------------------------ normalisation
def norm_T(t, ctx=TOP):
    if t.op in ("num", "true", "false"): return t
    if t.s == "B": return norm_cond(t, ctx)
    if t.s == "U": return norm_generic(t, ctx)
    if t.s == "L":
        if t.op != "lam": return norm_generic(t, ctx)
        (v, n), = t.a[0]
        n = norm_T(n, ctx)
        u = var("%s!s%d" % (v.a[0].split("!")[0], next(_sumctr)), "I")
        b = norm_T(subst(t.a[1], {v: ZERO if n is ONE else u}), ctx.extend(le(ZERO, u), lt(u, n)))
        w = var("b%d_0" % (1 + max(height(b), height(n))), "I")
        return mk("lam", (((w, n),), subst(b, {u: w})), "L")
    return npoly_T(norm(t, ctx))

def norm_generic(t, ctx):
    if t.op in ("var", "num"): return t
    if t.op == "ite":
        c = norm_cond(t.a[0], ctx)
        if c is TRUE: return norm_T(t.a[1], ctx)
        if c is FALSE: return norm_T(t.a[2], ctx)
        return ite(c, norm_T(t.a[1], ctx), norm_T(t.a[2], ctx))
    return rebuild(t, [norm_T(c, ctx) for c in children(t)])

def norm(t, ctx=TOP):
    op = t.op
    if op == "num": return pconst(t.a[0])
    r = ctx.memo.get(t)
    if r is not None: return r
    r = _norm(t, ctx)
    ctx.memo[t] = r
    return r

def _norm(t, ctx):
    op = t.op
    check_deadline()
    if op == "var": return patom(t)
    if op == "+":
        r = {}
        for x in t.a:
            for m, v in norm(x, ctx).items():
                y = r.get(m, 0) + v
                if y == 0: r.pop(m, None)
                else: r[m] = y
        if len(r) > MAXMONO: raise Budget("poly size")
        return r
    if op == "*":
        r = None
        for x in t.a:
            q = norm(x, ctx)
            if not q: return {}
            r = q if r is None else pmul(r, q, ctx)
        return r
    if op == "pow":
        b, e = t.a
        e = norm_T(e, ctx)
        if b is EULER: return norm_exp(e, ctx)
        return ppow(norm(b, ctx), e, ctx)
    if op == "app":
        t2 = mk("app", (t.a[0],) + tuple(norm_T(x, ctx) for x in t.a[1:]), t.s)
        f = APP_RULES.get(t.a[0])
        if f is not None:
            r = f(t2, ctx)
            if r is not None: return norm(r, ctx)
        return patom(t2)
    if op == "ite":
        c = norm_cond(t.a[0], ctx)
        if c is TRUE: return norm(t.a[1], ctx)
        if c is FALSE: return norm(t.a[2], ctx)
        k = t.a[0]
        if k.op in ("le", "lt") and {k.a[0], k.a[1]} == {t.a[1], t.a[2]}:       # min/max with ties: at a tie both branches are equal
            if norm_cond(mk("le", (k.a[1], k.a[0]), "B"), ctx) is TRUE: return norm(t.a[2], ctx)
            if norm_cond(mk("le", (k.a[0], k.a[1]), "B"), ctx) is TRUE: return norm(t.a[1], ctx)
        a = norm(t.a[1], ctx.extend(c)); b = norm(t.a[2], ctx.extend(not_(c)))
        if a == b: return a
        ci = cond_poly(c, ctx)
        return padd(b, pmul(ci, padd(a, b, -1), ctx))
    if op == "ind":
        return cond_poly(norm_cond(t.a[0], ctx), ctx)
    if op == "div": return norm_div(t, ctx)
    if op == "sum":
        bs, body = t.a
        return norm_sum(bs, body, ctx)
    if op == "prod":
        (v, n), = t.a[0]
        return norm_prod(v, n, t.a[1], ctx)
    if op in BIND:
        return norm_binder(t, ctx)
    if op.startswith("fn_"): return norm_fn(t, ctx)
    raise NotImplementedError(op)

APP_RULES = {}

def norm_exp(e, ctx):
    p = norm(e, ctx)
    # exp(k*log a) = a^k
    r = pconst(1); rest = {}
    for m, c in p.items():
        logs = [a for a, x in m if a.op == "fn_log" and x is ONE]
        if len(logs) == 1:
            d = dict(m); del d[logs[0]]
            k = npoly_T({sorted_mono(d): c})
            r = pmul(r, ppow(norm(logs[0].a[0], ctx), k, ctx), ctx)
        else: rest[m] = c
    if not rest: return r
    return pmul(r, patom(EULER, npoly_T(rest)), ctx)

def leading_neg(p):
    nz = sorted((m for m in p if m), key=lambda m: [(key(a), key(x)) for a, x in m])
    return bool(nz) and p[nz[0]] < 0

def norm_fn(t, ctx):
    name = t.op[3:]
    args = [norm_T(x, ctx) for x in t.a]
    a = args[0]; p = norm(a, ctx)
    if name in ("sin", "tan", "tanh", "sign", "arctan", "erf") and leading_neg(p):
        return pscale(norm_fn(mk(t.op, (npoly_T(pscale(p, -1)),), "R"), ctx), -1)
    if name in ("cos", "abs", "phi") and leading_neg(p):
        return norm_fn(mk(t.op, (npoly_T(pscale(p, -1)),), t.s), ctx)
    if name == "Phi" and leading_neg(p):
        return padd(pconst(1), norm_fn(mk(t.op, (npoly_T(pscale(p, -1)),), "R"), ctx), -1)
    if is_const(p):
        c = const_of(p)
        if name == "abs": return pconst(abs(c))
        if name == "sign": return pconst((c > 0) - (c < 0))
        if c == 0 and name in ("sin", "tan", "tanh", "arctan", "erf"): return {}
        if c == 0 and name == "cos": return pconst(1)
        if c == 1 and name in ("log", "log10"): return {}
        if name == "floor": return pconst(c.numerator // c.denominator)
        if name == "trunc": return pconst(int(c))
    if name in ("floor", "trunc"):
        if is_intpoly(p): return p
        lcd = 1
        for c in p.values(): lcd = lcd * c.denominator // __import__("math").gcd(lcd, c.denominator)
        if lcd != 1 and is_intpoly(pscale(p, lcd)) and (name == "floor" or ctx.nonneg(a)):
            return norm(fdiv(npoly_T(pscale(p, lcd)), num(lcd)), ctx)
        den = {}
        for m in p:
            for b, x in m:
                if isnum(x) and val(x).denominator == 1 and val(x) < 0 and b.s == "I": den[b] = max(den.get(b, 0), -int(val(x)))
        if den and all(ctx.pos(b) for b in den):
            q = pscale(p, lcd)
            for b, k in den.items(): q = pmul(q, {((b, num(k)),): Fraction(1)}, ctx)
            if is_intpoly(q) and (name == "floor" or ctx.nonneg(a)):
                return norm(fdiv(npoly_T(q), mul(lcd, *[power(b, k) for b, k in den.items()])), ctx)
    if name == "abs":
        if ctx.nonneg(a): return p
        if len(p) == 1:
            (m, c), = p.items()
            # |c * a1 * a2 ..| = |c| |a1| |a2| ..
            if len(m) > 1 or c != 1 or (m and m[0][1] is not ONE):
                r = pconst(abs(c))
                for b, x in m:
                    q = norm_fn(mk("fn_abs", (b,), b.s), ctx)
                    r = pmul(r, ppow(q, x, ctx), ctx)
                return r
        else:
            g = None
            for c in p.values(): g = abs(c) if g is None else _fgcd(g, abs(c))
            if g != 1: return pscale(norm_fn(mk("fn_abs", (npoly_T(pscale(p, 1 / g)),), t.s), ctx), g)
    if name == "sign":
        if ctx.pos(a): return pconst(1)
        if len(p) == 1:
            (m, c), = p.items()
            if len(m) > 1 or c != 1:
                r = pconst((c > 0) - (c < 0))
                for b, x in m:
                    if isnum(x) and val(x).denominator == 1:
                        q = norm_fn(mk("fn_sign", (b,), "R"), ctx)
                        r = pmul(r, ppow(q, num(abs(val(x))), ctx), ctx)
                    else: r = pmul(r, patom(mk("fn_sign", (power(b, x),), "R")), ctx)
                return r
        else:
            g = None
            for c in p.values(): g = abs(c) if g is None else _fgcd(g, abs(c))
            if g != 1: return norm_fn(mk("fn_sign", (npoly_T(pscale(p, 1 / g)),), "R"), ctx)
    if name == "log10" and not is_const(p):
        return pmul(norm_fn(mk("fn_log", (a,), "R"), ctx), patom(mk("fn_log", (num(10),), "R"), num(-1)), ctx)
    if name == "log":
        if len(p) == 1:
            (m, c), = p.items()
            r = {}; done = False
            keep = {}
            for b, x in m:
                if b is EULER: r = padd(r, norm(x, ctx)); done = True
                elif b.op == "prod" and prod_positive(b, ctx):
                    (v, n), = b.a[0]; w = fresh("k"); r = padd(r, pmul(norm(x, ctx), norm(Sum(w, n, fn("log", subst(b.a[1], {v: w}))), ctx), ctx)); done = True
                elif ctx.pos(b):
                    if len(m) > 1 or x is not ONE or c != 1:
                        r = padd(r, pmul(norm(x, ctx), norm_fn(mk("fn_log", (b,), "R"), ctx), ctx)); done = True
                    else: keep[b] = x
                else: keep[b] = x
            if c > 0 and c != 1 and m:
                r = padd(r, patom(mk("fn_log", (num(c),), "R"))); done = True; c = Fraction(1)
            if done and (keep or c != 1):
                r = padd(r, patom(mk("fn_log", (npoly_T({sorted_mono(keep): c}),), "R")))
            if done: return r
    return patom(mk(t.op, tuple(args), t.s))

def prod_positive(b, ctx):
    (v, n), = b.a[0]; w = fresh("k"); cx = ctx.extend(le(ZERO, w), lt(w, n)); q = norm(subst(b.a[1], {v: w}), cx)
    return len(q) == 1 and all(c > 0 and all(cx.pos(x) for x, e in m) for m, c in q.items())
def is_intpoly(p):
    for m, c in p.items():
        if c.denominator != 1: return False
        for a, e in m:
            if a.s != "I" or not (isnum(e) and val(e) > 0 and val(e).denominator == 1): return False
    return True

def norm_cond(c, ctx):
    if c.op in ("true", "false"): return c
    k = ("c", c)
    r = ctx.memo.get(k)
    if r is None:
        r = _norm_cond(c, ctx); ctx.memo[k] = r
    return r
def _norm_cond(c, ctx):
    op = c.op
    if op == "not": return not_(norm_cond(c.a[0], ctx))
    if op == "and":
        out = TRUE; cx = ctx
        for x in c.a:
            n = norm_cond(x, cx)
            if n is FALSE: return FALSE
            out = and_(out, n); cx = cx.extend(n)
        return out
    if op == "or":
        out = FALSE; cx = ctx
        for x in c.a:
            n = norm_cond(x, cx)
            if n is TRUE: return TRUE
            out = or_(out, n); cx = cx.extend(not_(n))
        return out
    if op in ("eq", "le", "lt"):
        a, b = c.a
        if a.s in ("U",) or b.s == "U":
            r = eq(norm_T(a, ctx), norm_T(b, ctx))
            if r.op != "eq": return r
            if ctx.has(r): return TRUE
            if ctx.has(not_(r)): return FALSE
            if ctx.entails(r): return TRUE
            if ctx.entails(not_(r)): return FALSE
            return r
        P = padd(norm(a, ctx), norm(b, ctx), -1)
        return decide(op, P, ctx)
    if op in ("forall", "exists"):
        (v, n), = c.a[0]
        n2 = norm_T(n, ctx)
        u = fresh("q"); b = subst(c.a[1], {v: u})
        b2 = norm_cond(b, ctx.extend(le(ZERO, u), lt(u, n2)))
        if op == "forall" and b2 is TRUE: return TRUE
        if op == "exists" and b2 is FALSE: return FALSE
        w = var("q!%d" % quant_height(b2), "I")
        r = mk(op, (((w, n2),), subst(b2, {u: w})), "B")
        if ctx.has(r): return TRUE
        if ctx.has(not_(r)): return FALSE
        return r
    if op in ("var", "app"):
        r = c if op == "var" else mk("app", (c.a[0],) + tuple(norm_T(x, ctx) for x in c.a[1:]), "B")
        if ctx.has(r): return TRUE
        if ctx.has(not_(r)): return FALSE
        if ctx.facts or ctx.parent:
            if ctx.entails(r): return TRUE
            if ctx.entails(not_(r)): return FALSE
        return r
    return c

def quant_height(t, memo=None):
    """nesting depth of quantifiers: names bound variables canonically (inner ones have smaller numbers)"""
    if memo is None: memo = {}
    r = memo.get(t)
    if r is None:
        r = 0
        for x in t.a:
            for y in (x if isinstance(x, tuple) else (x,)):
                for z in (y if isinstance(y, tuple) else (y,)):
                    if isinstance(z, T): r = max(r, quant_height(z, memo))
        r = memo[t] = r + (t.op in ("forall", "exists"))
    return r
def c_lin(c): return c.op in ("eq", "le", "lt") and c.a[0].s == "I" or c.op == "not" and c_lin(c.a[0])

def ext_bound(op, P, ctx):
    """max{v<n} f <= c  when f(v) <= c for every v  (dually min); only used to decide TRUE"""
    for m, c in P.items():
        if len(m) == 1 and m[0][1] is ONE and m[0][0].op in ("max*", "min*"):
            a = m[0][0]
            if (a.op == "max*") != (c > 0): continue
            (v, n), = a.a[0]
            u = fresh("x")
            Q = padd(P, {m: c}, -1)
            goal = mk(op, (add(npoly_T(Q), mul(c, subst(a.a[1], {v: u}))), ZERO), "B")
            cx = ctx.extend(le(ZERO, u), lt(u, n))
            if norm_cond(goal, cx) is TRUE and ctx.entails(lt(ZERO, n)): return True
    return False

def decide(op, P, ctx):
    if op != "eq" and any(a.op in ("max*", "min*") for m in P for a, _ in m):
        if ext_bound(op, P, ctx): return TRUE
        if ext_bound("le" if op == "lt" else "lt", pscale(P, -1), ctx): return FALSE
    if len(P) == 1 and any(a.op == "sum" for a, _ in next(iter(P))):
        (m, c), = P.items()
        if all(ctx.pos(a) for a, e in m): return TRUE if c < 0 and op != "eq" else FALSE
    if is_const(P):
        c = const_of(P)
        return TRUE if ((op == "eq" and c == 0) or (op == "le" and c <= 0) or (op == "lt" and c < 0)) else FALSE
    for x in {a for m in P for a, _ in m if a.op == "ind"}:      # comparison of an indicator: case split when one case is decided
        c = x.a[0]
        if not c_lin(c): continue
        cy, cn = ctx.extend(c), ctx.extend(not_(c))
        def case(v, cx):
            Q = subst_ind(P, x, v, cx)
            return decide(op, norm(Q, cx), cx)
        A_, B_ = case(1, cy), case(0, cn)
        if A_ is B_: return A_
        if A_ is TRUE: return norm_cond(or_(c, B_), ctx)
        if A_ is FALSE: return norm_cond(and_(not_(c), B_), ctx)
        if B_ is TRUE: return norm_cond(or_(not_(c), A_), ctx)
        if B_ is FALSE: return norm_cond(and_(c, A_), ctx)
    # content
    g = None
    for c in P.values(): g = abs(c) if g is None else _fgcd(g, abs(c))
    P = pscale(P, 1 / g)
    isint = all(all(a.s == "I" and isnum(e) and val(e).denominator == 1 and val(e) > 0 for a, e in m) for m in P)
    if op == "eq":
        if leading_neg(P): P = pscale(P, -1)
        if len(P) == 1 and len(next(iter(P))) == 1:
            (x, e), = next(iter(P))
            if isnum(e) and val(e) > 0 and val(e) != 1:      # a positive power vanishes with its base
                r = decide("eq", norm(x, ctx), ctx)
                if r is TRUE or r is FALSE: return r
        if isint:
            g2 = 0
            for m, c in P.items():
                if m: g2 = gcd(g2, c.numerator)
            if ONE_M in P and P[ONE_M].numerator % g2: return FALSE
        c = mk("eq", (npoly_T(P), ZERO), "B")
        if len(P) == 1:
            # product = 0: if all factors but one nonzero
            pass
        if ctx.has(c): return TRUE
        if ctx.has(not_(c)): return FALSE
        if isint or relevant(P, ctx):
            if ctx.entails(not_(c)): return FALSE
            if ctx.entails(c): return TRUE
        elif nonzero_quick(P, ctx): return FALSE
        return c
    if isint and op == "lt":
        P = padd(P, pconst(1)); op = "le"
    if isint:
        g2 = 0
        for m, c in P.items():
            if m: g2 = gcd(g2, c.numerator)
        if g2 > 1:
            k = P.get(ONE_M, Fraction(0))
            # g2*q + k <= 0  <=>  q + ceil(k/g2) <= 0
            Q = {m: c / g2 for m, c in P.items() if m}
            P = padd(Q, pconst(-((-k.numerator) // g2)))
            if is_const(P): return decide(op, P, ctx)
    flip = leading_neg(P)
    if flip:
        # P <= 0  <=> not (-P < 0);  canonical atom has positive leading coefficient
        Q = pscale(P, -1)
        nop = "lt" if op == "le" else "le"
        if isint: Q = padd(Q, pconst(1)); nop = "le"
        c = not_(mk(nop, (npoly_T(Q), ZERO), "B"))
    else:
        c = mk(op, (npoly_T(P), ZERO), "B")
    if ctx.has(c): return TRUE
    if ctx.has(not_(c)): return FALSE
    if isint or relevant(P, ctx):
        if ctx.entails(c): return TRUE
        if ctx.entails(not_(c)): return FALSE
    if not isint:
        t = npoly_T(P)
        if op == "le":
            if ctx.nonneg(npoly_T(pscale(P, -1))): return TRUE
            if ctx.pos(t): return FALSE
        else:
            if ctx.pos(npoly_T(pscale(P, -1))): return TRUE
            if ctx.nonneg(t): return FALSE
    return c

def nonzero_quick(P, ctx):
    t = npoly_T(P)
    return ctx.pos(t) or ctx.pos(npoly_T(pscale(P, -1)))

def heads(t, acc):
    if t.op == "app": acc.add(t.a[0]); return acc
    if t.op == "var": acc.add(t.a[0]); return acc
    for c in children(t): heads(c, acc)
    return acc
_heads = {}
def fact_heads(ctx):
    h = _heads.get(ctx)
    if h is None:
        h = set()
        for f in ctx.all_facts(): heads(f, h)
        _heads[ctx] = h
    return h
def relevant(P, ctx):
    """worth asking the solver about a real condition: shares a symbol with the facts"""
    h = set()
    for m in P:
        for a, _ in m:
            if a.op in ("sum", "prod"): return False
            heads(a, h)
    return bool(h & fact_heads(ctx)) or any(x in AXIOM for x in h)

def cond_poly(c, ctx):
    """indicator polynomial of a normalised condition"""
    if c is TRUE: return pconst(1)
    if c is FALSE: return {}
    if c.op == "not": return padd(pconst(1), cond_poly(c.a[0], ctx), -1)
    if c.op == "and":
        r = pconst(1)
        for x in c.a: r = pmul(r, cond_poly(x, ctx), ctx)
        return r
    if c.op == "or":
        r = pconst(1)
        for x in c.a: r = pmul(r, padd(pconst(1), cond_poly(x, ctx), -1), ctx)
        return padd(pconst(1), r, -1)
    return patom(mk("ind", (c,), "I"))

def subst_ind(P, x, v, ctx):
    """polynomial P with indicator atom x replaced by the value v -> term"""
    out = {}
    for m, c in P.items():
        d = dict(m)
        if x in d:
            if not v: continue
            del d[x]
        k = sorted_mono(d); out[k] = out.get(k, 0) + c
    return norm_T(npoly_T({m: c for m, c in out.items() if c}), ctx)

def reorient(t, memo=None):
    """restore the canonical sign of equalities after binder renaming"""
    if memo is None: memo = {}
    r = memo.get(t)
    if r is not None: return r
    ch = children(t)
    if not ch: r = t
    else:
        n = [reorient(x, memo) for x in ch]
        u = t if all(a is b for a, b in zip(n, ch)) else rebuild(t, n)
        if u.op == "eq":
            a, b = u.a
            if isnum(a): a, b = b, a
            if isnum(b) and a.op == "+" and a.s != "U":
                P = norm(a, TOP)
                if leading_neg(P): u = eq(npoly_T(pscale(P, -1)), num(-val(b)))
        elif u.op == "+": u = add(*sorted(u.a, key=key))
        elif u.op == "*": u = mul(*sorted(u.a, key=lambda x: key(x.a[0]) if x.op == "pow" else key(x)))
        r = u
    memo[t] = r
    return r

def divisible(P, m):
    """integer polynomial P == 0 (mod m) for all integer values of its atoms (decided over all residues)"""
    ats = sorted({a for mm in P for a, _ in mm}, key=key)
    if m > 6 or len(ats) > 4 or m ** len(ats) > 300: return False
    for mm in P:
        for a, e in mm:
            if a.s != "I" or not isnum(e) or val(e).denominator != 1 or val(e) < 0: return False
    import itertools
    for vals in itertools.product(range(m), repeat=len(ats)):
        env = dict(zip(ats, vals)); t = 0
        for mm, c in P.items():
            x = c
            for a, e in mm: x *= env[a] ** int(val(e))
            t += x
        if t % m: return False
    return True

def norm_div(t, ctx):
    a = norm(t.a[0], ctx); b = norm_T(t.a[1], ctx)
    if b is ONE and is_intpoly(a): return a
    if isnum(b) and is_const(a) and val(b) != 0: 
        return pconst(const_of(a) // val(b))
    if not is_intpoly(a) or b.s != "I":
        return patom(mk("div", (npoly_T(a), b), "I"))
    # case split on an indicator inside the dividend
    for x in sorted({x for m in a for x, _ in m if x.op == "ind"}, key=key):
        c = x.a[0]
        cy, cn = ctx.extend(c), ctx.extend(not_(c))
        A_ = norm_div(mk("div", (subst_ind(a, x, 1, cy), b), "I"), cy)
        B_ = norm_div(mk("div", (subst_ind(a, x, 0, cn), b), "I"), cn)
        if A_ == B_: return A_
        d = npoly_T(padd(A_, B_, -1))
        if cn.entails(eq(d, ZERO)): return A_
        if cy.entails(eq(d, ZERO)): return B_
        return padd(B_, pmul(patom(x), padd(A_, B_, -1), ctx))
    pb = norm(b, ctx)
    quo = {}; rem = dict(a)
    if len(pb) == 1:
        (mb, cb), = pb.items()
        db = dict(mb)
        for m, c in list(a.items()):
            dm = dict(m)
            if all(x in dm and isnum(dm[x]) and isnum(e) and val(dm[x]) >= val(e) for x, e in db.items()):
                q = c / cb
                if q.denominator == 1 or True:
                    iq = q.numerator // q.denominator
                    if not iq: continue
                    if not m and db: continue
                    for x, e in db.items():
                        y = num(val(dm[x]) - val(e))
                        if y is ZERO: del dm[x]
                        else: dm[x] = y
                    quo = padd(quo, {sorted_mono(dm): Fraction(iq)})
                    rem = padd(rem, {m: Fraction(1)}, -iq * cb)
    elif not is_const(pb):
        # try exact multiples k*b for small k and variable multiples
        for v in sorted({x for m in a for x, _ in m if x.op in ("var", "app", "div")}, key=key):
            q = pmul(patom(v), pb, ctx)
            cp = sorted_mono({v: ONE})      # the monomial of the constant part of b need not match
            if all(m in rem for m in q if m != cp):
                ks = [rem[m] / q[m] for m in q if m != cp]
                if all(k == ks[0] and k.denominator == 1 for k in ks):
                    quo = padd(quo, patom(v), ks[0]); rem = padd(rem, q, -ks[0])
    if not rem: return quo
    if isnum(b) and val(b) > 1 and divisible(rem, int(val(b))): return padd(quo, rem, Fraction(1) / val(b))
    rt = npoly_T(rem)
    if ctx.entails(and_(le(ZERO, rt), lt(rt, b))): return quo
    for k in (-1, 1):
        rk = npoly_T(padd(rem, pb, -k))
        if ctx.entails(and_(le(ZERO, rk), lt(rk, b))): return padd(quo, pconst(k))
    if isnum(b) and ONE_M in rem and len(rem) > 1:
        q0p = {m: c for m, c in rem.items() if m}
        q0 = norm_div(mk("div", (npoly_T(q0p), b), "I"), ctx)
        for k in (0, -1, 1):
            q1 = padd(q0, pconst(k))
            rk = npoly_T(padd(rem, pmul(q1, pb, ctx), -1))
            if ctx.entails(and_(le(ZERO, rk), lt(rk, b))): return padd(quo, q1)
    if ctx.entails(and_(le(ZERO, add(rt, b)), lt(rt, b))):     # -b <= r < b: the quotient is -1 below zero
        return padd(quo, cond_poly(norm_cond(lt(rt, ZERO), ctx), ctx), -1)
    # nested division
    if len(rem) == 1:
        (m, c), = rem.items()
        if c == 1 and len(m) == 1 and m[0][1] is ONE and m[0][0].op == "div" and ctx.pos(b) and ctx.pos(m[0][0].a[1]):
            inner = m[0][0]
            return padd(quo, norm_div(mk("div", (inner.a[0], norm_T(mul(inner.a[1], b), ctx)), "I"), ctx))
    return padd(quo, patom(mk("div", (rt, b), "I")))

# ------------------------------------------------------------------ sums
def solve_for(P, v):
    """integer-linear polynomial P == 0 solved for v: returns poly or None"""
    cv = None; rest = {}
    for m, c in P.items():
        d = dict(m)
        if v in d:
            if len(m) == 1 and d[v] is ONE: cv = c; continue
            return None
        if any(v in fv(a) or v in fv(e) for a, e in m): return None
        rest[m] = c
    if cv is None or abs(cv) != 1: return None
    return pscale(rest, -1 / cv)

def solve_scaled(P, v):
    """c*v = R with integer c > 1 and integer polynomial R, from P == 0"""
    cv = None; rest = {}
    for m, c in P.items():
        d = dict(m)
        if v in d:
            if len(m) == 1 and d[v] is ONE: cv = c; continue
            return None
        if any(v in fv(a) or v in fv(e) for a, e in m): return None
        rest[m] = c
    if cv is None or abs(cv) <= 1 or cv.denominator != 1 or not is_intpoly(rest): return None
    return abs(cv), pscale(rest, -1 if cv > 0 else 1)

def mono_subst(m, s, ctx):
    """substitute variables (dict v->T) in a monomial and renormalise"""
    return norm(mul(*[power(subst(a, s), subst(e, s)) if e is not ONE else subst(a, s) for a, e in m]) if m else ONE, ctx)

_sumctr = itertools.count()
def norm_sum(bs, body, ctx):
    bs = list(bs)
    if len(bs) > 1:
        # canonical multi-sum: re-nest
        (v, n) = bs[0]
        inner = mk("sum", (tuple(bs[1:]), body), body.s)
        return norm_sum([(v, n)], inner, ctx)
    (v, n), = bs
    n = norm_T(n, ctx)
    if isnum(n) and val(n) <= 12:
        r = {}
        for i in range(int(max(0, val(n)))):
            r = padd(r, norm(subst(body, {v: num(i)}), ctx))
        return r
    u = var("%s!s%d" % (v.a[0].split("!")[0], next(_sumctr)), "I")
    cx = ctx.extend(le(ZERO, u), lt(u, n))
    P = norm(subst(body, {v: u}), cx)
    return sum_poly(u, n, P, ctx, cx)

def sum_poly(u, n, P, ctx, cx):
    out = {}
    for m, c in P.items():
        out = padd(out, sum_mono(u, n, m, ctx, cx), c)
        if len(out) > MAXMONO: raise Budget("sum size")
    return out

def depends(a, e, u): return u in fv(a) or u in fv(e)

def collapse_eqs(m, ctx, prefer=()):
    """use [P == 0] indicators of a monomial to substitute variables in the rest; returns poly or None"""
    return None

def sum_mono(u, n, m, ctx, cx):
    # Kronecker
    for a, e in m:
        if a.op == "ind" and a.a[0].op == "eq" and u in fv(a):
            PP = norm(a.a[0].a[0], cx)
            sol = solve_for(PP, u); extra = TRUE
            if sol is None:
                sc = solve_scaled(PP, u)
                if sc is not None:
                    # c*u = R over the integers: u = R div c, provided c divides R
                    c_, R = sc
                    st = norm_T(fdiv(npoly_T(R), num(c_)), ctx)
                    extra = norm_cond(eq(mul(c_, st), npoly_T(R)), ctx)
                    sol = norm(st, ctx)
            if sol is not None:
                st = npoly_T(sol)
                rest = tuple(x for x in m if x[0] is not a)
                rng = norm_cond(and_(le(ZERO, st), lt(st, n), extra), ctx)
                if rng is FALSE: return {}
                q = mono_subst(rest, {u: st}, ctx.extend(rng))
                return pmul(cond_poly(rng, ctx), q, ctx)
    # [u div k == R] : replace the quotient in the other factors, which may then determine u
    for a, e in m:
        if a.op == "ind" and a.a[0].op == "eq" and u in fv(a):
            PP = norm(a.a[0].a[0], cx)
            for mm, c in PP.items():
                if len(mm) == 1 and mm[0][1] is ONE and mm[0][0].op == "div" and abs(c) == 1 and u in fv(mm[0][0]):
                    q_ = mm[0][0]
                    R = pscale(padd(PP, {mm: c}, -1), -1 / c)
                    if any(u in fv(x) or u in fv(y) for mm2 in R for x, y in mm2): continue
                    rest = mono_T(tuple(x for x in m if x[0] is not a))
                    new = replace_term(rest, {q_: npoly_T(R)})
                    if new is rest: continue
                    return sum_poly(u, n, pmul(norm(new, cx), patom(a, e), cx), ctx, cx)
    inside = []; outside = {}
    for a, e in m:
        if depends(a, e, u):
            if a is EULER and e.op == "+":
                # exp(a + b) with b independent of the index: exp(b) leaves the sum
                ex = [x for x in e.a if u not in fv(x)]
                if ex:
                    inside.append((a, add(*[x for x in e.a if u in fv(x)]))); outside[a] = add(*ex); continue
            inside.append((a, e))
        else: outside[a] = e
    # inequality indicators linear in u: [u < k] -> shrink the range when k within it
    if not inside:
        return pmul({sorted_mono(outside): Fraction(1)}, norm(n, ctx) if ctx.entails(le(ZERO, n)) else norm(tmax(ZERO, n), ctx), ctx)
    op_ = {sorted_mono(outside): Fraction(1)}
    # bounds indicators: [u <= k], [u >= k] with k independent of u shrink the range
    for a, e in inside:
        bd = ind_bound(u, a, ctx, cx)
        if bd is None: continue
        side, k = bd
        rem = tuple(x for x in inside if x[0] is not a)
        if side > 0:
            if ctx.entails(le(k, n)):
                g = TRUE if ctx.entails(le(ZERO, k)) else norm_cond(lt(ZERO, k), ctx)
                q = norm_sum([(u, k)], mono_T(rem), ctx if g is TRUE else ctx.extend(g))
                return pmul(pmul(op_, cond_poly(g, ctx), ctx), q, ctx)
            elif ctx.entails(le(n, k)):
                return pmul(op_, norm_sum([(u, n)], mono_T(rem), ctx), ctx)
        else:
            if ctx.entails(le(k, ZERO)):
                return pmul(op_, norm_sum([(u, n)], mono_T(rem), ctx), ctx)
            # prefix-sum form: sum over [k, n) = sum over [0, n) - sum over [0, k)
            if ctx.entails(and_(le(ZERO, k), le(k, n))):
                q = norm_sum([(u, n)], mono_T(rem), ctx)
                q2 = norm_sum([(u, k)], mono_T(rem), ctx)
                return pmul(op_, padd(q, q2, -1), ctx)
    # pure power of u: Faulhaber
    if len(inside) == 1 and inside[0][0] is u and isnum(inside[0][1]) and val(inside[0][1]) in (1, 2, 3) and ctx.entails(le(ZERO, n)):
        k = val(inside[0][1])
        if k == 1: f = mul(Fraction(1, 2), n, sub(n, 1))
        elif k == 2: f = mul(Fraction(1, 6), n, sub(n, 1), sub(mul(2, n), 1))
        else: f = power(mul(Fraction(1, 2), n, sub(n, 1)), 2)
        return pmul(op_, norm(f, ctx), ctx)
    # split index div/mod when range is a product: [0,n*m) with only u div m / u mod m occurrences
    r = split_range(u, n, inside, ctx)
    if r is not None: return pmul(op_, r, ctx)
    # an index that is mostly used backwards (n - 1 - u) is counted the other way round
    if runs_backwards(u, inside):
        w = var("%s!s%d" % (u.a[0].split("!")[0], next(_sumctr)), "I")
        return pmul(op_, sum_poly(w, n, norm(subst(mono_T(tuple(inside)), {u: sub(sub(n, 1), w)}), ctx.extend(le(ZERO, w), lt(w, n))), ctx, ctx.extend(le(ZERO, w), lt(w, n))), ctx)
    binders = [(u, n)]
    factors = []
    for a, e in inside:
        if a.op == "sum" and isnum(e) and val(e).denominator == 1 and 0 < val(e) <= 3:
            for _ in range(int(val(e))):
                ren = {}; sofar = {}
                for v, k in a.a[0]:
                    w = var("w!%d" % next(_sumctr), "I")
                    binders.append((w, subst(k, ren))); ren[v] = w
                b = subst(a.a[1], ren)
                for x in (b.a if b.op == "*" else (b,)):
                    if x.op == "pow": factors.append((x.a[0], x.a[1]))
                    else: factors.append((x, ONE))
        else: factors.append((a, e))
    # merge equal atoms
    d = {}
    for a, e in factors:
        d[a] = e if a not in d else norm_T(add(d[a], e), cx)
    if len(binders) > 1 and len(binders) < 4:
        r = shrink_inner(binders, d, ctx)
        if r is not None: return pmul(op_, r, ctx)
    p = build_msum(binders, list(d.items()), ctx)
    return pmul(op_, p, ctx)

def runs_backwards(u, inside):
    score = [0]; seen = set()
    def lin(x):
        for y in (x.a if x.op == "+" else (x,)):
            if y is u: return 1
            if y.op == "*" and len(y.a) == 2 and isnum(y.a[0]) and y.a[1] is u: return 1 if val(y.a[0]) > 0 else -1
        return 0
    def walk(t):
        if t in seen or u not in fv(t): return
        seen.add(t)
        if t.op == "app":
            for x in t.a[1:]:
                if isinstance(x, T) and u in fv(x): score[0] += lin(x)
        for x in children(t): walk(x)
    for a, e in inside: walk(a); walk(e)
    return score[0] < 0

def ind_bound(u, a, ctx, cx):
    """indicator atom a read as a bound on u: (+1, k) for u < k, (-1, k) for u >= k"""
    if a.op != "ind" or a.a[0].op != "le" or u not in fv(a): return None
    L = norm(a.a[0].a[0], cx)
    cu = None; rest = {}
    for mm, c in L.items():
        d = dict(mm)
        if u in d:
            if len(mm) == 1 and d[u] is ONE: cu = c
            else: return None
        elif any(u in fv(x) for x, _ in mm): return None
        else: rest[mm] = c
    if cu is None or cu.denominator != 1: return None
    if cu == 1: return 1, npoly_T(padd(pconst(1), rest, -1))
    if cu > 1: return 1, norm_T(add(fdiv(npoly_T(pscale(rest, -1)), num(cu)), 1), ctx)
    if cu == -1: return -1, npoly_T(rest)
    return -1, norm_T(neg(fdiv(npoly_T(pscale(rest, -1)), num(-cu))), ctx)

def shrink_inner(binders, d, ctx):
    """an indicator bounding one of several binders: sum over that binder first"""
    for a in [x for x, e in d.items() if x.op == "ind" and x.a[0].op == "le"]:
        for i, (v, n) in enumerate(binders):
            if v not in fv(a) or any(v in fv(k) for _, k in binders): continue
            others = binders[:i] + binders[i + 1:]
            c2 = ctx; ok = True; seen = set()
            for w, k in others:
                if fv(k) & ({x for x, _ in others} - seen): ok = False; break
                seen.add(w); c2 = c2.extend(le(ZERO, w), lt(w, k))
            if not ok or fv(n) & {x for x, _ in others} - seen: continue
            cx2 = c2.extend(le(ZERO, v), lt(v, n))
            bd = ind_bound(v, a, c2, cx2)
            if bd is None: continue
            side, k = bd
            if not (c2.entails(le(k, n)) if side > 0 else c2.entails(and_(le(ZERO, k), le(k, n)))): continue
            R = sum_mono(v, n, sorted_mono(d), c2, cx2)
            for w, k in reversed(others):
                R = norm_sum([(w, k)], npoly_T(R), ctx_to(ctx, others, w))
            return R
    return None
def ctx_to(ctx, others, w):
    c2 = ctx
    for x, k in others:
        if x is w: break
        c2 = c2.extend(le(ZERO, x), lt(x, k))
    return c2

def split_range(u, n, inside, ctx):
    pn = norm(n, ctx)
    if len(pn) != 1: return None
    divs = set()
    def find(t):
        if u not in fv(t): return
        if t.op == "div" and u in fv(t.a[0]): divs.add(t); return
        for c in children(t): find(c)
    for a, e in inside: find(a); find(e)
    if not divs: return None
    mods = {d.a[1] for d in divs}
    for mo in sorted(mods, key=key):
        pm = norm(mo, ctx)
        if is_const(pm): 
            continue
        if len(pm) != 1: continue
        q = norm(div(n, mo), ctx)
        if not is_intpoly(q) : continue
        if not ctx.pos(mo): continue
        i = var("i!%d" % next(_sumctr), "I"); j = var("j!%d" % next(_sumctr), "I")
        qt = npoly_T(q)
        body = mono_T(tuple(inside))
        body = subst(body, {u: add(mul(i, mo), j)})
        return norm_sum([(i, qt)], mk("sum", (((j, mo),), body), body.s), ctx)
    return None

def height(t, memo={}):
    r = memo.get(t)
    if r is None:
        ch = children(t)
        r = max((height(c) for c in ch), default=0)
        if t.op in BIND: r += 1
        memo[t] = r
    return r

def build_msum(binders, factors, ctx):
    """connected components, canonical binder naming and order -> poly"""
    bvs = [v for v, _ in binders]
    bset = set(bvs)
    # union-find on binders through factors and ranges
    par = {v: v for v in bvs}
    def find(x):
        while par[x] is not x: x = par[x]
        return x
    def union(vs):
        vs = list(vs)
        for w in vs[1:]:
            a, b = find(vs[0]), find(w)
            if a is not b: par[b] = a
    for v, n in binders:
        union([v] + [w for w in fv(n) if w in bset])
    fvs = []
    for a, e in factors:
        d = (fv(a) | fv(e)) & bset
        fvs.append(d)
        if d: union(d)
    out = pconst(1)
    for root in [v for v in bvs if find(v) is v]:
        comp = [(v, n) for v, n in binders if find(v) is root]
        fs = [f for f, d in zip(factors, fvs) if d and find(next(iter(d))) is root]
        if not fs:
            assert len(comp) == 1
            out = pmul(out, norm(comp[0][1], ctx), ctx); continue
        out = pmul(out, patom(canon_msum(comp, fs)), ctx)
    free = [f for f, d in zip(factors, fvs) if not d]
    if free: out = pmul(out, fix(dict(free), [a for a, _ in free], ctx), ctx)
    return out

def canon_msum(comp, fs):
    h = 1 + max([height(a) for a, _ in fs] + [height(e) for _, e in fs] + [height(n) for _, n in comp] + [0])
    k = len(comp)
    best = None
    own = {v for v, _ in comp}
    if k >= 4 and not any(fv(n) & own for _, n in comp): perms = refined_perms(comp, fs)
    else: perms = [tuple(range(k))] if k > 5 else itertools.permutations(range(k))
    for perm in perms:
        order = [comp[i] for i in perm]
        seen = set(); ok = True
        later = {v for v, _ in order}
        for v, n in order:
            if fv(n) & (later - seen): ok = False; break
            seen.add(v)
        if not ok: continue
        ren = {v: var("b%d_%d" % (h, i), "I") for i, (v, _) in enumerate(order)}
        bs = []; sofar = {}
        for v, n in order:
            bs.append((ren[v], reorient(subst(n, sofar)))); sofar[v] = ren[v]
        items = sorted([(reorient(subst(a, ren)), reorient(subst(e, ren))) for a, e in fs], key=lambda x: key(x[0]))
        body = mul(*[power(a, e) if e is not ONE else a for a, e in items])
        t = mk("sum", (tuple(bs), body), body.s)
        if best is None or key(t) < key(best): best = t
    return best

MARK = var("mark_", "I")
def refined_perms(comp, fs, limit=2000):
    """orders of the binders compatible with an isomorphism-invariant colouring (colour refinement); ties are enumerated"""
    bvs = [v for v, _ in comp]
    occ = {v: [(a, e) for a, e in fs if v in fv(a) or v in fv(e)] for v in bvs}
    def ranks(sig):
        ks = sorted(set(sig.values())); pos = {x: i for i, x in enumerate(ks)}
        return {v: pos[sig[v]] for v in bvs}
    col = ranks({v: key(n) for v, n in comp})
    while True:
        cv = {v: var("col%d_" % col[v], "I") for v in bvs}
        sig = {}
        for v in bvs:
            m = dict(cv); m[v] = MARK
            sig[v] = (col[v],) + tuple(sorted((key(reorient(subst(a, m))), key(reorient(subst(e, m)))) for a, e in occ[v]))
        new = ranks(sig)
        if len(set(new.values())) == len(set(col.values())): break
        col = new
    classes = {}
    for i, v in enumerate(bvs): classes.setdefault(col[v], []).append(i)
    groups = [classes[c] for c in sorted(classes)]
    total = 1
    for g in groups:
        for q in range(2, len(g) + 1): total *= q
    if total > limit: groups = [tuple(g) for g in groups]; return [tuple(i for g in groups for i in g)]
    return [tuple(i for g in t for i in g) for t in itertools.product(*[list(itertools.permutations(g)) for g in groups])]

def poly_positive(P, ctx):
    """positive constant term, positive coefficients and nonnegative atoms"""
    if P.get((), 0) <= 0 or any(c <= 0 for c in P.values()): return False
    for m in P:
        for a, e in m:
            if a is EULER or isnum(a) and val(a) > 0 or isnum(e) and val(e).denominator == 1 and val(e) % 2 == 0: continue
            if not (isnum(e) and val(e) > 0 and ctx.entails(le(ZERO, a))): return False
    return True

def norm_prod(v, n, body, ctx):
    n = norm_T(n, ctx)
    if isnum(n) and val(n) <= 8:
        r = pconst(1)
        for i in range(int(max(0, val(n)))): r = pmul(r, norm(subst(body, {v: num(i)}), ctx), ctx)
        return r
    u = var("%s!s%d" % (v.a[0].split("!")[0], next(_sumctr)), "I")
    cx = ctx.extend(le(ZERO, u), lt(u, n))
    P = norm(subst(body, {v: u}), cx)
    if len(P) == 1:
        (m, c), = P.items()
        r = pconst(1) if c == 1 else patom(num(c), n) if c > 0 else patom(mk("prod", (((u, n),), num(c)), "R"))
        rest = {}
        for a, e in m:
            if not depends(a, e, u):
                r = pmul(r, ppow(patom(a), norm_T(mul(e, n), ctx), ctx), ctx)
            elif a is EULER:
                r = pmul(r, norm_exp(npoly_T(norm_sum([(u, n)], e, ctx)), ctx), ctx)
            elif a.op == "ind" and a.a[0].op == "eq": rest[a] = e
            else:
                # product of a factor raised to constant exponent: separate atoms
                if u not in fv(e):
                    h = 1 + max(height(a), height(n))
                    w = var("b%d_0" % h, "I")
                    at = mk("prod", (((w, n),), reorient(subst(a, {u: w}))), a.s)
                    r = pmul(r, patom(at, e), ctx)
                else: rest[a] = e
        if rest:
            b = mono_T(sorted_mono(rest))
            h = 1 + max(height(b), height(n)); w = var("b%d_0" % h, "I")
            r = pmul(r, patom(mk("prod", (((w, n),), reorient(subst(b, {u: w}))), b.s)), ctx)
        return r
    # a single special index: prod_u ([u=k] A(u) + [u!=k] B(u)) = A(k) * prod_u ([u=k] + [u!=k] B(u))
    for x in sorted({x for m in P for x, _ in m if x.op == "ind" and x.a[0].op == "eq" and u in fv(x)}, key=key):
        sol = solve_for(norm(x.a[0].a[0], cx), u)
        if sol is None: continue
        st = npoly_T(sol)
        if not ctx.entails(and_(le(ZERO, st), lt(st, n))): continue
        A_ = norm_T(subst(subst_ind(P, x, 1, cx), {u: st}), ctx)
        if A_ is ONE:
            # prod_u [u=k] + [u!=k] B(u) = prod_u B(u) / B(k) when B is an exponential (never zero)
            BB = norm(subst_ind(P, x, 0, cx), cx)
            bt = npoly_T(BB)
            if len(BB) == 1 and all(a is EULER for a, _ in next(iter(BB))) and next(iter(BB.values())) > 0 or poly_positive(norm(subst(bt, {u: st}), ctx), ctx):
                return pmul(norm_prod(u, n, bt, ctx), ppow(norm(subst(bt, {u: st}), ctx), num(-1), ctx), ctx)
            continue
        B_ = subst_ind(P, x, 0, cx)
        new = ite(eq(u, st), ONE, B_)
        return pmul(norm(A_, ctx), norm_prod(u, n, new, ctx), ctx)
    b = npoly_T(P)
    h = 1 + max(height(b), height(n)); w = var("b%d_0" % h, "I")
    return patom(mk("prod", (((w, n),), reorient(subst(b, {u: w}))), b.s))

def norm_binder(t, ctx):
    (v, n), = t.a[0]
    n = norm_T(n, ctx)
    u = var("%s!s%d" % (v.a[0].split("!")[0], next(_sumctr)), "I")
    cx = ctx.extend(le(ZERO, u), lt(u, n))
    b = norm_T(subst(t.a[1], {v: u}), cx)
    if t.op in ("max*", "min*") and u not in fv(b) and ctx.entails(le(ONE, n)): return norm(b, ctx)
    h = 1 + max(height(b), height(n)); w = var("b%d_0" % h, "I")
    return patom(mk(t.op, (((w, n),), reorient(subst(b, {u: w}))), t.s))

# ------------------------------------------------------------------ differentiation
DERIV = {}      # fname -> function(args, target) -> T   (declared derivative rules)
def D(t, tgt, memo=None):
    """partial derivative of t with respect to target, an app term f(i1..ik) or a variable; other
    occurrences f(j..) are identified through Kronecker deltas"""
    if memo is None: memo = {}
    r = memo.get(t)
    if r is None:
        r = memo[t] = _D(t, tgt, memo)
    return r
def _mentions(t, tgt, memo={}):
    name = tgt.a[0]
    k = (t, name)
    r = memo.get(k)
    if r is None:
        if t.op == "app": r = t.a[0] == name or t.a[0] in DERIV or any(_mentions(c, tgt) for c in t.a[1:])
        elif t.op == "var": r = t is tgt
        else: r = any(_mentions(c, tgt) for c in children(t))
        memo[k] = r
    return r
def _D(t, tgt, memo):
    if t.s in ("I", "B") and t.op != "ind" and not (t.op == "app" and t.a[0] == tgt.a[0]):
        if t.op not in ("+", "*", "ite", "sum", "fn_abs", "app", "pow"): return ZERO
    if not _mentions(t, tgt): return ZERO
    op = t.op
    d = lambda x: D(x, tgt, memo)
    if op == "var": return ONE if t is tgt else ZERO
    if op == "app":
        if tgt.op == "app" and t.a[0] == tgt.a[0]:
            return ite(and_(*[eq(x, y) for x, y in zip(t.a[1:], tgt.a[1:])]), ONE, ZERO)
        if t.a[0] in DERIV: return DERIV[t.a[0]](t.a[1:], tgt, d)
        out = []
        for k, x in enumerate(t.a[1:]):
            if x.s == "L":
                if x.op != "lam": continue
                (v, n_), = x.a[0]
                c = fresh("c")
                db = D(subst(x.a[1], {v: c}), tgt)
                if db is not ZERO:
                    out.append(Sum(c, n_, mul(mk("app", ("%s.d%d" % (t.a[0], k),) + t.a[1:] + (c,), "R"), db)))
                continue
            dx = d(x)
            if dx is not ZERO: out.append(mul(mk("app", ("%s.d%d" % (t.a[0], k),) + t.a[1:], "R"), dx))
        return add(*out) if out else ZERO
    if op == "+": return add(*[d(x) for x in t.a])
    if op == "*":
        out = []
        for i, x in enumerate(t.a):
            dx = d(x)
            if dx is not ZERO: out.append(mul(*(t.a[:i] + (dx,) + t.a[i + 1:])))
        return add(*out) if out else ZERO
    if op == "pow":
        b, e = t.a
        db = d(b) if b is not EULER else ZERO; de = d(e)
        out = []
        if db is not ZERO: out.append(mul(e, power(b, sub(e, 1)), db))
        if de is not ZERO: out.append(mul(t, de) if b is EULER else mul(t, fn("log", b), de))
        return add(*out) if out else ZERO
    if op == "ite": return ite(t.a[0], d(t.a[1]), d(t.a[2]))
    if op in ("ind", "div"): return ZERO
    if op == "sum":
        bs, body = t.a
        tfv = fv(tgt)
        if any(v in tfv for v, _ in bs):
            ren = {v: fresh(v.a[0]) for v, _ in bs}
            nb = []; sofar = {}
            for v, n in bs: nb.append((ren[v], subst(n, sofar))); sofar[v] = ren[v]
            bs = tuple(nb); body = subst(body, ren)
        db = D(body, tgt)
        if db is ZERO: return ZERO
        return mk("sum", (bs, db), "R")
    if op == "prod":
        (v, n), = t.a[0]; body = t.a[1]
        u = fresh(v.a[0]); w = fresh(v.a[0])
        bu = subst(body, {v: u}); bw = subst(body, {v: w})
        du = D(bu, tgt)
        return Sum(u, n, mul(du, Prod(w, n, ite(eq(w, u), ONE, bw))))
    if op.startswith("fn_"):
        x = t.a[0]; dx = d(x); name = op[3:]
        if name == "atan2":
            y_, x_ = t.a
            dy_, dx_ = d(y_), d(x_)
            return div(sub(mul(x_, dy_), mul(y_, dx_)), add(power(x_, 2), power(y_, 2)))
        if name == "sin": g = fn("cos", x)
        elif name == "cos": g = neg(fn("sin", x))
        elif name == "tan": g = power(fn("cos", x), -2)
        elif name == "cosh": g = fn("sinh", x)
        elif name == "sinh": g = fn("cosh", x)
        elif name == "tanh": g = sub(1, power(t, 2))
        elif name == "log": g = power(x, -1)
        elif name == "log10": g = div(1, mul(x, fn("log", num(10))))
        elif name == "abs": g = fn("sign", x)
        elif name == "Phi": g = fn("phi", x)
        elif name == "phi": g = neg(mul(x, t))
        elif name == "arctan": g = div(1, add(1, power(x, 2)))
        elif name in ("sign", "floor", "round", "trunc", "ceil"): return ZERO
        else: raise NotImplementedError("derivative of " + name)
        return mul(g, dx)
    raise NotImplementedError("derivative of " + op)

# ------------------------------------------------------------------ prover
class Proof:
    def __init__(self, ok, how, residual=None): self.ok = ok; self.how = how; self.residual = residual
    def __bool__(self): return self.ok

def eq_collapse(P, ctx):
    """substitute through equality indicators in each monomial (e.g. [i==j] x(i) -> [i==j] x(j))"""
    out = {}; changed = False
    for m, c in P.items():
        done = False
        for a, e in m:
            if a.op == "ind" and a.a[0].op == "eq":
                L = norm(a.a[0].a[0], ctx)
                rest = tuple(x for x in m if x[0] is not a)
                for v in sorted((v for mm in L for v, _ in mm if v.op == "var"), key=key, reverse=True):
                    if not any(depends(x, y, v) for x, y in rest): continue
                    sol = solve_for(L, v)
                    if sol is None: continue
                    q = mono_subst(rest, {v: npoly_T(sol)}, ctx.extend(a.a[0]))
                    out = padd(out, pmul(patom(a), q, ctx), c); done = True; changed = True
                    break
                if done: break
        if not done: out = padd(out, {m: c})
    return out, changed

def clear_denoms(P, ctx):
    dens = {}
    for m in P:
        for a, e in m:
            if isnum(e) and val(e) < 0 and a.op in ("+", "var", "app", "sum", "fn_cos", "fn_abs", "fn_sin", "prod", "ind"):
                k = -val(e)
                if a.op == "+" or True:
                    dens[a] = max(dens.get(a, 0), k)
    if not any(a.op in ("+",) for a in dens): return None
    f = {a: num(k) for a, k in dens.items()}
    out = {}
    for m, c in P.items():
        d = dict(m); pw = {}
        for a, k in f.items():
            e = d.get(a)
            x = val(k) + (val(e) if e is not None else 0) if (e is None or isnum(e)) else None
            if x is None: return None
            d.pop(a, None)
            if x: pw[a] = x
        q = {sorted_mono(d): Fraction(1)} if d else pconst(1)
        for a, x in pw.items():
            q = pmul(q, ppow(norm(a, ctx), num(x), ctx), ctx)
        out = padd(out, q, c)
    return out

def conds_in(P):
    """free conditions to split on"""
    out = []
    bound = set()
    def walk(t, bvs, seen):
        if (t, bvs) in seen: return
        seen.add((t, bvs))
        if t.op == "ind":
            if not (fv(t) & bvs): out.append(t.a[0])
        if t.op == "fn_abs" and not (fv(t) & bvs): out.append(mk("lt", (t.a[0], ZERO), "B"))
        if t.op == "fn_sign" and not (fv(t) & bvs): out.append(mk("lt", (t.a[0], ZERO), "B"))
        if t.op in BIND:
            bvs = bvs | frozenset(v for v, _ in t.a[0])
        for c in children(t): walk(c, bvs, seen)
    seen = set()
    for m in P:
        for a, e in m:
            walk(a, EMPTY, seen); walk(e, EMPTY, seen)
    return out

def prove_zero(t, ctx=TOP, depth=0, maxdepth=14):
    """try to prove term t == 0 under ctx"""
    P = norm(t, ctx)
    return prove_zero_poly(P, ctx, depth, maxdepth)

def prove_zero_poly(P, ctx, depth, maxdepth):
    check_deadline()
    if not P: return Proof(True, "normal form")
    if ctx.infeasible(): return Proof(True, "infeasible case")
    for _ in range(3):
        P, ch = eq_collapse(P, ctx)
        if not P: return Proof(True, "kronecker")
        if not ch: break
    for _ in range(12):
        Q = telescope(P, ctx)
        if Q is None: break
        P = Q
        if not P: return Proof(True, "telescoped sums")
    # split on conditions first
    cs = conds_in(P)
    if cs and depth < maxdepth:
        # most frequent first, equalities first
        cnt = {}
        for c in cs: cnt[c] = cnt.get(c, 0) + 1
        c = sorted(cnt, key=lambda c: (c.op != "eq", -cnt[c], key(c)))[0]
        t = npoly_T(P)
        res = []
        for cc in (c, not_(c)):
            cx = ctx.extend(norm_cond(cc, ctx)) if norm_cond(cc, ctx) not in (TRUE, FALSE) else ctx.extend(cc)
            if cx.infeasible(): continue
            tt = t
            if cc.op == "eq":
                L = norm(cc.a[0], ctx)
                for v in sorted((v for mm in L for v, _ in mm if v.op == "var" and v not in (EULER, PI)), key=key, reverse=True):
                    if cc.a[1] is not ZERO: break
                    sol = solve_for(L, v)
                    if sol is not None:
                        tt = subst(tt, {v: npoly_T(sol)}); break
            if c.op == "lt":
                tt = split_abs(tt, c.a[0], cc is c)
            elif c.op == "le":
                tt = split_abs(tt, c.a[0], cc is c)
            r = prove_zero(tt, cx, depth + 1, maxdepth)
            if not r: return r
        return Proof(True, "case split")
    if depth < maxdepth:
        t = npoly_T(P)
        for u in (signs_out(t, ctx), conds_out(t)):
            if u is not t:
                r = prove_zero(u, ctx, depth + 1, maxdepth)
                if r: return r
    Q = clear_denoms(P, ctx)
    if Q is not None and Q != P:
        if not Q: return Proof(True, "cleared denominators")
        if depth < maxdepth:
            r = prove_zero_poly(Q, ctx, depth + 2, maxdepth)
            if r: return r
    r = merge_sums(P, ctx, depth, maxdepth)
    if r is not None and r: return r
    Q = unshift(P, ctx)
    if Q is not None and Q != P:
        if not Q: return Proof(True, "reindexed sums")
        if depth < maxdepth:
            r = prove_zero_poly(Q, ctx, depth + 2, maxdepth)
            if r: return r
    # residual to z3
    if len(P) <= 60:
        r = z3_zero(P, ctx)
        if r: return Proof(True, "z3")
    return Proof(False, "unproved", npoly_T(P))

def signs_out(t, ctx):
    """under a binder: sign(x) = 1 - 2 [x <= 0] where x is known not to vanish"""
    seen = set()
    def has(u):
        if u in seen: return False
        seen.add(u); return u.op == "fn_sign" or any(has(c) for c in children(u))
    if not has(t): return t
    def go(t, cx, bvs):
        if t.op == "fn_sign" and fv(t) & bvs and cx.entails(not_(eq(t.a[0], ZERO))):
            return ite(le(t.a[0], ZERO), num(-1), ONE)
        if t.op in BIND:
            sofar = {}; c2 = cx
            for v, n in t.a[0]:
                w = fresh("g"); c2 = c2.extend(le(ZERO, w), lt(w, subst(n, sofar))); sofar[v] = w
            b = go(subst(t.a[1], sofar), c2, bvs | frozenset(sofar.values()))
            if b is subst(t.a[1], sofar): return t
            for v, n in reversed(t.a[0]): b = binder(t.op, sofar[v], subst(n, sofar), b)
            return b
        if not t.a or t.op in ("num", "var"): return t
        cs = children(t); r = [go(c, cx, bvs) for c in cs]
        return t if all(x is y for x, y in zip(cs, r)) else rebuild(t, r)
    return go(t, ctx, EMPTY)

def conds_out(t):
    """a condition on the summation index that occurs inside an argument becomes a case of the summand"""
    budget = [6]
    def inner(b, bvs):
        """an indicator over bound variables inside an argument"""
        seen = set()
        def walk(u, deep):
            if (u, deep) in seen or not (fv(u) & bvs): return None
            seen.add((u, deep))
            if u.op == "ind": return u if deep else None
            if u.op in BIND: return None
            for c in children(u):
                r = walk(c, deep or u.op == "app")
                if r is not None: return r
        return walk(b, False)
    def put(t, x, v, memo):
        if t in memo: return memo[t]
        r = v if t is x else t if t.op in BIND or not t.a or t.op in ("num", "var", "true", "false") else rebuild(t, [put(c, x, v, memo) for c in children(t)])
        memo[t] = r
        return r
    def cases(b, bvs):
        x = inner(b, bvs) if budget[0] else None
        if x is None: return b
        budget[0] -= 1
        return ite(x.a[0], cases(put(b, x, ONE, {}), bvs), cases(put(b, x, ZERO, {}), bvs))
    def go(t):
        if t.op == "sum":
            b = go(t.a[1]); c = cases(b, frozenset(v for v, _ in t.a[0]))
            if c is t.a[1]: return t
            for v, n in reversed(t.a[0]): c = binder("sum", v, n, c)
            return c
        if not t.a or t.op in ("num", "var", "true", "false") or t.op in BIND: return t
        cs = children(t); r = [go(c) for c in cs]
        return t if all(x is y for x, y in zip(cs, r)) else rebuild(t, r)
    return go(t)

def split_abs(t, x, negative, memo=None):
    """replace |x|, sign(x) for the case x<0 / x>=0"""
    if memo is None: memo = {}
    def go(t):
        if t in memo: return memo[t]
        if not (fv(x) <= fv(t)) or t.op in ("num", "var", "true", "false"): r = t
        elif t.op == "fn_abs" and t.a[0] is x: r = neg(x) if negative else x
        elif t.op == "fn_sign" and t.a[0] is x: r = num(-1) if negative else ite(eq(x, ZERO), ZERO, ONE)
        else: r = rebuild(t, [go(c) for c in children(t)])
        memo[t] = r
        return r
    return go(t)

def telescope(P, ctx):
    """c*S_{v<N} f - c*S_{v<M} f  ->  c*S_{w<N-M} f(w+M)  and  c*S_{v<N} f - c*f(0)  ->  c*S_{w<N-1} f(w+1); None if nothing applies"""
    items = []
    for m, c in P.items():
        for a, e in m:
            if a.op == "sum" and e is ONE: items.append((m, c, a, tuple(x for x in m if x[0] is not a)))
    for i, (m, c, a, oth) in enumerate(items):
        for m2, c2, a2, oth2 in items[i + 1:]:
            if c2 != -c or oth2 != oth or len(a2.a[0]) != len(a.a[0]): continue
            vs = [fresh("t") for _ in a.a[0]]
            r1 = {v: w for (v, _), w in zip(a.a[0], vs)}; r2 = {v: w for (v, _), w in zip(a2.a[0], vs)}
            if subst(a.a[1], r1) is not subst(a2.a[1], r2): continue
            n1 = [subst(n, r1) for _, n in a.a[0]]; n2 = [subst(n, r2) for _, n in a2.a[0]]
            df = [k for k in range(len(vs)) if n1[k] is not n2[k]]
            if len(df) != 1: continue
            k = df[0]
            cx = ctx
            for q in range(k): cx = cx.extend(le(ZERO, vs[q]), lt(vs[q], n1[q]))
            if cx.entails(and_(le(ZERO, n2[k]), le(n2[k], n1[k]))): big, small, cc = n1[k], n2[k], c
            elif cx.entails(and_(le(ZERO, n1[k]), le(n1[k], n2[k]))): big, small, cc = n2[k], n1[k], -c
            else: continue
            w = fresh("t")
            bs = tuple((w, sub(big, small)) if q == k else (vs[q], subst(n1[q], {vs[k]: add(w, small)})) for q in range(len(vs)))
            body = subst(subst(a.a[1], r1), {vs[k]: add(w, small)})
            new = pmul({oth: Fraction(1)}, norm(mk("sum", (bs, body), a.s), ctx), ctx)
            Q = dict(P); del Q[m]; del Q[m2]
            return padd(Q, new, cc)
    for m, c, a, oth in items:
        if len(a.a[0]) != 1: continue
        v, n = a.a[0][0]
        if not ctx.entails(lt(ZERO, n)): continue
        for at, lo in ((ZERO, 1), (sub(n, 1), 0)):
            try: inst = pmul({oth: c}, norm(subst(a.a[1], {v: at}), ctx), ctx)
            except (Budget, ZeroDivisionError): continue
            if inst and len(inst) <= 4 and all(P.get(q, 0) * x < 0 and abs(P[q]) >= abs(x) for q, x in inst.items()):
                w = fresh("t")
                new = pmul({oth: Fraction(1)}, norm(mk("sum", (((w, sub(n, 1)),), subst(a.a[1], {v: add(w, lo)})), a.s), ctx), ctx)
                Q = dict(P); del Q[m]
                return padd(padd(Q, inst), new, c)
    return None

def unshift(P, ctx):
    """S_{v<n} f(v+c) = S_{v<n} f(v) + S_{j<c} f(n+j) - S_{j<c} f(j) for a small numeric c (all uses of v in symbols are shifted alike); None if nothing applies"""
    out = {}; ch = False
    for m, k in P.items():
        new = None
        for a, e in m:
            if a.op != "sum" or e is not ONE or len(a.a[0]) != 1: continue
            (v, n), body = a.a[0][0], a.a[1]
            sh = set()
            def walk(t):
                if v not in fv(t): return
                if t.op == "app":
                    for x in t.a[1:]:
                        if isinstance(x, T) and v in fv(x):
                            r = norm(x, ctx); d = padd(r, patom(v), -1)
                            sh.add(d.get(ONE_M, Fraction(0)) if is_const(d) else None)
                    return
                for x in children(t): walk(x)
            walk(body)
            if not sh or None in sh: continue
            c = min(sh)
            if c == 0 or abs(c) > 2 or c.denominator != 1 or v in fv(n) or not ctx.entails(le(ZERO, n)): continue
            f = lambda j: subst(body, {v: sub(j, num(c))})
            w = fresh("t"); t = Sum(w, n, f(w))
            if c > 0: t = add(t, *[sub(f(add(n, j)), f(num(j))) for j in range(int(c))])
            else: t = add(t, *[sub(f(num(j)), f(add(n, j))) for j in range(int(c), 0)])
            oth = tuple(x for x in m if x[0] is not a)
            new = pmul({oth: k}, norm(t, ctx), ctx); break
        if new is None: out = padd(out, {m: k})
        else: ch = True; out = padd(out, new)
    return out if ch else None

def merge_sums(P, ctx, depth, maxdepth):
    """group monomials with exactly one sum atom (exponent 1) of the same binder ranges, prove each merged
    body is zero pointwise; single binder groups first"""
    groups = {}; rest = {}
    for m, c in P.items():
        sums = [a for a, e in m if a.op == "sum" and e is ONE]
        if len(sums) == 1:
            s = sums[0]
            others = tuple(x for x in m if x[0] is not s)
            k = tuple(n for _, n in s.a[0])
            groups.setdefault(k, []).append((c, others, s))
        else: rest[m] = c
    if rest or not groups: 
        if rest: return None
    if all(len(g) < 2 for g in groups.values()): return None
    if depth > maxdepth - 2: return None
    for k, g in groups.items():
        vs = [fresh("m") for _ in k]
        body = []; rng = []
        for i, n in enumerate(k):
            pass
        for c, others, s in g:
            ren = {v: w for (v, _), w in zip(s.a[0], vs)}
            body.append(mul(num(c), mono_T(others), subst(s.a[1], ren)))
        cx = ctx; sofar = {}
        s0 = g[0][2]
        for (v, n), w in zip(s0.a[0], vs):
            cx = cx.extend(le(ZERO, w), lt(w, subst(n, sofar))); sofar[v] = w
        r = prove_zero(add(*body), cx, depth + 2, maxdepth)
        if not r: return r
    return Proof(True, "sum extensionality")

def z3_zero(P, ctx, timeout=3000):
    t0 = time.time()
    enc = Z3Enc()
    s = z3.Solver(); s.set("timeout", timeout * TSCALE[0])
    try:
        for f in ctx.all_facts(): s.add(enc.e(f))
        s.add(enc.real(npoly_T(P)) != 0)
        for x in enc.side: s.add(x)
        r = s.check()
    except z3.Z3Exception:
        return False
    STATS["z3_calls"] += 1; STATS["z3_time"] += time.time() - t0
    return r == z3.unsat

def prove(c, ctx=TOP):
    """prove a boolean term"""
    c0 = norm_cond(c, ctx)
    if c0 is TRUE: return Proof(True, "normal form")
    if c0.op == "and":
        for x in c0.a:
            r = prove(x, ctx)
            if not r: return r
        return Proof(True, "conjunction")
    if c0.op == "eq" and c0.a[0].s != "U":
        r = prove_zero(sub(c0.a[0], c0.a[1]), ctx)
        if r: return r
    if c0.op == "or":
        # assume negations of all but the last
        cx = ctx.extend(*[norm_cond(not_(x), ctx) for x in c0.a[:-1]])
        if cx.infeasible(): return Proof(True, "z3")
        r = prove(c0.a[-1], cx)
        if r: return r
    if c0.op == "forall":
        (v, n), = c0.a[0]
        u = fresh("q")
        for f in ctx.all_facts():          # extend an assumed quantified fact by its last instance
            if f.op == "forall" and subst(f.a[1], {f.a[0][0][0]: v}) is c0.a[1]:
                m = f.a[0][0][1]
                d = norm_T(sub(n, m), ctx)
                if isnum(d) and 0 <= val(d) <= 4:
                    for q in range(int(val(d))):
                        r = prove(subst(c0.a[1], {v: add(m, q)}), ctx)
                        if not r: break
                    else: return Proof(True, "induction step")
        return prove(subst(c0.a[1], {v: u}), ctx.extend(le(ZERO, u), lt(u, n)))
    if ctx.entails(c0): return Proof(True, "z3")
    t0 = time.time()
    enc = Z3Enc(); s = z3.Solver(); s.set("timeout", 10000 * TSCALE[0])
    for f in ctx.all_facts(): s.add(enc.e(f))
    s.add(z3.Not(enc.e(c0)))
    for x in enc.side: s.add(x)
    r = s.check()
    STATS["z3_calls"] += 1; STATS["z3_time"] += time.time() - t0
    if r == z3.unsat: return Proof(True, "z3")
    return Proof(False, str(r), c0)
