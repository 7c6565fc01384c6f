"""Identities between products of matrices.  A normalised sum of products whose indices each join two factors is read as a
combination of matrix words (chains and cycles of factors); words are rewritten with the stated laws (inverse, symmetry, factor
definitions) and compared."""
from fractions import Fraction
from .terms import *
from .norm import *
from . import norm as nm

MARK1, MARK2 = var("mark1_", "I"), var("mark2_", "I")
class NoWord(Exception): pass

class Words:
    """sym: names of symmetric matrices; expand: name -> letters [(name, transposed)]; rules: [(letters, letters or None for zero)], letters (name, transposed) or ("V", name) for a vector at the end of a chain; vecs: names of vectors"""
    def __init__(s, mats, sym=(), vecs=(), expand=None, rules=(), dims=None):
        s.mats, s.sym, s.vecs, s.expand, s.dims = set(mats), set(sym), set(vecs), expand or {}, dims or {}
        s.rules = []
        for l, r in rules:
            s.rules.append((tuple(l), r if r is None else tuple(r)))
            s.rules.append((s.rev(l), r if r is None else s.rev(r)))
        s.rules = [(tuple(s.orient(x) for x in l), r if r is None else tuple(s.orient(x) for x in r)) for l, r in dict((x, x) for x in s.rules)]
    def rev(s, l): return tuple((n, t) if n == "V" else (n, not t) for n, t in reversed(l))
    def orient(s, x): return (x[0], False) if x[0] in s.sym else tuple(x)
    # letters are (name, extra arguments, transposed)
    def letter(s, n, ex, t): return (n, ex, False if n in s.sym else t)
    def same(s, pat, l):
        if pat[0] == "V": return l[0] == "V" and l[1][0] == pat[1]
        return l[0] == pat[0] and l[2] == pat[1]
    def reduce(s, w, cyclic):
        """rewritten word, or None when it vanishes"""
        w = list(w); ch = True
        while ch:
            ch = False
            for i, (n, ex, t) in enumerate(w):
                if n in s.expand:
                    e = s.expand[n]; e = e(ex) if callable(e) else [(m, (), tt) for m, tt in e]
                    new = [s.letter(m, x, tt != t) for m, x, tt in (reversed(e) if t else e)]
                    w[i:i + 1] = new; ch = True; break
            if ch: continue
            for rot in (range(len(w)) if cyclic else (0,)):
                v = w[rot:] + w[:rot] if rot else w
                for l, r in s.rules:
                    for i in range(len(v) - len(l) + 1):
                        if all(s.same(p, x) for p, x in zip(l, v[i:i + len(l)])):
                            if r is None: return None
                            w = v[:i] + [("V", (m, ()), False) if n == "V" else s.letter(n, (), m) for n, m in r] + v[i + len(l):]; ch = True; break
                    if ch: break
                if ch: break
        return w
    def revw(s, w): return [x if x[0] in ("V", "O") else s.letter(x[0], x[1], not x[2]) for x in reversed(w)]
    def wkey(s, w): return tuple((n, tuple(key(z) for z in ex) if n not in ("V", "O") else (ex[0], tuple(key(z) for z in ex[1])) if isinstance(ex, tuple) else key(ex), t) for n, ex, t in w)
    def mono(s, m, ctx):
        """monomial -> list of (scalar poly, words)"""
        scal = []; fac = []; binders = []
        for a, e in m:
            if a.op == "sum" and isnum(e) and val(e).denominator == 1 and val(e) > 0:
                for _ in range(int(val(e))): s.flat(a, binders, fac)
            elif a.op == "app" and a.a[0] in s.mats | s.vecs and isnum(e) and val(e).denominator == 1 and val(e) > 0: fac += [(a, ONE)] * int(val(e))
            else: scal.append((a, e))
        bs = {v for v, _ in binders}; legs = {v: [] for v in bs}; nodes = []; open_ = []
        one = {v: [] for v in bs}
        def node(n, ex, l, r):
            k = len(nodes); nodes.append((n, ex)); 
            for side, x in ((0, l), (1, r)):
                if x in bs: legs[x].append((k, side))
                else: open_.append((k, side, x))
        for a, e in fac:
            f = fv(a) & bs | fv(e) & bs
            ints = isnum(e) and val(e).denominator == 1 and val(e) > 0
            if a.op == "app" and a.a[0] in s.mats and ints:
                l, r = a.a[-2:]
                for x in (l, r):
                    if x not in bs and fv(x) & bs: raise NoWord("index %s" % x)
                if any(fv(z) & bs for z in a.a[1:-2]): raise NoWord("parameter of %s" % a)
                for _ in range(int(val(e))): node(a.a[0], a.a[1:-2], l, r)
            elif not f: scal.append((a, e))
            elif len(f) == 1:
                v, = f; one[v].append((subst(a, {v: MARK1}), subst(e, {v: MARK1})))
            else: raise NoWord("factor with indices %s" % f)
        for v, L in one.items():
            if not L: continue
            if len(legs[v]) == 2: raise NoWord("three factors share an index")
            if len(legs[v]) == 0:
                # two vectors
                if len(L) == 2 and all(e is ONE for _, e in L):
                    k = len(nodes); nodes.append(("V", s.vec(L[:1]))); legs[v].append((k, 0)); L = L[1:]
                elif len(L) == 1 and isnum(L[0][1]) and val(L[0][1]) == 2:
                    L = [(L[0][0], ONE)]; k = len(nodes); nodes.append(("V", s.vec(L))); legs[v].append((k, 0))
                else: L = list(L)
            k = len(nodes); nodes.append(("V", s.vec(L))); legs[v].append((k, 0))
        for v, n in binders:
            while len(legs[v]) < 2: k = len(nodes); nodes.append(("V", ("ones", (n,)))); legs[v].append((k, 0))
            if len(legs[v]) > 2: raise NoWord("index %s joins %d factors" % (v, len(legs[v])))
        for k, side, x in open_: j = len(nodes); nodes.append(("O", x)); legs[("o", k, side)] = [(k, side), (j, 0)]
        partner = {}
        for L in legs.values(): partner[L[0]] = L[1]; partner[L[1]] = L[0]
        words = []; seen = set()
        ends = [k for k, (n, ex) in enumerate(nodes) if n in ("V", "O")]
        def walk(k0, side):
            """letters met when leaving node k0 through `side`"""
            out = []; k, sd = partner[(k0, side)]
            while True:
                n, ex = nodes[k]; seen.add(k)
                if n in ("V", "O"): out.append((n, ex, False)); return out
                out.append(s.letter(n, ex, sd == 1)); nx = (k, 1 - sd)
                if k == k0 and False: return out
                k, sd = partner[nx]
                if (k, sd) == first[0]: return out
        first = [None]
        for k in ends:
            if k in seen: continue
            seen.add(k); words.append(("chain", [(nodes[k][0], nodes[k][1], False)] + walk(k, 0)))
        for k in range(len(nodes)):
            if k in seen: continue
            first[0] = (k, 0); seen.add(k); n, ex = nodes[k]
            w = [s.letter(n, ex, False)]
            if partner[(k, 1)] != (k, 0): w += walk(k, 1)
            words.append(("cycle", w)); first[0] = None
        P = {sorted_mono(dict(scal)): Fraction(1)} if scal else pconst(1); keys = []
        for kind, w in words:
            w = s.reduce(w, kind == "cycle")
            if w is None: return None
            if kind == "cycle":
                if not w: raise NoWord("trace of the identity")
                cands = [w[i:] + w[:i] for i in range(len(w))]; cands += [s.revw(c) for c in cands]
                keys.append(("cycle", min(s.wkey(c) for c in cands)))
            else:
                if len(w) == 2 and "O" in (w[0][0], w[1][0]):
                    a, b = w if w[0][0] == "O" else (w[1], w[0])
                    if b[0] == "O": P = pmul(P, norm(ite(eq(a[1], b[1]), ONE, ZERO), ctx), ctx)
                    else: P = pmul(P, norm(s.unvec(b[1], a[1]), ctx), ctx)
                    continue
                if len(w) == 3 and w[0][0] == "O" and w[2][0] == "O":
                    l, (n, ex, t), r = w; i, j = (r[1], l[1]) if t else (l[1], r[1])
                    if n in s.sym and key(j) < key(i): i, j = j, i
                    P = pmul(P, patom(app(n, *ex, i, j)), ctx); continue
                keys.append(("chain", min(s.wkey(w), s.wkey(s.revw(w)))))
        return tuple(sorted(keys)), P
    def vec(s, L):
        if len(L) == 1 and L[0][1] is ONE and L[0][0].op == "app" and L[0][0].a[0] in s.vecs: return (L[0][0].a[0], L[0][0].a[1:])
        L = sorted(L, key=lambda x: key(x[0])); return ("expr", tuple(power(a, e) if e is not ONE else a for a, e in L))
    def unvec(s, ex, x):
        n, a = ex
        if n == "ones": return ONE
        if n == "expr": return mul(*[subst(z, {MARK1: x}) for z in a])
        return app(n, *[subst(z, {MARK1: x}) for z in a])
    def flat(s, a, binders, fac):
        ren = {}
        for v, k in a.a[0]:
            w = var("mw!%d" % next(nm._sumctr), "I"); binders.append((w, subst(k, ren))); ren[v] = w
        b = subst(a.a[1], ren)
        for x in (b.a if b.op == "*" else (b,)):
            if x.op == "sum": s.flat(x, binders, fac)
            elif x.op == "pow": fac.append((x.a[0], x.a[1]))
            else: fac.append((x, ONE))
    def zero(s, t, ctx, show=None):
        """prove t = 0"""
        P = norm(t, ctx); acc = {}
        for m, c in P.items():
            try: r = s.mono(m, ctx)
            except NoWord as e:
                return Proof(False, "not a matrix word: %s" % e, npoly_T(P))
            if r is None: continue
            k, q = r; acc[k] = padd(acc.get(k, {}), q, c)
        bad = {k: q for k, q in acc.items() if q and not prove_zero_poly(q, ctx, 0, 6)}
        if show is not None: show.extend(bad.items())
        return Proof(True, "matrix words") if not bad else Proof(False, "matrix words differ", npoly_T(P))
