"""P05: Latin hypercubes: one point per cell, exchanges permute columns, incremental measure equals the recomputed one."""
from common import *
from smt.sampling_methods import LHS
import smt.sampling_methods.lhs as M

def latin(u):
    n = len(u)
    return all(np.array_equal(np.sort(np.clip(np.floor(u[:, k] * n + 1e-9).astype(int), 0, n - 1)), np.arange(n)) for k in range(u.shape[1]))
def phip(X, p):
    n = len(X); s = 0.
    for i in range(n):
        for j in range(i): s += np.sqrt(np.sum((X[i] - X[j]) ** 2)) ** (-float(p))
    return s ** (1. / p)

def run(H):
    CR = ("center", "maximin", "centermaximin", "correlation", "c", "m", "cm", "corr", "ese")
    for r in range(H.n(60, 600)):
        nx, n = H.rng.randint(1, 6), H.rng.randint(2, 16); p = int(H.rng.randint(1, 14))
        X = M.lhs(nx, samples=n, criterion=None, random_state=H.rng)
        sm = LHS(xlimits=np.array([[0., 1.]] * nx), criterion="ese"); sm.random_state = np.random.RandomState(r)
        inp = dict(X=X, p=p)
        with H.case("phip", str(r), inp):
            K = X.copy(); H.close(sm._PhiP(X, p), phip(K, p), "phip", "space-filling measure", inp, rtol=1e-9); H.close(sm._PhiP(X), phip(K, 10), "phip", "default exponent", inp, rtol=1e-9)
            H.ok(np.array_equal(K, X), "frame", "design modified by _PhiP", inp)
        with H.case("exchange", str(r), inp, timeout=20):
            cur = X.copy(); v = phip(cur, p)
            for q in range(12):
                k = int(H.rng.randint(nx)); fixed = sorted(int(t) for t in H.rng.permutation(n)[:H.rng.randint(0, n - 1)]) if q % 3 == 0 and n > 2 else []
                old = cur.copy()
                v = sm._PhiP_exchange(cur, k=k, PhiP_=v, p=p, fixed_index=fixed)
                ch = np.argwhere(cur != old)
                H.ok(len(ch) in (0, 2) and all(c[1] == k for c in ch), "column", "exchange in column %d changed %s" % (k, ch.tolist()), inp)
                H.ok(np.array_equal(np.sort(cur, 0), np.sort(old, 0)), "values", "column values changed", inp)
                H.ok(not any(c[0] in fixed for c in ch), "fixed", "fixed row moved", inp)
                ref = phip(cur, p); sc = (phip(old, p) ** p + ref ** p); H.close(v ** p / sc, ref ** p / sc, "measure", "incremental measure after the exchange in column %d" % k, dict(before=old, after=cur, p=p), rtol=1e-9, atol=1e-9); v = ref
        if H.left() > 40 and r % 3 == 0:
            with H.case("maximin", str(r), inp, timeout=60):
                p = 1 + r % 4; X = M.lhs(nx, samples=n, criterion="c", random_state=H.rng); inp = dict(X=X, p=p)
                K = X.copy(); kw = dict(outer_loop=int(H.rng.randint(1, 4)), inner_loop=int(H.rng.randint(1, 12)), J=int(H.rng.randint(1, 6)), p=p)
                best, hist = sm._maximinESE(X, return_hist=True, **kw)
                H.ok(np.array_equal(np.sort(best, 0), np.sort(K, 0)), "values", "optimised design has other column values", inp)
                H.ok(np.array_equal(X, K), "frame", "starting design modified", inp)
                H.close(hist["PhiP"][-1], phip(best, p), "measure", "reported measure of the retained design", inp, rtol=1e-5)
                H.ok(phip(best, p) <= phip(K, p) * (1 + 1e-6), "improve", "retained design worse than the start", inp)
                H.ok(all(b <= a * (1 + 1e-9) for a, b in zip(hist["PhiP"], hist["PhiP"][1:])), "monotone", "history of the best measure increases", inp)
                best2 = sm._maximinESE(X, T0=1., **kw)
                H.ok(np.array_equal(np.sort(best2, 0), np.sort(K, 0)), "values", "optimised design has other column values", inp)
    for r in range(H.n(30, 200)):
        nx, n = H.rng.randint(1, 6), H.rng.randint(1, 25)
        lo = H.rng.randn(nx) * 5; w = H.rng.rand(nx) * 9 + .1; xl = np.c_[lo, lo + w]
        for cr in CR:
            m = max(n, 3) if cr.startswith("corr") else max(n, 2) if cr in ("maximin", "m", "cm", "centermaximin") else n
            if cr.startswith("corr") and nx < 2: continue
            if cr == "ese":
                m = min(m, 9)
                if r % 5 or H.left() < 40: continue
            inp = dict(criterion=cr, xlimits=xl, n=m, random_state=r)
            with H.case("latin." + cr, str(r), inp, timeout=60):
                sm = LHS(xlimits=xl, criterion=cr, random_state=r)
                for q in range(2): H.ok(latin((sm(m) - lo) / w), "latin", "not one point per cell", inp)

if __name__ == "__main__": main(run)
