"""Matrix laws of the kriging system, shared by P13-P15: R = C C' (Cholesky), Ft = C^-1 F = Q G (QR), A = (F' R^-1 F)^-1."""
from pyvc.contract import *
from pyvc.matwords import Words
ASSUMPTIONS = ["scipy.linalg.cholesky returns the lower factor C of its argument R = C C'; scipy.linalg.qr returns Q, G with Q G = its argument and Q'Q = I; scipy.linalg.solve_triangular solves with the referenced triangle"]
LAWS = dict(mats=["inv_lower_C", "inv_upper_G", "Q", "Ft", "F", "Ri", "A", "R", "Rif", "upp"], sym=("Ri", "A", "R"), vecs=("y", "gamma"),
    expand={"Q": [("inv_lower_C", False), ("F", False), ("inv_upper_G", False)], "Ft": [("inv_lower_C", False), ("F", False)]},
    rules=[([("inv_lower_C", True), ("inv_lower_C", False)], [("Ri", False)]), ([("inv_upper_G", False), ("inv_upper_G", True)], [("A", False)]),
           ([("F", True), ("Ri", False), ("F", False), ("A", False)], []), ([("R", False), ("Ri", False)], []), ([("F", True), ("V", "gamma")], None)])
def words(**kw):
    d = dict(LAWS); d.update(kw); return Words(**d)
def check(vc, W, a, b, label, kind="post"):
    """a = b by the matrix laws"""
    import time
    from pyvc.interp import Obligation
    t0 = time.time(); show = []; r = W.zero(sub(S(a), S(b)), vc.it.ctx, show)
    vc.it.obligations.append(Obligation(kind, label, r.ok, r.how, time.time() - t0, None if r.ok else r.residual, None if r.ok else eq(S(a), S(b)), None if r.ok else vc.it.ctx.all_facts()))
    if not r.ok and getattr(vc, "debug", True): vc.last = show
    return r.ok
def check_arr(vc, W, a, shape, f, label):
    if not vc.check_shape(a, shape, label): return False
    rng = [num(d) for d in shape if not is1(num(d))]
    def go(*ix):
        it = iter(ix); idx = [ZERO if is1(num(d)) else next(it) for d in shape]
        return check(vc, W, a.get(tuple(idx)), f(*idx), label + ": elements")
    return vc.forall(rng, go)
def S2(n, f): i = fresh("i"); return Sum(i, n, f(i))
