"""P20: LS / QP against numpy.linalg.lstsq and exact polynomial algebra."""
from common import *
from smt.surrogate_models import LS, QP

def basis(x, deg):
    n, d = x.shape
    c = [np.ones(n)] + [x[:, i] for i in range(d)]
    if deg == 2:
        c += [x[:, i] ** 2 for i in range(d)] + [x[:, i] * x[:, j] for i in range(d) for j in range(i + 1, d)]
    return np.array(c).T
def dbasis(x, deg, k):
    n, d = x.shape
    c = [np.zeros(n)] + [np.full(n, float(i == k)) for i in range(d)]
    if deg == 2:
        c += [2 * x[:, i] * (i == k) for i in range(d)]
        c += [x[:, j] * (i == k) + x[:, i] * (j == k) for i in range(d) for j in range(i + 1, d)]
    return np.array(c).T

def run(H):
    for rep_ in range(H.n(3, 25)):
        for d in (1, 2, 3, 4, 6):
            for ny in (1, 2, 3):
                for name, cls, deg in (("LS", LS, 1), ("QP", QP, 2)):
                    m = (d + 1) if deg == 1 else (d + 1) * (d + 2) // 2
                    for nt in (m, m + 1, m + 15):
                        x = H.rng.uniform(-2, 2, (nt, d)) * H.rng.uniform(0.5, 3) + H.rng.uniform(-1, 1); y = H.rng.randn(nt, ny)
                        if nt > m and H.rng.rand() < .5: y = basis(x, deg) @ H.rng.randn(m, ny)
                        A = basis(x, deg)
                        if np.linalg.cond(A) > 1e3 or (name == "LS" and nt == 1): continue
                        q = H.rng.uniform(-3, 3, (7, d))
                        inp = dict(model=name, xt=x, yt=y, x=q)
                        with H.case(name, "d=%d ny=%d nt=%d" % (d, ny, nt), inp):
                            sm = cls(print_global=False); sm.set_training_values(x, y); sm.train()
                            co = np.linalg.lstsq(A, y, rcond=None)[0]
                            H.close(sm.predict_values(q), basis(q, deg) @ co, "value", name + " is not the least-squares polynomial", inp, rtol=1e-6, atol=1e-6)
                            for k in range(d):
                                H.close(sm.predict_derivatives(q, k), dbasis(q, deg, k) @ co, "derivative", "%s derivative %d is not the polynomial's" % (name, k), dict(inp, kx=k), rtol=1e-6, atol=1e-6)
                            H.close(sm.predict_values(q[2:3]), (basis(q, deg) @ co)[2:3], "value1", name + " at one point", inp, rtol=1e-6, atol=1e-6)
    for d in (1, 2, 4):
        m = (d + 1) * (d + 2) // 2
        with H.case("QP.reject", "d=%d" % d):
            x = H.rng.rand(m - 1, d); sm = QP(print_global=False); sm.set_training_values(x, x[:, :1])
            H.raises(sm.train, "fewpoints", "fewer points than monomials", dict(xt=x))
    # retraining with other data (history)
    for name, cls, deg in (("LS", LS, 1), ("QP", QP, 2)):
        with H.case(name + ".retrain"):
            sm = cls(print_global=False)
            for d, ny in ((2, 1), (3, 2), (1, 1)):
                m = (d + 1) * (d + 2) // 2 + 5
                x = H.rng.uniform(-1, 1, (m, d)); y = H.rng.randn(m, ny)
                sm.set_training_values(x, y); sm.train()
                co = np.linalg.lstsq(basis(x, deg), y, rcond=None)[0]
                q = H.rng.uniform(-1, 1, (4, d))
                H.close(sm.predict_values(q), basis(q, deg) @ co, "retrain", name + " after retraining", dict(xt=x, yt=y, x=q), rtol=1e-6, atol=1e-6)
                for k in range(d):
                    H.close(sm.predict_derivatives(q, k), dbasis(q, deg, k) @ co, "retrain.d", name + " derivative after retraining", dict(xt=x, yt=y, x=q, kx=k), rtol=1e-6, atol=1e-6)
main(run)
