"""P21: the real VFM with prescribed and with real surrogates against the combination of its models."""
from common import *
from smt.applications import VFM
from smt.surrogate_models import LS, QP
class Base:
    log = None
    def __init__(s, **o): s.opts = dict(o); s.options = {}; s.supports = {"derivatives": s.DER}; s.D = {}; s.ok = False; type(s).log.append(s)
    def set_training_values(s, x, y): s.x, s.y, s.nx, s.ny = np.array(x), np.array(y), x.shape[1], y.shape[1]
    def set_training_derivatives(s, x, d, k): s.D[k] = (np.array(x), np.array(d).ravel())
    def train(s): s.ok = True
    def predict_values(s, x): assert s.ok; w = s.W[:s.nx, None] * (1 + np.arange(s.ny)); return np.sin(x.dot(w)) + 2.5 + np.arange(s.ny)
    def predict_derivatives(s, x, kx): w = s.W[:s.nx, None] * (1 + np.arange(s.ny)); return np.cos(x.dot(w)) * w[kx]
def make(W, der):
    return type("M", (Base,), {"W": W, "DER": der, "log": []})
def run(H):
    rng = H.rng
    for r in range(H.n(80, 1000)):
        if H.left() < 30: break
        nx, nl, nh, n = rng.randint(1, 5), rng.randint(2, 7), rng.randint(2, 6), rng.randint(1, 6); kind = ("Additive", "Multiplicative")[r % 2]; lf, br = rng.rand() < .5, rng.rand() < .5; ny = 1 if lf or br else rng.randint(1, 4); der = r % 5 != 4 or br
        WL, WB = rng.randn(nx), rng.randn(nx); L, B = make(WL, der), make(WB, der)
        XL, YL, XH, YH, DL, DH = rng.randn(nl, nx), rng.randn(nl, ny), rng.randn(nh, nx), rng.randn(nh, ny), rng.randn(nl, nx), rng.randn(nh, nx); oL, oB = {"a": 1.}, {"b": [2.]}
        if lf or rng.rand() < .5: oL["deriv"] = bool(lf)
        if br or rng.rand() < .5: oB["deriv"] = bool(br)
        kL, kB = dict(oL), dict(oB); x = rng.randn(n, nx); data = [XL, YL, XH, YH, DL, DH, x]; keep = [d.copy() for d in data]; inp = dict(kind=kind, lf=lf, br=br, WL=WL, WB=WB, XL=XL, YL=YL, XH=XH, YH=YH, DL=DL, DH=DH, x=x)
        with quiet(), H.case("prescribed", str(r), inp):
            v = VFM(type_bridge=kind, name_model_LF=L, name_model_bridge=B, X_LF=XL, y_LF=YL, X_HF=XH, y_HF=YH, options_LF=oL, options_bridge=oB, **dict(({"dy_LF": DL} if lf else {}), **({"dy_HF": DH} if br else {})))
            y = v.predict_values(x); l, b = L.log[-1], B.log[-1]; m = kind == "Multiplicative"
            H.ok(len(L.log) == 1 and len(B.log) == 1 and l.opts == {"a": 1.} and b.opts == {"b": [2.]}, "options", "options given to the models %s %s" % (l.opts, b.opts), inp)
            H.close(y, b.predict_values(x) * l.predict_values(x) if m else b.predict_values(x) + l.predict_values(x), "combination", "combined prediction", inp)
            ph = l.predict_values(XH); H.close(b.y, YH / ph if m else YH - ph, "data", "bridge data", inp); H.ok(np.array_equal(b.x, XH) and np.array_equal(l.x, XL) and np.array_equal(l.y, YL), "data.points", "training points", inp)
            H.ok(sorted(l.D) == (list(range(nx)) if lf else []) and sorted(b.D) == (list(range(nx)) if br else []), "data.derivs", "training derivatives %s %s" % (sorted(l.D), sorted(b.D)), inp)
            for k in range(nx):
                if lf: H.close(l.D[k][1], DL[:, k], "data.dlf", "low-fidelity training derivatives", inp); H.ok(np.array_equal(l.D[k][0], XL), "data.dlfx", "points", inp)
                if br: H.close(b.D[k][1], ((DH[:, k:k+1] * ph - YH * l.predict_derivatives(XH, k)) / ph**2 if m else DH[:, k:k+1] - l.predict_derivatives(XH, k)).ravel(), "data.dbr", "bridge training derivatives", inp); H.ok(np.array_equal(b.D[k][0], XH), "data.dbrx", "points", inp)
                if der:
                    d = v.predict_derivatives(x, k); ref = b.predict_derivatives(x, k) * l.predict_values(x) + b.predict_values(x) * l.predict_derivatives(x, k) if m else b.predict_derivatives(x, k) + l.predict_derivatives(x, k)
                    H.close(d, ref, "derivatives", "derivative of the combination", inp)
                    if ny == 1: H.close(v.predict_derivatives(x, None)[:, k:k+1], ref, "derivatives.all", "all derivatives", inp)
            H.close(v.predict_values(x), y, "again", "second prediction", inp)
            H.ok(oL == kL and oB == kB, "frame.options", "option dictionaries altered: %s -> %s, %s -> %s" % (kL, oL, kB, oB), inp); H.ok(all(np.array_equal(a, b) for a, b in zip(data, keep)), "frame", "arguments modified", inp)
    N = ("LS", "QP", "KRG", "KPLS", "RBF", "IDW", "RMTC", "RMTB")
    for r in range(H.n(10, 60)):
        if H.left() < 30: break
        nx = 2; a, b = N[r % len(N)], N[(r * 3 + 1) % len(N)]; XL, XH, x = rng.rand(20, nx), rng.rand(9, nx), rng.rand(4, nx); f = lambda z: (np.sin(3 * z[:, :1]) + z[:, 1:]**2 + 3); g = lambda z: f(z) * (1.2 + .1 * z[:, :1]); kind = ("Additive", "Multiplicative")[(r // 2) % 2]
        def opts(q):
            o = {"print_global": False}
            if q.startswith("RMT"): o.update(xlimits=np.array([[0., 1.]] * nx), **({"num_ctrl_pts": 5, "order": 3} if q == "RMTB" else {"num_elements": 2}))
            if q == "KPLS": o.update(n_comp=1)
            return o
        oL, oB = opts(a), opts(b); kL, kB = dict(oL), dict(oB); inp = dict(LF=a, bridge=b, kind=kind, XL=XL, XH=XH, x=x)
        with quiet(), H.case("models", "%s %s" % (a, b), inp):
            v = VFM(type_bridge=kind, name_model_LF=a, name_model_bridge=b, X_LF=XL, y_LF=f(XL), X_HF=XH, y_HF=g(XH), options_LF=oL, options_bridge=oB); v.predict_values(x)
            H.ok(set(oL) == set(kL) and set(oB) == set(kB), "frame.options", "option dictionaries altered", inp); H.ok(v.options["name_model_LF"].__name__ == a and v.options["name_model_bridge"].__name__ == b, "names", "model names", inp)
            for k in range(nx):
                h = 1e-5; e = np.zeros(nx); e[k] = h
                if a in ("IDW",) or b in ("IDW",) or a in ("KRG", "KPLS") or b in ("KRG", "KPLS"): continue
                H.close(v.predict_derivatives(x, k), (v.predict_values(x + e) - v.predict_values(x - e)) / (2 * h), "models.derivatives", "derivative of the prediction", inp, rtol=1e-3, atol=1e-3)
if __name__ == "__main__": main(run)
