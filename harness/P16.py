"""P16: IDW against the weight formula computed independently."""
from common import *
from smt.surrogate_models import IDW

def idw(xt, yt, x, p):
    d = np.sqrt(((x[:, None, :] - xt[None]) ** 2).sum(2)); W = np.zeros(d.shape)
    for i in range(len(x)):
        if (d[i] == 0).any(): W[i] = d[i] == 0
        else:
            w = (d[i].min() / d[i]) ** p; W[i] = w / w.sum()
    return W
def didw(xt, yt, x, p, k):
    d2 = ((x[:, None, :] - xt[None]) ** 2).sum(2); out = np.zeros((len(x), yt.shape[1]))
    W = idw(xt, yt, x, p)
    for i in range(len(x)):
        if (d2[i] == 0).any(): continue
        l = -p * (x[i, k] - xt[:, k]) / d2[i]        # d log w
        out[i] = (W[i] * (l - W[i] @ l)) @ yt
    return out

def run(H):
    for rep_ in range(H.n(4, 30)):
        for nx in (1, 2, 3, 5):
            for nt in (1, 2, 7, 20):
                for p in (1, 2, 2.5, 4):
                    ny = 1 + H.rng.randint(3); sc = 10 ** H.rng.uniform(-2, 2)
                    xt = H.rng.uniform(-1, 1, (nt, nx)) * sc; yt = H.rng.randn(nt, ny)
                    x = H.rng.uniform(-1.5, 1.5, (6, nx)) * sc
                    x[3] = xt[H.rng.randint(nt)]; x[4] = xt[nt - 1]; x[5] = xt[0] + 50 * sc
                    inp = dict(xt=xt, yt=yt, x=x, p=p); xc = x.copy()
                    with H.case("IDW", "nx=%d nt=%d p=%g" % (nx, nt, p), inp):
                        sm = IDW(print_global=False, p=p); sm.set_training_values(xt, yt); sm.train()
                        W = idw(xt, yt, x, p)
                        y = sm.predict_values(x)
                        H.close(y, W @ yt, "value", "prediction is not the inverse-distance average", inp, 1e-7, 1e-9)
                        H.ok((y <= yt.max(0) + 1e-9).all() and (y >= yt.min(0) - 1e-9).all(), "range", "prediction outside the range of the outputs", inp)
                        H.close(y[3:5], np.array([yt[np.where((xt == x[3]).all(1))[0][0]], yt[nt - 1]]), "interpolation", "training output not returned at a training point", inp)
                        for k in range(nx):
                            D = didw(xt, yt, x, p, k); m = np.array([0, 1, 2, 5]) if p <= 1 else np.arange(6)
                            H.close(sm.predict_derivatives(x, k)[m], D[m], "derivative", "derivative %d is not the prediction's" % k, dict(inp, kx=k), 1e-6, 1e-7 * (1 + np.abs(D).max()))
                        o = sm.predict_output_derivatives(x)[None]
                        H.close(o, np.repeat(W[:, :, None], ny, 2), "output", "output derivatives are not the weights", inp, 1e-7, 1e-9)
                        H.ok((x == xc).all(), "frame", "evaluation points modified", inp)
                        H.close(sm.predict_values(x[1:2]), (W @ yt)[1:2], "value1", "one point", inp, 1e-7, 1e-9)
    with H.case("IDW.retrain"):
        sm = IDW(print_global=False, p=2.5)
        for nx, nt, ny in ((2, 6, 1), (3, 9, 2), (1, 4, 1)):
            xt = H.rng.rand(nt, nx); yt = H.rng.randn(nt, ny); x = H.rng.rand(4, nx); inp = dict(xt=xt, yt=yt, x=x)
            sm.set_training_values(xt, yt); sm.train()
            H.close(sm.predict_values(x), idw(xt, yt, x, 2.5) @ yt, "retrain", "after retraining", inp, 1e-7)
            H.close(sm.predict_derivatives(x, nx - 1), didw(xt, yt, x, 2.5, nx - 1), "retrain.d", "derivative after retraining", inp, 1e-6, 1e-7)
main(run)
