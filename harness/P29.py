"""P29: compute_rms_error against the definition, for models with known predictions."""
from common import *
from smt.utils.misc import compute_rms_error
from smt.surrogate_models.surrogate_model import SurrogateModel

class Fake(SurrogateModel):
    name = "Fake"
    def _initialize(self):
        super()._initialize()
        for k in ("training_derivatives", "derivatives"): self.supports[k] = True
    def _train(self): pass
    def _predict_values(self, x): return self.fv(x)
    def _predict_derivatives(self, x, kx): return self.fd(x, kx)

def run(H):
    for rep_ in range(H.n(60, 600)):
        nx, ny, n = H.rng.randint(1, 5), H.rng.randint(1, 4), H.rng.randint(1, 9)
        W = H.rng.randn(nx, 3 * 4)
        fv = lambda x: np.sin(x @ W[:, :sm.ny]) ; fd = lambda x, k: np.cos(x @ W[:, 3 * 1:3 + sm.ny]) * (k + 1.5)
        sm = Fake(print_global=False); sm.fv = fv; sm.fd = fd
        xt, yt = H.rng.randn(n, nx), H.rng.randn(n, ny)
        xd, yd = H.rng.randn(n + 2, nx), H.rng.randn(nx, n + 2, ny)
        have = [k for k in range(nx) if H.rng.rand() < .7]
        inp = dict(nx=nx, ny=ny, n=n, xt=xt, yt=yt, xd=xd, directions=have)
        with H.case("training", "nx=%d ny=%d" % (nx, ny), inp):
            sm.set_training_values(xt, yt); 
            for k in have: sm.set_training_derivatives(xd, yd[k], k)
            sm.train()
            rel = lambda p, r: np.sqrt(np.sum((p - r) ** 2)) / np.sqrt(np.sum(r ** 2))
            H.close(compute_rms_error(sm), rel(fv(xt), yt), "training", "error on the training values", inp)
            for k in range(nx):
                if k in have: H.close(compute_rms_error(sm, kx=k), rel(fd(xd, k), yd[k]), "training.kx", "error on the training derivatives, kx=%d" % k, dict(inp, kx=k))
                else: H.raises(lambda: compute_rms_error(sm, kx=k), "absent", "direction %d without training data" % k, inp)
        sm.ny = 1; q = H.rng.randn(n + 1, nx); qk = q.copy()
        with H.case("given", "nx=%d" % nx, inp):
            for ye in (H.rng.randn(n + 1), H.rng.randn(n + 1, 1)):
                yk = ye.copy()
                H.close(compute_rms_error(sm, q, ye), rel(fv(q), ye.reshape(-1, 1)), "given", "error on given values", dict(inp, xe=q, ye=ye))
                for k in range(nx): H.close(compute_rms_error(sm, q, ye, k), rel(fd(q, k), ye.reshape(-1, 1)), "given.kx", "error on given derivatives kx=%d" % k, dict(inp, xe=q, ye=ye))
                H.ok(np.array_equal(q, qk) and np.array_equal(ye, yk), "frame", "arguments modified", inp)
            H.close(compute_rms_error(sm, q, fv(q)), 0.0, "zero", "exact predictions give zero", inp)
            H.ok(compute_rms_error(sm, q, fv(q) + 1) > 0, "nonzero", "wrong predictions give a positive error", inp)
main(run)
