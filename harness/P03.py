"""P03: prediction entry points on an instrumented model and on every real model."""
from common import *
import smt.surrogate_models as S
from smt.surrogate_models.surrogate_model import SurrogateModel
from smt.applications import MFK, MFKPLS, MFKPLSK

class Probe(SurrogateModel):
    """model that records what it is asked, answers arbitrary data and overwrites its argument where the interface hands it a private copy"""
    @property
    def name(self): return "Probe"
    def _initialize(self): self.log = []
    def ans(self, q, x, kx=None, mut=False):
        self.log.append((q, np.array(x), kx)); n = len(x)
        out = self.A[:n * self.ny].reshape((n, self.ny)) if self.form == 0 else self.A[:n * self.ny].copy()
        if mut: x[...] = -1e9
        return out
    def _predict_values(self, x): return self.ans("values", x, mut=True)
    def _predict_derivatives(self, x, kx): return self.ans("derivatives", x, kx)
    def _predict_variances(self, x): return self.ans("variances", x, mut=True)
    def _predict_variance_derivatives(self, x): return self.ans("variance_derivatives", x)
    def _predict_output_derivatives(self, x): return {None: self.ans("output_derivatives", x)}
QS = ("values", "derivatives", "variances", "variance_derivatives", "output_derivatives")
def ask(sm, q, x, kx=0): return sm.predict_derivatives(x, kx) if q == "derivatives" else getattr(sm, "predict_" + q)(x)

def probe(H):
    for q in QS:
        for rep_ in range(H.n(20, 100)):
            nx, ny, n = H.rng.randint(1, 6), H.rng.randint(1, 4), H.rng.randint(1, 8)
            sm = Probe(print_global=bool(H.rng.randint(2))); sm.nx, sm.ny, sm.nt = nx, ny, 3; sm.form = H.rng.randint(2) if q in ("values", "derivatives", "variances") else 0
            sm.A = H.rng.randn(n * ny)
            if q != "values": sm.supports[q] = True
            x = H.rng.randn(n, nx)
            lay = H.rng.randint(3)
            if lay == 1: x = np.asfortranarray(x)
            if lay == 2: x = np.repeat(x, 2, axis=0)[::2]
            if nx == 1 and H.rng.rand() < .5: x = x[:, 0].copy()
            keep = x.copy(); kx = int(H.rng.randint(nx)); inp = dict(query=q, x=keep, kx=kx, nx=nx, ny=ny)
            with H.case("probe." + q, str(rep_), inp):
                with quiet(): r = ask(sm, q, x, kx)
                if q == "output_derivatives": r = r[None]
                H.ok([l[0] for l in sm.log] == [q], "dispatch", "model asked %s for predict_%s" % ([l[0] for l in sm.log], q), inp)
                if sm.log:
                    H.close(sm.log[0][1], keep.reshape(n, nx), "points", "model evaluated at other points", inp, rtol=0, atol=0)
                    if q == "derivatives": H.ok(sm.log[0][2] == kx, "direction", "model asked for direction %s" % sm.log[0][2], inp)
                H.close(r, sm.A.reshape(n, ny) if sm.form == 0 or True else 0, "answer", "answer of the model not returned", inp, rtol=0, atol=0)
                H.ok(np.array_equal(x, keep), "frame", "caller's array modified by predict_" + q, inp)
            with H.case("probe.reject." + q, str(rep_), inp):
                sm.log.clear()
                for bad in (H.rng.randn(n, nx + 1), H.rng.randn(n, nx + 3)) + ((H.rng.randn(n, nx - 1), H.rng.randn(n)) if nx > 1 else ()) + (H.rng.randn(n, nx, 2),):
                    with quiet(): H.raises(lambda: ask(sm, q, bad, 0), "columns", "predict_%s accepts shape %s for nx=%d" % (q, bad.shape, nx), inp)
                if q != "values":
                    sm.supports[q] = False
                    with quiet(): H.raises(lambda: ask(sm, q, H.rng.randn(n, nx), 0), "support", "predict_%s without declared support" % q, inp)
                H.ok(not sm.log, "before", "model evaluated before the rejection", inp)

def models(H, nx):
    lim = np.array([[0., 1.]] * nx)
    for nm, kw in (("KRG", {}), ("KRG", dict(corr="abs_exp", poly="linear")), ("KRG", dict(corr="matern52")), ("KPLS", dict(n_comp=1)), ("KPLSK", dict(n_comp=1)), ("LS", {}), ("QP", {}), ("IDW", {}), ("RBF", {}), ("RBF", dict(poly_degree=1)),
                   ("RMTB", dict(xlimits=lim, num_ctrl_pts=6)), ("RMTC", dict(xlimits=lim, num_elements=4)), ("GENN", dict(num_iterations=2, num_epochs=2)), ("GEKPLS", dict(n_comp=1, extra_points=min(1, nx), xlimits=lim))):
        if not hasattr(S, nm): continue
        if nx == 1 and nm in ("KPLS", "KPLSK", "GEKPLS"): continue
        yield nm, kw, getattr(S, nm)

def run(H):
    probe(H)
    for nx in (1, 2, 3):
        for nm, kw, cls in models(H, nx):
            ny = 1
            x = H.rng.rand(20, nx); y = np.sum(np.sin(3 * x), 1, keepdims=True)
            inp = dict(model=nm, options=str(kw), nx=nx)
            with H.case("real." + nm, "nx=%d" % nx, inp):
                sm = cls(print_global=False, **{k: (lim if k == "xlimits" else v) for k, v in kw.items() for lim in (np.array([[0., 1.]] * nx),)})
                sm.set_training_values(x, y)
                if sm.supports["training_derivatives"]:
                    for k in range(nx): sm.set_training_derivatives(x, 3 * np.cos(3 * x[:, k:k + 1]), k)
                np.random.seed(0)
                with quiet(): sm.train()
                q_ = H.rng.rand(6, nx)
                for q in QS:
                    if q == "variance_derivatives": continue
                    if q == "derivatives" and kw.get("corr", "squar_exp") != "squar_exp": continue   # documented: only for squar_exp
                    if q != "values" and not sm.supports[q]:
                        H.raises(lambda: ask(sm, q, q_, 0), "support", "%s answers predict_%s without declaring it" % (nm, q), inp); continue
                    for bad in (np.hstack([q_, q_[:, :1]]), np.zeros((4, nx + 2))) + ((q_[:, :-1],) if nx > 1 else ()):
                        H.raises(lambda: ask(sm, q, bad, 0), "columns", "%s.predict_%s accepts %d columns" % (nm, q, bad.shape[1]), inp)
                    for kx in (range(nx) if q == "derivatives" else (0,)):
                        base = None
                        for lay in range(4 if nx == 1 else 3):
                            xx = q_.copy() if lay == 0 else np.asfortranarray(q_) if lay == 1 else np.repeat(q_, 2, axis=0)[::2] if lay == 2 else q_[:, 0].copy()
                            keep = xx.copy()
                            r = ask(sm, q, xx, kx)
                            H.ok(np.array_equal(xx, keep), "frame", "%s.predict_%s modifies the caller's array" % (nm, q), inp)
                            if q == "output_derivatives": r = np.asarray(r[None])
                            else: H.ok(r.shape == (6, ny), "shape", "%s.predict_%s has shape %s" % (nm, q, r.shape), inp)
                            if base is None: base = np.array(r)
                            else: H.close(r, base, "layout", "%s.predict_%s depends on the memory layout of x" % (nm, q), dict(inp, layout=lay), rtol=1e-9, atol=1e-10)
                        if q != "output_derivatives":
                            one = np.vstack([ask(sm, q, q_[i:i + 1].copy(), kx) for i in range(6)])
                            H.close(one, base, "rows", "%s.predict_%s of several points differs from point by point" % (nm, q), inp, rtol=1e-6, atol=1e-8)
main(run)
