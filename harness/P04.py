"""P04: every sampling method on random boxes: size, box, affine scaling, frame."""
from common import *
from smt.sampling_methods import LHS, FullFactorial, Random
from smt.sampling_methods.sampling_method import _scale_to_xlimits, ScaledSamplingMethod

def limits(H, nx):
    c = 10.0 ** H.rng.randint(-6, 7, size=(nx, 1)) * H.rng.randn(nx, 1); w = 10.0 ** H.rng.randint(-6, 7, size=(nx, 1)) * H.rng.rand(nx, 1)
    if H.rng.rand() < .15: w[H.rng.randint(nx)] = 0
    k = H.rng.randint(3)
    if k == 0: return np.hstack([c, c + w])
    if k == 1: return np.hstack([-c - w, -c])
    return np.sort(H.rng.randn(nx, 2), axis=1)

class Unit(ScaledSamplingMethod):
    def _compute(self, nt): self.n = nt; return self.pts

def run(H):
    CR = ("center", "maximin", "centermaximin", "correlation", "c", "m", "cm", "corr", "ese")
    for r in range(H.n(40, 400)):
        nx, n = H.rng.randint(1, 6), H.rng.randint(1, 25); xl = limits(H, nx); keep = xl.copy(); inp = dict(xlimits=keep, n=n)
        with H.case("scale", str(r), inp):
            s = H.rng.rand(n, nx); s[0, :] = 0; s[-1, :] = 1 if n > 1 else 0
            u = Unit(xlimits=xl); u.pts = s.copy(); x = u(n)
            H.ok(u.n == n, "request", "method asked for %s points instead of %d" % (u.n, n), inp)
            H.close(x, keep[:, 0] + s * (keep[:, 1] - keep[:, 0]), "affine", "unit cube not mapped affinely", inp, rtol=1e-12, atol=1e-12 * np.abs(keep).max())
            H.close(_scale_to_xlimits(s.copy(), xl), x, "affine", "_scale_to_xlimits", inp, rtol=0, atol=0)
            H.ok(np.array_equal(xl, keep), "frame", "limits modified", inp)
        for nm in ("Random", "FullFactorial", "FullFactorial.clip") + tuple("LHS." + c for c in CR):
            if nm == "LHS.ese" and (r % 8 or H.left() < 60): continue
            cr = nm[4:]
            if cr[0:1] == "m" or cr in ("centermaximin", "cm"): m = max(n, 2); d = nx
            elif cr.startswith("corr"): m = max(n, 3); d = nx
            else: m, d = n, nx
            if cr.startswith("corr") and nx < 2: continue
            if nm == "LHS.ese": m = min(m, 10)
            inp = dict(method=nm, xlimits=keep, n=m)
            with H.case("box." + nm, str(r), inp):
                if nm.startswith("LHS"):
                    rs = (None, r, np.random.RandomState(r))[r % 3]
                    sm = LHS(xlimits=xl, criterion=cr, random_state=rs) if rs is not None else LHS(xlimits=xl, criterion=cr)
                elif nm == "Random": sm = Random(xlimits=xl)
                else:
                    kw = {} if r % 2 else dict(weights=list(H.rng.rand(nx) + .05))
                    sm = FullFactorial(xlimits=xl, clip=nm.endswith("clip"), **kw)
                for q in range(2):
                    x = sm(m)
                    H.ok(x.ndim == 2 and x.shape[1] == nx and (x.shape[0] == m or (nm.endswith("clip") and x.shape[0] >= m)), "size", "shape %s for %d points in %d dimensions" % (x.shape, m, nx), inp)
                    tol = 1e-12 * (np.abs(keep).max(axis=1) + 1e-300)
                    H.ok(np.all(x >= keep[:, 0] - tol) and np.all(x <= keep[:, 1] + tol), "box", "points outside the limits", inp)
                    H.ok(np.array_equal(xl, keep), "frame", "limits modified", inp)

if __name__ == "__main__": main(run)
