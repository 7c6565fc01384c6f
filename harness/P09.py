"""P09: mixed-integer models of the real code see only projected points."""
from common import *
from P08 import spec, width, points, ref_expand, ref_cast
from smt.applications.mixed_integer import MixedIntegerContext, MixedIntegerSamplingMethod, MixedIntegerSurrogateModel, FLOAT, INT, ENUM
from smt.surrogate_models import KRG, KPLS, QP, IDW, RBF
from smt.sampling_methods import LHS, Random, FullFactorial

class Fake:
    """records what it is given"""
    name = "Fake"
    def __init__(s): s.supports = {"derivatives": True, "variances": True, "training_derivatives": True}; s.log = []
    def set_training_values(s, x, y, name=None): s.log.append(("set", np.array(x), np.array(y), name))
    def update_training_values(s, y, name=None): s.log.append(("update", np.array(y), name))
    def _train(s): s.log.append(("train",))
    def f(s, x): w = 1 + np.arange(x.shape[1]) ** 1.5; return np.c_[np.sin(x.dot(w)), np.cos(x.dot(w[::-1]))]
    def predict_values(s, x): return s.f(np.asarray(x))
    def predict_variances(s, x): return s.f(np.asarray(x)) ** 2 + 1

def run(H):
    for r in range(H.n(60, 500)):
        if H.left() < 60: break
        t, xl = spec(H.rng); n, m = H.rng.randint(1, 7), H.rng.randint(1, 6); x = points(H.rng, t, xl, n); y = H.rng.randn(n, 2); z = points(H.rng, t, xl, m); nm = [None, 2, "lf"][r % 3]
        W = sum(width(t)); rel = H.rng.rand(m, W) * 4 - 2
        for folded in (True, False):
            inp = dict(types=[list(a) if isinstance(a, tuple) else a for a in t], xlimits=xl, xt=x, yt=y, folded=folded, name=nm)
            with H.case("model", "%d %s" % (r, folded), inp):
                s = Fake(); c = MixedIntegerContext(t, xl, work_in_folded_space=folded); sm = c.build_surrogate_model(s); X = x if folded else ref_expand(t, x); kx = X.copy()
                sm.set_training_values(X, y, *(() if nm is None else (nm,)))
                H.ok([q[0] for q in s.log] == ["set"], "train.calls", "wrapped model got %s" % [q[0] for q in s.log], inp)
                _, gx, gy, gn = s.log[0]; H.close(gx, ref_cast(t, ref_expand(t, x)), "train.x", "training inputs of the wrapped model", inp); H.close(gy, y, "train.y", "training outputs of the wrapped model", inp); H.ok(gn == nm, "train.name", "name %r, given %r" % (gn, nm), inp)
                H.close(sm.training_points[nm][0][0], gx, "train.own", "own training inputs", inp); H.close(sm.training_points[nm][0][1], y, "train.own", "own training outputs", inp)
                sm.update_training_values(-y, *(() if nm is None else (nm,))); H.ok(s.log[-1][0] == "update" and np.array_equal(s.log[-1][1], -y) and s.log[-1][2] == nm, "update", "update not passed on: %s" % (s.log[-1],), inp)
                H.close(sm.training_points[nm][0][1], -y, "update.own", "own outputs after the update", inp)
                sm._train(); H.ok(s.log[-1] == ("train",), "train", "wrapped model not trained", inp)
                pts = [z] if folded else [ref_expand(t, z), rel]
                for p in pts:
                    k = p.copy(); q = ref_cast(t, ref_expand(t, p) if folded else p)
                    H.close(sm.predict_values(p), s.f(q), "values", "values at the projection", dict(inp, x=p)); H.close(sm.predict_variances(p), s.f(q) ** 2 + 1, "variances", "variances at the projection", dict(inp, x=p))
                    H.ok(np.array_equal(k, p), "frame", "prediction points modified", inp)
                if not folded: H.close(sm.predict_values(rel), sm.predict_values(ref_cast(t, rel)), "same", "two points with the same projection", dict(inp, x=rel))
                H.ok(np.array_equal(kx, X), "frame", "training inputs modified", inp)
            with H.case("sampling", "%d %s" % (r, folded), inp):
                M = [LHS, Random, FullFactorial][r % 3]; nt = int(H.rng.randint(2, 12)); kw = dict(random_state=r) if M is LHS else {}
                np.random.seed(r); d = MixedIntegerContext(t, xl, work_in_folded_space=folded).build_sampling_method(M, **kw)(nt)
                H.ok(d.shape == (nt, len(t) if folded else W), "sampling.shape", "shape %s" % (d.shape,), inp)
                u = ref_expand(t, d) if folded else d; H.close(ref_cast(t, u), u, "sampling.feasible", "%s: sampled points are not feasible" % M.__name__, inp)
                o = 0
                for i, a in enumerate(t):
                    w = width(t)[i]
                    if isinstance(a, tuple): H.close(u[:, o:o + w].sum(axis=1), np.ones(nt), "sampling.onehot", "%s: not one level per variable" % M.__name__, inp)
                    else: H.ok(np.all(u[:, o] >= xl[i][0] - 1e-9) and np.all(u[:, o] <= xl[i][1] + 1e-9), "sampling.box", "%s: points outside the limits of variable %d" % (M.__name__, i), inp)
                    o += w
    for r in range(H.n(3, 20)):
        if H.left() < 40: break
        t = [FLOAT, (ENUM, 3), INT]; xl = [[-1., 2.], ["a", "b", "c"], [0, 6]]; x = points(H.rng, t, xl, 30); y = H.rng.randn(30, 1)
        for mk in (lambda: KRG(print_global=False, theta0=[1e-1] * 5), lambda: IDW(print_global=False)):
            with H.case("real models", "%d" % r, dict(xt=x, yt=y)), quiet():
                a, b = mk(), mk(); sm = MixedIntegerSurrogateModel(t, xl, a); sm.set_training_values(x, y); sm.train(); e = ref_expand(t, x); b.set_training_values(e, y); b.train()
                z = points(H.rng, t, xl, 4); H.close(sm.predict_values(z), b.predict_values(ref_cast(t, ref_expand(t, z))), "real", "%s: values" % b.name, dict(xt=x, yt=y, x=z), rtol=1e-6, atol=1e-6)

if __name__ == "__main__": main(run)
