"""P22: real mixtures: memberships, recombination, split of the data, choice and retraining of the experts."""
from common import *
from scipy.stats import multivariate_normal as MVN
from smt.applications import moe as mod
from smt.applications.moe import MOE, MOESurrogateModel
from smt.surrogate_models import LS, QP, RBF, IDW, KRG
CLS = {"LS": LS, "QP": QP, "RBF": RBF, "IDW": IDW, "KRG": KRG}
NAMES = mod.MOE_EXPERT_NAMES

def member(m, x, dim, h):
    g = m.cluster; l = np.array([[np.log(g.weights_[k]) + MVN(g.means_[k][:dim], h * g.covariances_[k][:dim, :dim]).logpdf(p) for k in range(m.n_clusters)] for p in x])
    e = np.exp(l - l.max(axis=1, keepdims=True)); return e / e.sum(axis=1, keepdims=True)
def fun(rng, d):
    a, b = rng.randn(d), rng.randn(d)
    return lambda x: np.where(x[:, :1] > 0, x.dot(a)[:, None] * 2 + 1, np.sin(3 * x.dot(b))[:, None])
def watch(cls, log):
    class W(cls):
        def _cluster_values(s, v, c):
            r = super()._cluster_values(v, c); log.append(("cluster", np.array(v), np.array(c), [np.array(q) for q in r])); return r
        def _find_best_model(s, v):
            r = super()._find_best_model(v); log.append(("best", np.array(v), r)); return r
        def _extract_part(s, v, q):
            r = MOE._extract_part(v, q); log.append(("split", np.array(v), r)); return r
        def _fit(s, x, y, c, new_model=True):
            log.append(("fit", np.array(x), np.array(y), np.array(c), new_model)); return super()._fit(x, y, c, new_model)
    return W

def same_rows(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.array_equal(a[np.lexsort(a.T)], b[np.lexsort(b.T)])

def run(H):
    rng = H.rng
    for r in range(H.n(40, 300)):
        n, d, q = rng.randint(1, 60), rng.randint(1, 5), rng.randint(1, 15); v = rng.randn(n, d)
        with H.case("split", str(r), dict(n=n, d=d, q=q)):
            k = v.copy(); a, b = MOE._extract_part(v, q); H.ok(np.array_equal(v, k), "split.frame", "values modified")
            H.ok(same_rows(np.vstack([a, b]), v) and len(a) + len(b) == n, "split", "extracted %d and remaining %d rows of %d are not a partition" % (len(a), len(b), n), dict(n=n, d=d, q=q))
    for r in range(H.n(40, 300)):
        allow = list(rng.choice(NAMES, rng.randint(0, 5), replace=False)); deny = list(rng.choice(NAMES, rng.randint(0, 5), replace=False)); der, var = bool(rng.rand() < .5), bool(rng.rand() < .5)
        inp = dict(allow=allow, deny=deny, derivatives=der, variances=var)
        with quiet(), H.case("enabled", str(r), inp):
            ref = sorted(n for n, c in MOE._surrogate_type.items() if n in NAMES and (not allow or n in allow) and n not in deny and (not der or c().supports["derivatives"]) and (not var or c().supports["variances"]))
            try: got = sorted(MOE(allow=allow, deny=deny, derivatives_support=der, variances_support=var).enabled_experts)
            except ValueError: got = []
            H.ok(got == ref, "enabled", "enabled experts %s, expected %s" % (got, ref), inp)
    for r in range(H.n(24, 200)):
        if H.left() < 40: break
        d = rng.randint(1, 4); K = 1 + r % 3; n = rng.randint(30 + 12 * K, 90); f = fun(rng, d); x = rng.uniform(-1, 1, (n, d)); y = f(x) + .05 * rng.randn(n, 1)
        var = r % 6 == 5; allow = ["KRG"] if var else list(rng.choice(["LS", "QP", "RBF", "IDW"], rng.randint(1, 5), replace=False)) + (["RMTB"] if r % 12 == 7 and d == 1 else []); opt = dict(n_clusters=K, allow=allow, smooth_recombination=bool(r % 4 != 1), heaviside_optimization=bool(r % 3 == 1), variances_support=var)
        if r % 4 == 2: opt["ct"] = np.c_[y, -y ** 2]
        test = r % 5 == 3
        if test: opt["xtest"] = rng.uniform(-1, 1, (12, d)); opt["ytest"] = f(opt["xtest"])
        inp = dict(opt={k: v for k, v in opt.items()}, x=x, y=y); np.random.seed(r)
        log = []; kx, ky = x.copy(), y.copy()
        with quiet(), H.case("mixture", str(r), inp, timeout=200):
            m = watch(MOE, log)(**opt); m.set_training_values(x, y)
            try: m.train()
            except Exception as e:
                msg = str(e)
                if "converged" in msg or isinstance(e, (np.linalg.LinAlgError,)) or "singular" in msg or min((len(q) for l in log if l[0] == "cluster" for q in l[3]), default=0) < 3 + d * (d + 3): continue       # degenerate clusters: outside the property
                raise
            H.ok(np.array_equal(x, kx) and np.array_equal(y, ky), "frame", "training data modified", inp)
            fits = [l for l in log if l[0] == "fit"]; splits = [l for l in log if l[0] == "split"]; cl = [l for l in log if l[0] == "cluster"]; best = [l for l in log if l[0] == "best"]; ct = opt.get("ct", y); data = np.c_[x, y, ct]
            H.ok(len(best) == K, "choice.count", "%d choices of an expert for %d clusters" % (len(best), K), inp)
            if test: tr = data; H.ok(len(fits) == 1 and fits[0][4], "fit.count", "fits %s" % [l[4] for l in fits], inp)
            else:
                H.ok(len(fits) == 2 and fits[0][4] and not fits[1][4], "fit.count", "fits %s" % [l[4] for l in fits], inp); tr = splits[0][2][1]
                H.ok(np.array_equal(splits[0][1], data), "fit.split", "the data split are not the training data", inp)
                H.ok(np.array_equal(np.c_[fits[-1][1], fits[-1][2], fits[-1][3]], data), "fit.all", "last fit is not on all the data", inp)
            H.ok(np.array_equal(np.c_[fits[0][1], fits[0][2], fits[0][3]], tr), "fit.part", "first fit is not on the training part", inp)
            for l, (xx, yy, cc) in zip(cl, [(g[1], g[2], g[3]) for g in fits]):
                H.ok(np.array_equal(l[2], m.cluster.predict(np.c_[xx, cc])), "clusters.labels", "labels are not those of the inputs and clustering outputs", inp)
                for k in range(K): H.ok(np.array_equal(l[3][k].reshape(-1, d + 1), np.c_[xx, yy][l[2] == k]), "clusters", "values of cluster %d" % k, inp)
            for k, l in enumerate(best):
                H.ok(np.array_equal(l[1], cl[0][3][k]), "choice.data", "expert %d chosen on other data" % k, inp)
                a, b = MOE._extract_part(l[1], 10); err = {}
                a, b = [s for s in splits if np.array_equal(s[1], l[1])][-1][2]
                for nm in allow:
                    if nm == "RMTB": continue
                    s = CLS[nm](print_global=False); s.set_training_values(b[:, :d], b[:, d]); s.train(); err[s.name] = np.sqrt(np.sum((s.predict_values(a[:, :d])[:, 0] - a[:, d]) ** 2))
                if l[2].name in err and all(np.isfinite(list(err.values()))): H.ok(err[l[2].name] <= min(err.values()) * (1 + 1e-6) + 1e-9, "choice", "expert %s chosen for cluster %d, validation errors %s" % (l[2].name, k, err), inp)
            for k in range(K):
                xt, yt = m._experts[k].training_points[None][0]; ref = (cl[-1] if not test else None)
                if ref is not None: H.ok(np.array_equal(np.c_[xt, yt.reshape(-1, 1)], ref[3][k].reshape(-1, d + 1)), "retrain", "expert %d is not retrained on its cluster" % k, inp)
            h = m.heaviside_factor; H.ok(opt["heaviside_optimization"] and opt["smooth_recombination"] and K > 1 or h == 1, "factor", "factor %s" % h, inp)
            p = np.vstack([rng.uniform(-1.3, 1.3, (6, d)), rng.uniform(-1, 1, (1, d)) * 40, rng.uniform(-1, 1, (1, d)) * 4]); kp = p.copy()
            P = m._proba_cluster(p); ref = member(m, p, d, h) if K > 1 else np.ones((len(p), 1))
            H.close(P.sum(axis=1), np.ones(len(p)), "membership.sum", "memberships sum to one", inp, 1e-9, 1e-9); H.ok(np.all(P >= 0), "membership.sign", "negative membership", inp); H.close(P, ref, "membership", "memberships", inp, 1e-6, 1e-9)
            for w in ("predict_values",) + (("predict_variances",) if var else ()):
                e = [np.vstack([getattr(s, w)(p[i:i + 1]) for i in range(len(p))]) for s in m._experts]; spread = max(np.abs(getattr(s, w)(p) - v).max() for s, v in zip(m._experts, e)); got = getattr(m, w)(p)
                if opt["smooth_recombination"]: want = sum(ref[:, k:k + 1] ** (2 if w == "predict_variances" else 1) * e[k] for k in range(K))
                else:
                    s = np.sort(ref, axis=1); clear = np.ones(len(p), bool) if K == 1 else s[:, -1] - s[:, -2] > 1e-9
                    want = np.array([e[k][i] for i, k in enumerate(np.argmax(ref, axis=1))]); got, want = got[clear], want[clear]
                H.close(got, want, "recombination." + w, "%s, %s" % (w, "smooth" if opt["smooth_recombination"] else "hard"), inp, 1e-6, 1e-8 * max(1, np.abs(want).max() if want.size else 1) + 10 * spread)
            H.ok(np.array_equal(p, kp), "frame.points", "prediction points modified", inp)
            if not var: H.raises(lambda: m.predict_variances(p), "variances.refused", "variances of experts not chosen for them", inp)
        if r % 6 == 0:
            with quiet(), H.case("surrogate", str(r), inp, timeout=100):
                np.random.seed(r); s = MOESurrogateModel(**{k: v for k, v in opt.items()}); s.options["print_global"] = False; s.set_training_values(x, y)
                try: s.train()
                except Exception as e: continue
                p = rng.uniform(-1, 1, (4, d)); H.close(s.predict_values(p), s.moe.predict_values(p), "surrogate", "predictions of the mixture", inp); H.ok(s.moe.n_clusters == K and s.moe.smooth_recombination == opt["smooth_recombination"], "surrogate.options", "options", inp)
                H.ok(np.array_equal(s.moe.x, x) and np.array_equal(s.moe.y, y), "surrogate.data", "training data of the mixture", inp)
main(run)
