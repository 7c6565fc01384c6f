"""P27: cached operations and model training through real cache directories (scratch only)."""
from common import *
import os, tempfile, copy, pickle
from smt.utils.caching import cached_operation
import smt.surrogate_models as S

def run(H):
    base = tempfile.mkdtemp(dir=H.work if H.work else None); cwd = os.getcwd(); os.chdir(base)
    try: body(H, base)
    finally:
        os.chdir(cwd); import shutil; shutil.rmtree(base, ignore_errors=True)

def body(H, base):
    def snapshot(): return {os.path.join(r, f): open(os.path.join(r, f), "rb").read() for r, _, fs in os.walk(base) for f in fs}
    dirs = ["a", "b", "None"]
    for d in dirs: os.makedirs(d, exist_ok=True)
    for rep_ in range(H.n(30, 300)):
        for d in dirs:
            for f in os.listdir(d): os.unlink(os.path.join(base, d, f))
        ref = {}; hist = []
        with H.case("history", "%d" % rep_):
            for step in range(25):
                x = [int(H.rng.randint(3)), float(H.rng.randint(2)), "k%d" % H.rng.randint(2), np.array([1., float(H.rng.randint(3))]), {"q": [1, int(H.rng.randint(2))]}][H.rng.randint(5)]
                d = [None, "a", "b", "None", ""][H.rng.randint(5)]; desc = ["", "m"][H.rng.randint(2)]
                inputs = {"x": x, "n": int(H.rng.randint(2))}; key = (d, desc, pickle.dumps(inputs))
                res = float(H.rng.rand()); fail = H.rng.rand() < .15
                hist.append((d, desc, rep(inputs), fail)); before = snapshot() if not d else None
                saw = None; ran = False; keep = copy.deepcopy(inputs)
                try:
                    with cached_operation(inputs, d, desc) as out:
                        saw = dict(out)
                        if fail: raise KeyError("fails")
                        if not out: out["r"] = res; out["arr"] = np.full(3, res)
                        got = out["r"]
                except KeyError as e:
                    H.ok(fail, "error", "unexpected %r" % e, hist)
                else: H.ok(not fail, "swallowed", "failure of the computation was swallowed", hist)
                H.ok(saw is not None, "ran", "the body did not run", hist)
                if key in ref: H.ok(saw.get("r") == ref[key] and np.all(saw["arr"] == ref[key]), "hit", "stored result %r, got %r" % (ref[key], saw), hist)
                else: H.ok(saw == {}, "miss", "nothing stored for this input, got %r" % (saw,), hist)
                if not d: H.ok(snapshot() == before, "disabled", "files changed with caching disabled", hist)
                if d and not fail and key not in ref: ref[key] = res
                H.ok(rep(inputs) == rep(keep), "frame", "inputs changed", hist)
    with H.case("corrupt"):
        with cached_operation({"x": 1}, "a", "c") as o: o["r"] = 1
        n = [f for f in os.listdir("a") if f.startswith("c_")][0]; open(os.path.join("a", n), "wb").write(b"junk")
        with cached_operation({"x": 1}, "a", "c") as o: H.ok(dict(o) == {}, "corrupt", "an unreadable file gives %r" % dict(o)); o["r"] = 2
        with cached_operation({"x": 1}, "a", "c") as o: H.ok(dict(o) == {"r": 2}, "corrupt.rewrite", "after recomputation got %r" % dict(o))
    # models
    rng = np.random.RandomState(2); lim = np.array([[-.1, 1.1]] * 2)
    X = rng.rand(14, 2); Y = np.sin(3 * X[:, :1]) + X[:, 1:] ** 2; q = rng.rand(4, 2)
    variants = {"LS": (S.LS, [{}]), "QP": (S.QP, [{}]), "IDW": (S.IDW, [{}, {"p": 3.0}]), "RBF": (S.RBF, [{"d0": .5}, {"d0": .7}, {"d0": .5, "poly_degree": 1}]),
                "RMTB": (S.RMTB, [dict(xlimits=lim, order=3, num_ctrl_pts=5), dict(xlimits=lim, order=4, num_ctrl_pts=5), dict(xlimits=lim, order=3, num_ctrl_pts=5, energy_weight=1e-2)]),
                "RMTC": (S.RMTC, [dict(xlimits=lim, num_elements=3), dict(xlimits=lim, num_elements=4), dict(xlimits=lim, num_elements=3, regularization_weight=1e-3)])}
    for name, (cls, kws) in variants.items():
        with H.case("model", name, timeout=120):
            d = os.path.join(base, "models_" + name); os.makedirs(d)
            for hist in range(2):
                for ki, kw in enumerate(kws):
                    for yi, y in enumerate((Y, Y[:, ::-1] + 1, np.hstack([Y, 2 * Y]))):
                        out = []
                        for dd in (None, d, d):
                            sm = cls(print_global=False, **kw)
                            if dd is not None: sm.options["data_dir"] = dd
                            if "save_energy_terms" in sm.options: sm.options["save_energy_terms"] = bool(hist)
                            sm.set_training_values(X, y); sm.train()
                            r = [sm.predict_values(q)]
                            if sm.supports["derivatives"]: r.append(sm.predict_derivatives(q, 0))
                            if sm.supports["output_derivatives"]:
                                try: od = sm.predict_output_derivatives(q)
                                except Exception as e: H.bad("model.output_derivatives", "%s (cache %s): %r" % (name, dd, e), dict(kw=kw)); od = {None: np.zeros(1)}
                                r += [od[k] for k in sorted(od, key=str)]
                            out.append(r)
                        for w, r in (("storing", out[1]), ("loading", out[2])):
                            for a, b in zip(out[0], r): H.close(b, a, "model." + name, "%s %s the training result changes a prediction (options %d, outputs %d)" % (name, w, ki, yi), dict(kw=kw), rtol=1e-12, atol=1e-12)
main(run)
