"""P02: private, shape-checked copies; frame over names and directions; histories of set/update/reject calls on the real classes."""
from common import *
from smt.surrogate_models import *
from smt.surrogate_models import surrogate_model as smod
from smt.applications import MFK, MFKPLS, MFKPLSK

class Dummy(smod.SurrogateModel):
    @property
    def name(self): return "Dummy"
    def _initialize(self): self.supports["training_derivatives"] = True
    def _predict_values(self, x): return np.zeros((len(x), 1))

def snap(sm):
    return {(n, k): [np.array(v[0]), np.array(v[1])] for n, d in sm.training_points.items() for k, v in d.items()}
def same(H, a, b, key, what, inp):
    ok = set(a) == set(b) and all(a[k][0].shape == b[k][0].shape and a[k][1].shape == b[k][1].shape and np.array_equal(a[k][0], b[k][0]) and np.array_equal(a[k][1], b[k][1]) for k in a)
    H.ok(ok, key, what, inp)

def histories(H, sm, tag, names, deriv, nsteps):
    model = {}
    log = []
    for step in range(nsteps):
        name = names[H.rng.randint(len(names))]; op = H.rng.choice(["set", "upd", "dset", "dupd", "badset", "badupd", "baddset", "baddupd", "rank"])
        n, p, q = H.rng.randint(1, 6), H.rng.randint(1, 4), H.rng.randint(1, 4); kx = int(H.rng.randint(0, 4))
        d = op.startswith("d") or op.startswith("badd")
        if d and not deriv: continue
        one = H.rng.rand() < .3
        x = H.rng.randn(n) if one else H.rng.randn(n, p); y = H.rng.randn(n) if one else H.rng.randn(n, q)
        if not one and H.rng.rand() < .2: x = np.asfortranarray(x)
        slot = kx + 1 if d else 0; key = (name, slot)
        log.append((op, str(name), kx, n, p, q)); inp = dict(model=tag, history=list(log), name=name, kx=kx, x=x, y=y)
        before = snap(sm)
        col = lambda v: v.reshape(-1, 1) if v.ndim == 1 else v
        try:
            if op in ("set", "dset"):
                sm.set_training_derivatives(x, y, kx, name) if d else sm.set_training_values(x, y, name)
                want = [col(x).copy(), col(y).copy()]
                x += 100.0; y *= -3.0; x[...] = 5.5
                model[key] = want
            elif op in ("upd", "dupd"):
                if key not in model:
                    try: sm.update_training_derivatives(y, kx, name) if d else sm.update_training_values(y, name)
                    except Exception: pass
                    else: H.bad("update.missing", "updating data that were never set was accepted", inp)
                else:
                    m = model[key][0].shape[0]; y = H.rng.randn(m, q); inp["y"] = y.copy()
                    sm.update_training_derivatives(y, kx, name) if d else sm.update_training_values(y, name)
                    model[key] = [model[key][0], y.copy()]
                    y[...] = 77.0
            elif op in ("badset", "baddset"):
                y2 = H.rng.randn(n + 1 + H.rng.randint(3), q)
                try: sm.set_training_derivatives(x, y2, kx, name) if d else sm.set_training_values(x, y2, name)
                except Exception: pass
                else: H.bad("set.rows", "different numbers of rows accepted", inp)
            elif op in ("badupd", "baddupd"):
                if key in model:
                    y2 = H.rng.randn(model[key][0].shape[0] + 1, q)
                    try: sm.update_training_derivatives(y2, kx, name) if d else sm.update_training_values(y2, name)
                    except Exception: pass
                    else: H.bad("update.rows", "update with a different number of rows accepted", inp)
            elif op == "rank":
                try: sm.set_training_values(H.rng.randn(2, 2, 2), H.rng.randn(2, 1), name)
                except Exception: pass
                else: H.bad("set.rank", "rank-3 input accepted", inp)
        except Exception as e:
            H.bad("exception", "%s raised %r" % (op, e), inp); return
        got = snap(sm)
        same(H, got, model, "stored", "stored data differ from the data supplied (last call %s)" % op, inp)
        if op in ("set", "upd") and (name, 0) in model:
            if op == "set": H.ok((sm.nt, sm.nx, sm.ny) == (model[key][0].shape[0], model[key][0].shape[1], model[key][1].shape[1]), "sizes", "nt/nx/ny not those of the data", inp)
        # arrays handed out by a read are those stored; a caller array must not be aliased
        for (nm, s), v in model.items():
            st = sm.training_points[nm][s]
            if np.shares_memory(st[0], x) or np.shares_memory(st[1], y): H.bad("alias", "stored array shares memory with the caller's", inp)

def run(H):
    for rep_ in range(H.n(40, 400)):
        with H.case("Dummy", "history %d" % rep_): histories(H, Dummy(print_global=False), "Dummy", [None, "a", 0, 1, "bb"], True, 14)
    for cls in (KRG, KPLS, LS, QP, GEKPLS, GENN, MFK, MGP) + ((RBF, IDW, RMTB, RMTC) if "RBF" in globals() else ()):
        for rep_ in range(H.n(3, 20)):
            kw = dict(xlimits=np.array([[0., 1.]])) if cls.__name__.startswith("RMT") else {}
            with H.case(cls.__name__, "history %d" % rep_):
                sm = cls(print_global=False, **kw); histories(H, sm, cls.__name__, [None, 0, "z"], sm.supports["training_derivatives"], 10)
    # unsupported training derivatives are refused
    for cls in (KRG, LS, QP):
        with H.case("support", cls.__name__):
            sm = cls(print_global=False); x = np.ones((3, 2)); sm.set_training_values(x, x[:, :1]); b = snap(sm)
            H.raises(lambda: sm.set_training_derivatives(x, x[:, :1], 0), "support", "training derivatives accepted by " + cls.__name__)
            H.raises(lambda: sm.update_training_derivatives(x[:, :1], 0), "support", "training derivative update accepted by " + cls.__name__)
            same(H, snap(sm), b, "support.state", "a refused call changed the stored data", None)
    # the model is unaffected by later changes of the caller's arrays; training does not change the stored data
    for cls in (KRG, LS, QP, KPLS) + ((RBF, IDW) if "RBF" in globals() else ()):
        with H.case("train", cls.__name__):
            x = H.rng.rand(15, 2); y = np.sin(3 * x[:, :1]) + x[:, 1:] ** 2; q = H.rng.rand(5, 2)
            out = []
            for mut in (False, True):
                sm = cls(print_global=False); xx, yy = x.copy(), y.copy(); sm.set_training_values(xx, yy)
                if mut: xx[...] = 0.3; yy[...] = -1
                b = snap(sm); np.random.seed(1)
                with quiet(): sm.train()
                same(H, snap(sm), b, "train.stored", cls.__name__ + ": training changed the stored data", dict(xt=x, yt=y))
                out.append(sm.predict_values(q))
            H.close(out[0], out[1], "mutation", cls.__name__ + ": prediction changed with the caller's arrays", dict(xt=x, yt=y), rtol=0, atol=0)
main(run)
