"""P01: OptionsDictionary against a reference model over random histories."""
from common import *
from smt.utils.options_dictionary import OptionsDictionary
NAMES = ["a", "b", "c", "theta0", ""]
VALUES = [None, 0, 1, 2.5, -1.5, "x", "y", "constant", True, False, [1, 2], [], (1,), {"k": 1}, len]
VLISTS = [None, ["x", "y"], [0, 1], ("constant",), [None, "x"], [], [[1, 2], 3], {"x": 1}, ["x"]]
TYPES = [None, int, float, str, (int, float), (list, tuple), bool, object, dict, (str, type(None))]

class Ref:
    def __init__(self): self.v = {}; self.d = {}
    def copy(self):
        r = Ref(); r.v = dict(self.v); r.d = dict(self.d); return r
    def permitted(self, val, vs, ts):
        if vs is None and ts is None: return True
        if vs is not None and val in vs: return True
        return ts is not None and isinstance(val, ts)
    def set(self, n, v):
        if n not in self.d or not self.permitted(v, *self.d[n][:2]): return False
        self.v[n] = v; return True
    def declare(self, n, default, vs, ts):
        if default is not None and not self.permitted(default, vs, ts): return False
        self.d[n] = (vs, ts, default); self.v[n] = default; return True

def same(a, b): return a is b or (type(a) == type(b) and a == b)

def run(H):
    pick = lambda l: l[H.rng.randint(len(l))]
    def hashed(v, vs):    # `in` on a dict needs a hashable value
        return not (isinstance(vs, dict) and isinstance(v, (list, dict)))
    for rep_ in range(H.n(400, 6000)):
        if H.left() < 10: break
        stores = [(OptionsDictionary(), Ref())]
        hist = []
        with H.case("history", "%d" % rep_, timeout=20):
            for step in range(H.rng.randint(3, 30)):
                k = H.rng.randint(len(stores)); o, r = stores[k]
                op = pick(["declare"] * 3 + ["set"] * 4 + ["update", "clone", "get"])
                n = pick(NAMES); v = pick(VALUES)
                err = None; exp = True
                if op == "declare":
                    vs, ts = pick(VLISTS), pick(TYPES)
                    if not hashed(v, vs): continue
                    hist.append("s%d.declare(%r, %r, values=%r, types=%r)" % (k, n, v, vs, ts))
                    exp = r.declare(n, v, vs, ts)
                    try: o.declare(n, v, values=vs, types=ts, desc="d")
                    except Exception as e: err = e
                elif op == "set":
                    if n in r.d and not hashed(v, r.d[n][0]): continue
                    hist.append("s%d[%r] = %r" % (k, n, v)); exp = r.set(n, v)
                    try: o[n] = v
                    except Exception as e: err = e
                elif op == "update":
                    d = {}
                    for _ in range(H.rng.randint(0, 4)):
                        nn, vv = pick(NAMES[:4]), pick(VALUES)
                        if nn in r.d and hashed(vv, r.d[nn][0]): d[nn] = vv
                    keep = dict(d)
                    hist.append("s%d.update(%r)" % (k, d))
                    for nn in d:
                        exp = r.set(nn, d[nn])
                        if not exp: break
                    try: o.update(d)
                    except Exception as e: err = e
                    H.ok(d == keep, "update.arg", "update changed the mapping passed in", dict(history=hist))
                elif op == "clone":
                    hist.append("s%d = s%d.clone()" % (len(stores), k)); stores.append((o.clone(), r.copy()))
                else:
                    hist.append("s%d[%r]" % (k, n))
                    exp = n in r.v
                    try: got = o[n]
                    except Exception as e: err = e
                    else: H.ok(exp and same(got, r.v.get(n)), "get", "reading %r gives %r" % (n, got), dict(history=hist))
                H.ok((err is None) == bool(exp), "accept", "%s: %s" % (hist[-1], "rejected (%r) although permitted" % err if exp else "accepted although not permitted"), dict(history=hist))
                for j, (oo, rr) in enumerate(stores):
                    for nn in NAMES:
                        H.ok((nn in oo) == (nn in rr.v), "present", "s%d: presence of %r after %s" % (j, nn, hist[-1]), dict(history=hist))
                        H.ok(oo.is_declared(nn) == (nn in rr.d), "declared", "s%d: is_declared(%r) after %s" % (j, nn, hist[-1]), dict(history=hist))
                        if nn in rr.v and nn in oo:
                            H.ok(same(oo[nn], rr.v[nn]), "value", "s%d[%r] = %r, expected %r after %s" % (j, nn, oo[nn], rr.v[nn], hist[-1]), dict(history=hist))
                if len(stores) > 4: stores.pop(0)
    # models accept their options the same way
    from smt.surrogate_models import KRG, KPLS, RBF, IDW, QP, LS, GENN
    from smt.sampling_methods import LHS
    for cls in (KRG, KPLS, QP, LS, GENN, RBF, IDW):
        with H.case("model", cls.__name__):
            sm = cls(print_global=False)
            before = {n: sm.options[n] for n in sm.options._dict}
            H.raises(lambda: cls(no_such_option=1), "undeclared", "unknown option of " + cls.__name__)
            def f(): sm.options["no_such_option"] = 1
            H.raises(f, "undeclared", "unknown option of " + cls.__name__)
            def f(): sm.options["print_global"] = "yes"
            H.raises(f, "type", "string for print_global of " + cls.__name__)
            H.ok(all(same(sm.options[n], before[n]) for n in before), "model.state", "rejected assignments changed options of " + cls.__name__)
    with H.case("model", "LHS"):
        H.raises(lambda: LHS(xlimits=np.array([[0., 1.]]), criterion=3), "value", "impermissible criterion")
main(run)
