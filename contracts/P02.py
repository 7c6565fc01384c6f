"""P02  Training data are stored as private, shape-checked copies.

Contracts on SurrogateModel.set_training_values / set_training_derivatives / update_training_values /
update_training_derivatives for every number of rows, columns, direction kx, 1-d or 2-d arrays, several names:
  stored arrays equal the given ones elementwise, are (n, m), are not aliased with the caller's arrays (writes on either
  side are invisible to the other); frame: all other (name, direction) entries keep identical content;
  row mismatch / missing data / undeclared support raise and leave every stored array as it was."""
from pyvc.contract import *
contract = Registry()
MOD = "smt.surrogate_models.surrogate_model:SurrogateModel"
def model(vc):
    sm = vc.new(MOD); vc.it.setitem(vc.attr(sm, "supports"), "training_derivatives", True); return sm
def stored(vc, sm, name, kx):
    e = vc.it.getitem(vc.it.getitem(vc.attr(sm, "training_points"), name), kx)
    return vc.it.getitem(e, 0), vc.it.getitem(e, 1)
def has(vc, sm, name, kx):
    d = vc.attr(sm, "training_points").d
    return name in d and kx in d[name].d
def same(vc, a, shape, sym, label):
    vc.check_arr(a, shape, lambda *i: app(sym, *i), label)
def clobber(vc, a):
    vc.it.setitem(a, Ellipsis if a.ndim != 1 else slice(None), Fraction(-7))
def fill(vc, sm, entries):
    """prior state: entries name -> directions with symbolic data"""
    for name, kxs in entries:
        for kx in kxs:
            n, p, q = vc.dim("pn_%s%s" % (name, kx)), vc.dim("pp_%s%s" % (name, kx)), vc.dim("pq_%s%s" % (name, kx))
            a, b = vc.arr("px_%s%s" % (name, kx), n, p), vc.arr("py_%s%s" % (name, kx), n, q)
            if kx == 0: vc.method(sm, "set_training_values", a, b, name)
            else: vc.method(sm, "set_training_derivatives", a, b, kx - 1, name)
def intact(vc, sm, entries, label, skip=()):
    for name, kxs in entries:
        for kx in kxs:
            if (name, kx) in skip: continue
            n, p, q = (var("p%s_%s%s" % (c, name, kx), "I") for c in "npq")
            if not has(vc, sm, name, kx): vc.fail("%s: entry (%s,%s) lost" % (label, name, kx)); continue
            a, b = stored(vc, sm, name, kx)
            same(vc, a, (n, p), "px_%s%s" % (name, kx), "%s: inputs of (%s,%s) untouched" % (label, name, kx))
            same(vc, b, (n, q), "py_%s%s" % (name, kx), "%s: outputs of (%s,%s) untouched" % (label, name, kx))
PRIOR = (("other", (0, 1, 3)), (None, (2,)), (5, (0,)))

def setv(deriv, name, onedim):
    def f(vc):
        sm = model(vc); fill(vc, sm, PRIOR)
        n, p, q = vc.dim("n"), vc.dim("p"), vc.dim("q")
        xt = vc.arr("xt", n) if onedim else vc.arr("xt", n, p); yt = vc.arr("yt", n) if onedim else vc.arr("yt", n, q)
        if deriv: kx = 4; vc.method(sm, "set_training_derivatives", xt, yt, kx, name); slot = kx + 1
        else: vc.method(sm, "set_training_values", xt, yt, name); slot = 0
        clobber(vc, xt); clobber(vc, yt)
        if not has(vc, sm, name, slot): vc.fail("data stored under the given name and direction"); return
        a, b = stored(vc, sm, name, slot)
        if onedim:
            vc.check_arr(a, (n, ONE), lambda i, j: app("xt", i), "inputs stored as a private column")
            vc.check_arr(b, (n, ONE), lambda i, j: app("yt", i), "outputs stored as a private column")
        else:
            same(vc, a, (n, p), "xt", "inputs stored as a private copy"); same(vc, b, (n, q), "yt", "outputs stored as a private copy")
        if not deriv:
            for at, v in (("nt", n), ("nx", ONE if onedim else p), ("ny", ONE if onedim else q)):
                vc.check_eq(vc.attr(sm, at), v, "%s recorded" % at)
        intact(vc, sm, PRIOR, "frame", skip=((name, slot),))
    return f
for deriv in (False, True):
    for name in (None, "lf", 0):
        for od in (False, True):
            contract("set_training_%s name=%s%s" % ("derivatives" if deriv else "values", name, " 1-d" if od else ""))(setv(deriv, name, od))

def rej(deriv):
    def f(vc):
        sm = model(vc); fill(vc, sm, PRIOR)
        n, m, p, q = vc.dim("n"), vc.dim("m"), vc.dim("p"), vc.dim("q"); vc.assume(ne(n, m))
        old = None
        for name in (None, "other"):
            args = [vc.arr("xt", n, p), vc.arr("yt", m, q)] + ([0] if deriv else []) + [name]
            e, _ = vc.raises(lambda: vc.method(sm, "set_training_derivatives" if deriv else "set_training_values", *args))
            vc.require(e is not None, "different numbers of rows are rejected (%s)" % name)
            intact(vc, sm, PRIOR, "after rejection")
        args = [vc.arr("xt", n, p, q), vc.arr("yt", n, q)] + ([0] if deriv else []) + ["other"]
        e, _ = vc.raises(lambda: vc.method(sm, "set_training_derivatives" if deriv else "set_training_values", *args))
        vc.require(e is not None, "three-dimensional inputs are rejected"); intact(vc, sm, PRIOR, "after rank rejection")
        if deriv:
            vc.it.setitem(vc.attr(sm, "supports"), "training_derivatives", False)
            e, _ = vc.raises(lambda: vc.method(sm, "set_training_derivatives", vc.arr("xt", n, p), vc.arr("yt", n, q), 0, "other"))
            vc.require(e is not None, "unsupported training derivatives are rejected"); intact(vc, sm, PRIOR, "after support rejection")
    return f
contract("set_training_values rejects")(rej(False)); contract("set_training_derivatives rejects")(rej(True))

def upd(deriv):
    def f(vc):
        sm = model(vc)
        for name, slot in (("other", 3 if deriv else 0), (None, 2 if deriv else None), (5, None if deriv else 0)):
            if slot is None: continue
            sm = model(vc); fill(vc, sm, PRIOR)
            n, p = var("pn_%s%s" % (name, slot), "I"), var("pp_%s%s" % (name, slot), "I"); q2 = vc.dim("q2")
            y = vc.arr("ynew", n, q2)
            if deriv: vc.method(sm, "update_training_derivatives", y, slot - 1, name)
            else: vc.method(sm, "update_training_values", y, name)
            clobber(vc, y)
            a, b = stored(vc, sm, name, slot)
            same(vc, a, (n, p), "px_%s%s" % (name, slot), "update keeps the inputs"); same(vc, b, (n, q2), "ynew", "update stores a private copy")
            intact(vc, sm, PRIOR, "frame", skip=((name, slot),))
            m = vc.dim("m"); vc.assume(ne(m, n))
            sm = model(vc); fill(vc, sm, PRIOR)
            e, _ = vc.raises(lambda: vc.method(sm, "update_training_derivatives", vc.arr("z", m, q2), slot - 1, name) if deriv else vc.method(sm, "update_training_values", vc.arr("z", m, q2), name))
            vc.require(e is not None, "wrong number of rows is rejected"); intact(vc, sm, PRIOR, "after rejection")
        # nothing stored yet
        sm = model(vc); fill(vc, sm, PRIOR)
        n = vc.dim("n")
        for name in ("nowhere",) + ((None,) if not deriv else ("other",)):
            e, _ = vc.raises(lambda: vc.method(sm, "update_training_derivatives", vc.arr("z", n, n), 1 if name == "other" else 0, name) if deriv else vc.method(sm, "update_training_values", vc.arr("z", n, n), name))
            vc.require(e is not None, "updating data that were never set is rejected (%s)" % name); intact(vc, sm, PRIOR, "after rejection")
        if deriv:
            vc.it.setitem(vc.attr(sm, "supports"), "training_derivatives", False)
            e, _ = vc.raises(lambda: vc.method(sm, "update_training_derivatives", vc.arr("z", var("pn_other3", "I"), n), 2, "other"))
            vc.require(e is not None, "unsupported training derivatives are rejected"); intact(vc, sm, PRIOR, "after support rejection")
    return f
contract("update_training_values")(upd(False)); contract("update_training_derivatives")(upd(True))

def ensure2(vc):
    n, m = vc.dim("n"), vc.dim("m")
    a = vc.call("smt.utils.checks:ensure_2d_array", vc.arr("a", n), "a"); vc.check_arr(a, (n, ONE), lambda i, j: app("a", i), "1-d becomes a column")
    a = vc.call("smt.utils.checks:ensure_2d_array", vc.arr("a", n, m), "a"); vc.check_arr(a, (n, m), lambda i, j: app("a", i, j), "2-d unchanged")
    e, _ = vc.raises(lambda: vc.call("smt.utils.checks:ensure_2d_array", vc.arr("a", n, m, n), "a")); vc.require(e is not None, "rank 3 rejected")
    e, _ = vc.raises(lambda: vc.call("smt.utils.checks:ensure_2d_array", PyList([1, 2]), "a")); vc.require(e is not None, "lists rejected")
contract("ensure_2d_array")(ensure2)

def symkx(vc):
    sm = model(vc); fill(vc, sm, PRIOR)
    n, p, q = vc.dim("n"), vc.dim("p"), vc.dim("q"); kx = vc.int_("kx"); vc.assume(le(ZERO, kx))
    xt, yt = vc.arr("xt", n, p), vc.arr("yt", n, q)
    vc.method(sm, "set_training_derivatives", xt, yt, kx, "other"); clobber(vc, xt); clobber(vc, yt)
    a, b = stored(vc, sm, "other", add(kx, 1))
    same(vc, a, (n, p), "xt", "inputs stored under direction kx"); same(vc, b, (n, q), "yt", "derivatives stored under direction kx")
    one, three = vc.it.ctx.entails(eq(kx, ZERO)), vc.it.ctx.entails(eq(kx, num(2)))
    sk = (("other", 1),) if one else (("other", 3),) if three else ()
    tp = vc.attr(sm, "training_points").d["other"].d
    for name, kxs in PRIOR:
        for s in kxs:
            if (name, s) in sk: continue
            a, b = stored(vc, sm, name, s)
            n_, p_, q_ = (var("p%s_%s%s" % (c, name, s), "I") for c in "npq")
            same(vc, a, (n_, p_), "px_%s%s" % (name, s), "frame inputs"); same(vc, b, (n_, q_), "py_%s%s" % (name, s), "frame outputs")
contract("set_training_derivatives any direction")(symkx)
