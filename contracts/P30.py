"""P30  Printer and the printing done by the shared training / prediction entry points and the linear solvers.

`print` is a ghost recorder.  The printer's active flag, depth and maximal depth, and all printing options, are symbolic; every path is explored."""
from pyvc.contract import *
from pyvc.interp import Native, PyRaise, ExcVal, MergeFail
contract = Registry()
ASSUMPTIONS = ["warnings about degenerate input and the optimiser's own messages do not go through the printer and are not covered",
               "the standard output is written through print only"]
PR = "smt.utils.printer:Printer"

def recorder(vc):
    out = []
    def pr(it, a, kw):
        if it.merging: raise MergeFail("print")
        out.append(a)
    vc.it.natives["print"] = pr
    return out
def printer(vc, symbolic=True):
    p = vc.new(PR)
    a, d, m = var("active", "B"), vc.int_("depth"), vc.int_("maxd")
    vc.assume(le(ZERO, d))
    if symbolic: p.put("active", a)
    p.put("depth", d); p.put("max_print_depth", m)
    return p, a, d, m

def call(vc, meth, args):
    out = recorder(vc)
    p, a, d, m = printer(vc)
    if meth == "__call__": vc.call(p, *args)
    else: vc.method(p, meth, *args)
    if out: vc.check(and_(a, le(d, m)), "prints only when active and within the maximal depth")
    else: vc.check(or_(not_(a), lt(m, d)), "prints whenever active and within the maximal depth")
    vc.check_eq(num(vc.attr(p, "depth")), d, "depth unchanged")
for meth, args in (("__call__", ("text",)), ("__call__", ("text", True)), ("__call__", ()), ("_center", ("title",)), ("_line_break", ()), ("_title", ("title",))):
    contract("Printer.%s%s" % (meth, args))(lambda vc, meth=meth, args=args: call(vc, meth, args))

SRC = '''
import smt.utils.printer
'''
def timed(vc, kw, fail):
    out = recorder(vc)
    p, a, d, m = printer(vc)
    inside = []
    def body(it, args, k):
        inside.append(num(vc.attr(p, "depth")))
        if fail: raise PyRaise(ExcVal("ValueError", ["operation failed"]))
    e, _ = vc.raises(lambda: vc.within(p, "_timed_context", kw, Native(body, "body")))
    vc.require((e is not None) == fail, "the operation's outcome is passed on")
    vc.require(len(inside) == 1, "the operation runs exactly once")
    if inside: vc.check_eq(inside[0], add(d, 1), "the operation runs one level deeper")
    vc.check_eq(num(vc.attr(p, "depth")), d, "the depth afterwards is the depth before")
    if out: vc.check(a, "prints only when active")
    if not kw.get("string"): vc.require(not out, "an untitled section prints nothing")
    if "key" in kw and not fail:
        l = vc.it.iterate(vc.method(p, "_time", kw["key"]))[1]
        vc.require(len(l) == 1, "one time is recorded under the key")
        vc.within(p, "_timed_context", kw, Native(lambda it, a, k: None, "body"))
        vc.require(len(vc.it.iterate(vc.method(p, "_time", kw["key"]))[1]) == 2, "later times are appended")
for kw in ({}, {"string": "s"}, {"key": "k"}, {"string": "s", "key": "k"}):
    for fail in (False, True):
        contract("Printer._timed_context(%s)%s" % (", ".join(kw), ", failing operation" if fail else ""))(lambda vc, kw=kw, fail=fail: timed(vc, kw, fail))

def nested(vc):
    p, a, d, m = printer(vc)
    seen = []
    def inner(it, args, k): seen.append(num(vc.attr(p, "depth")))
    def outer(it, args, k):
        vc.within(p, "_timed_context", {"string": "b"}, Native(inner, "inner")); seen.append(num(vc.attr(p, "depth")))
    vc.within(p, "_timed_context", {"string": "a"}, Native(outer, "outer"))
    vc.require(len(seen) == 2, "both run")
    if len(seen) == 2: vc.check_eq(seen[0], add(d, 2), "two levels"); vc.check_eq(seen[1], add(d, 1), "back to one level")
    vc.check_eq(num(vc.attr(p, "depth")), d, "balanced")
contract("Printer._timed_context nested")(nested)

FLAGS = ("print_global", "print_problem", "print_training", "print_prediction", "print_solver")
def flags(vc, sm, names=FLAGS):
    f = {}
    for n in names: f[n] = var(n, "B"); vc.it.setitem(vc.attr(sm, "options"), n, f[n])
    return f

def model(vc, nx, ny):
    """a model with arbitrary training and prediction behaviour"""
    nt = vc.dim("nt")
    sm = vc.new("smt.surrogate_models.ls:LS", print_global=False)
    for k in ("derivatives", "variances"): vc.it.setitem(vc.attr(sm, "supports"), k, True)
    vc.method(sm, "set_training_values", vc.arr("xt", nt, nx), vc.arr("yt", nt, ny))
    o, q, c = fresh("o"), fresh("q"), var("cc", "I")
    def f(w): return lambda it, a, kw: Arr(Store((a[1].shape[0], ny), (q, o), app(w, Lam(c, nx, a[1].get((q, c))), *([num(a[2])] if len(a) > 2 else []), o)))
    L = "smt.surrogate_models.ls:LS."
    vc.it.stubs[L + "_train"] = lambda it, a, kw: trained.append(1)
    trained = []
    vc.it.stubs[L + "_predict_values"] = f("V"); vc.it.stubs[L + "_predict_derivatives"] = f("D")
    vc.it.stubs["smt.surrogate_models.surrogate_model:SurrogateModel._predict_variances"] = f("S")
    return sm, trained

def entry(vc, what):
    nx, ny, n = vc.dim("nx"), vc.dim("ny"), vc.dim("n")
    out = recorder(vc)
    sm, trained = model(vc, nx, ny)
    f = flags(vc, sm)
    p = vc.attr(sm, "printer"); d = vc.int_("depth"); p.put("depth", d); vc.assume(le(ZERO, d), le(d, num(90)))
    x = vc.arr("x", n, nx); keep = vc.snapshot(x); c = var("cc", "I")
    if what == "train":
        vc.method(sm, "train"); vc.require(len(trained) == 1, "training happens once, printing or not")
    else:
        args = [x]
        if what == "predict_derivatives":
            kx = vc.int_("kx"); vc.assume(le(ZERO, kx), lt(kx, nx)); args.append(kx)
        y = vc.method(sm, what, *args)
        w = {"predict_values": "V", "predict_derivatives": "D", "predict_variances": "S"}[what]
        vc.check_arr(y, (n, ny), lambda q, o: app(w, Lam(c, nx, app("x", q, c)), *([num(a) for a in args[1:]]), o), "the result is the model's, whatever the printing options")
    vc.check_arr(x, (n, nx), lambda i, j: keep.get((i, j)), "frame: x")
    vc.check_eq(num(vc.attr(p, "depth")), d, "nesting depth as before")
    if out: vc.check(f["print_global"], "output only with print_global")
    elif what != "predict_variances": vc.check(not_(and_(*f.values())), "with everything enabled there is output")
for what in ("train", "predict_values", "predict_derivatives", "predict_variances"):
    contract("SurrogateModel.%s, all printing options" % what, maxpaths=200)(lambda vc, what=what: entry(vc, what))

def failing(vc, what):
    """a model whose computation fails leaves the nesting depth as it was"""
    nx, ny, n = vc.dim("nx"), vc.dim("ny"), vc.dim("n")
    recorder(vc)
    sm, _ = model(vc, nx, ny)
    def boom(it, a, kw): raise PyRaise(ExcVal("ValueError", ["fails"]))
    for k in list(vc.it.stubs): vc.it.stubs[k] = boom
    p = vc.attr(sm, "printer"); d = vc.int_("depth"); p.put("depth", d)
    x = vc.arr("x", n, nx)
    e, _ = vc.raises(lambda: vc.method(sm, what, *([] if what == "train" else [x, 0] if what == "predict_derivatives" else [x])))
    vc.require(e is not None, "the failure is passed on")
    vc.check_eq(num(vc.attr(p, "depth")), d, "nesting depth as before")
for what in ("train", "predict_values", "predict_derivatives"):
    contract("SurrogateModel.%s failing" % what)(lambda vc, what=what: failing(vc, what))

def solver(vc, cls):
    out = recorder(vc)
    n = vc.dim("n")
    p, a, d, m = printer(vc)
    s = vc.new("smt.utils.linear_solvers:" + cls)
    for k in ("print_init", "print_solve"): vc.it.setitem(vc.attr(s, "options"), k, var(k, "B"))
    M, b = vc.arr("M", n, n), vc.arr("b", n)
    i = fresh("i"); c = var("cc", "I")
    vc.it.natives["scipy.linalg.lu_factor"] = lambda it, a_, kw: app("lu", it.matlam(a_[0]), s="U")
    vc.it.natives["scipy.linalg.lu_solve"] = lambda it, a_, kw: Arr(Store((n,), (i,), app("lusolve", Lam(c, n, a_[1].get((c,))), i)))
    vc.method(s, "_setup", M, p)
    r = vc.method(s, "_solve", b)
    vc.check_arr(r, (n,), lambda q: app("lusolve", Lam(c, n, app("b", c)), q), "the solution does not depend on printing")
    if out: vc.check(a, "prints only when the printer is active")
    vc.check_eq(num(vc.attr(p, "depth")), d, "depth as before")
    act = vc.attr(p, "active"); act = TRUE if act is True else FALSE if act is False else act
    vc.check(and_(or_(not_(act), a), or_(act, not_(a))), "the printer is as active as before")
contract("DenseLUSolver printing", maxpaths=200)(lambda vc: solver(vc, "DenseLUSolver"))
