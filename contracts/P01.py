"""P01  OptionsDictionary, for an arbitrary store.

The store starts with arbitrary content: has(k)/val(k) and declared(k) with permitted values dv(k), permitted types dt(k) and default dd(k) are
uninterpreted functions of an arbitrary key, subject only to the invariant
    has(k)  ->  declared(k) and (val(k) == dd(k) or permitted(k, val(k)))            (and declared(k) -> has(k): every declared name has a value)
Each operation (declare, []=, update, clone, reads) is run from that state with arbitrary name, value, values and types, and the contract compares the
outcome, for an arbitrary other key q, with the documented one; so the invariant holds after every sequence of operations."""
from pyvc.contract import *
from pyvc.interp import PyDict, PyRaise
contract = Registry()
ASSUMPTIONS = ["`value in values`, isinstance(value, types) and == of option values are uninterpreted (deterministic, side-effect free) predicates",
               "option names are hashable with lawful equality"]
LEVEL_NOTE = "the arbitrary starting store is expressed on the two private dictionaries of OptionsDictionary"
NONE = var("lit:None", "U")
U = lambda n: var(n, "U")
has = lambda k: app("has", k, s="B")
decl = lambda k: app("declared", k, s="B")
val_ = lambda k: app("val", k, s="U")
dv, dt, dd = (lambda k, n=n: app(n, k, s="U") for n in ("dv", "dt", "dd"))

def permitted(v, vs, ts):
    """the documented acceptance condition"""
    inn, isi = app("in", v, vs, s="B"), app("isinst", v, ts, s="B")
    nv, nt = eq(vs, NONE), eq(ts, NONE)
    return or_(and_(nv, nt), and_(not_(nv), nt, inn), and_(nv, not_(nt), isi), and_(not_(nv), not_(nt), or_(inn, isi)))

def store(vc, *keys):
    o = vc.new("smt.utils.options_dictionary:OptionsDictionary")
    a = PyDict(); a.base = (has, val_)
    b = PyDict(); b.base = (decl, lambda k: PyDict({"values": dv(k), "types": dt(k), "default": dd(k), "desc": app("desc", k, s="U")}))
    o.put("_dict", a); o.put("_declared_entries", b)
    for k in keys:
        vc.assume(or_(not_(has(k)), and_(decl(k), or_(eq(val_(k), dd(k)), permitted(val_(k), dv(k), dt(k))))))
        vc.assume(or_(not_(decl(k)), has(k)))
    return o

def holds(vc, o, q, present, value, declared, label):
    """observable state of key q"""
    c = vc.it.contains(o, q)
    b = TRUE if c is True else FALSE if c is False else c
    iff = lambda x, y: and_(or_(not_(x), y), or_(not_(y), x))
    vc.check(iff(b, present), label + ": presence")
    d = vc.method(o, "is_declared", q)
    d = TRUE if d is True else FALSE if d is False else d
    vc.check(iff(d, declared), label + ": declared names")
    e, got = vc.raises(lambda: vc.it.getitem(o, q))
    if e is None:
        vc.check(present, label + ": only present names can be read")
        vc.check_eq(vc.it.tou(got), value, label + ": value")
    else:
        vc.check(not_(present), label + ": every present name can be read")
        vc.require(e.cls in ("KeyError", "AssertionError"), label + ": error for an undeclared name")

def sel(c, a, b): return or_(and_(c, a), and_(not_(c), b))

def setitem(vc):
    k, q, v = U("k"), U("q"), U("v")
    o = store(vc, k, q)
    same = vc.it.decide(eq(k, q))
    ok = and_(decl(k), permitted(v, dv(k), dt(k)))
    e, _ = vc.raises(lambda: vc.it.setitem(o, k, v))
    vc.check(ok if e is None else not_(ok), "assignment succeeds exactly for a declared name and a permitted value")
    if e is None and same: holds(vc, o, q, TRUE, v, decl(q), "the name holds the value accepted")
    else: holds(vc, o, q, has(q), val_(q), decl(q), "other names, and every name after a rejection, are untouched")
    # the declaration of q still decides what it accepts
    w = U("w")
    e2, _ = vc.raises(lambda: vc.it.setitem(o, q, w))
    ok2 = and_(decl(q), permitted(w, dv(q), dt(q)))
    vc.check(ok2 if e2 is None else not_(ok2), "declarations are unchanged by assignment")
contract("OptionsDictionary.__setitem__ / __getitem__ / __contains__", maxpaths=600, timeout=240)(setitem)

def declare(vc, how):
    k, q, d, vs, ts = U("k"), U("q"), U("d"), U("vs"), U("ts")
    o = store(vc, k, q)
    same = vc.it.decide(eq(k, q))
    kw = {}
    if "d" in how: kw["default"] = d
    else: d = NONE
    if "v" in how: kw["values"] = vs
    else: vs = NONE
    if "t" in how: kw["types"] = ts
    else: ts = NONE
    ok = or_(eq(d, NONE), permitted(d, vs, ts))
    e, _ = vc.raises(lambda: vc.method(o, "declare", k, **kw))
    vc.check(ok if e is None else not_(ok), "a declaration is accepted exactly when its default is absent or permitted by it")
    if e is None and same: 
        holds(vc, o, q, TRUE, d, TRUE, "the declared name holds its default")
        nvs, nts, nd = vs, ts, TRUE
    else:
        holds(vc, o, q, has(q), val_(q), decl(q), "other names, and every name after a rejected declaration, are untouched")
        nvs, nts, nd = dv(q), dt(q), decl(q)
    w = U("w")
    e2, _ = vc.raises(lambda: vc.it.setitem(o, q, w))
    ok2 = and_(nd, permitted(w, nvs, nts))
    vc.check(ok2 if e2 is None else not_(ok2), "the declaration in force decides what the name accepts")
for how in ("dvt", "d", "v", "dv", "dt"):
    contract("OptionsDictionary.declare (%s given)" % "".join(how), maxpaths=1500, timeout=300)(lambda vc, how=how: declare(vc, how))

def update(vc):
    """a bulk update performs the assignments one after the other"""
    a, b, q, va, vb = U("a"), U("b"), U("q"), U("va"), U("vb")
    o = store(vc, a, b, q)
    if vc.it.decide(eq(a, b)): vc.ok("distinct names in one mapping"); return
    oka, okb = and_(decl(a), permitted(va, dv(a), dt(a))), and_(decl(b), permitted(vb, dv(b), dt(b)))
    d = vc.py({a: va, b: vb})
    e, _ = vc.raises(lambda: vc.method(o, "update", d))
    vc.check(and_(oka, okb) if e is None else not_(and_(oka, okb)), "a bulk update is accepted exactly when every entry is")
    qa = vc.it.decide(eq(q, a)); qb = False if qa else vc.it.decide(eq(q, b))
    if qa: c, v = (True, va) if e is None else (vc.it.decide(oka), va)
    elif qb: c, v = (e is None), vb
    else: c, v = False, None
    if c: holds(vc, o, q, TRUE, v, decl(q), "entries accepted are stored")
    else: holds(vc, o, q, has(q), val_(q), decl(q), "other names and rejected entries are untouched")
    vc.require(vc.it.getitem(d, a) is va and vc.it.getitem(d, b) is vb and len(d.d) == 2, "the mapping passed in is unchanged")
contract("OptionsDictionary.update", maxpaths=3000, timeout=600)(update)

def clone(vc):
    k, q, v = U("k"), U("q"), U("v")
    o = store(vc, k, q)
    c = vc.method(o, "clone")
    holds(vc, c, q, has(q), val_(q), decl(q), "the copy holds the same values and declarations")
    first, second = (c, o) if vc.it.decide(app("which", s="B")) else (o, c)
    e, _ = vc.raises(lambda: vc.it.setitem(first, k, v))
    ok = and_(decl(k), permitted(v, dv(k), dt(k)))
    vc.check(ok if e is None else not_(ok), "original and copy accept the same assignments")
    holds(vc, second, q, has(q), val_(q), decl(q), "an assignment to one does not affect the other")
contract("OptionsDictionary.clone", maxpaths=1500, timeout=300)(clone)

def clone_declare(vc):
    k, q, ts = U("k"), U("q"), U("ts")
    o = store(vc, k, q)
    c = vc.method(o, "clone")
    first, second = (c, o) if vc.it.decide(app("which", s="B")) else (o, c)
    vc.method(first, "declare", k, None, types=ts)
    holds(vc, second, q, has(q), val_(q), decl(q), "a declaration in one does not affect the other")
    w = U("w")
    e2, _ = vc.raises(lambda: vc.it.setitem(second, q, w))
    ok2 = and_(decl(q), permitted(w, dv(q), dt(q)))
    vc.check(ok2 if e2 is None else not_(ok2), "the other keeps its declarations")
contract("OptionsDictionary.clone, declare", maxpaths=1500, timeout=300)(clone_declare)

def empty(vc):
    q = U("q")
    o = vc.new("smt.utils.options_dictionary:OptionsDictionary")
    holds(vc, o, q, FALSE, NONE, FALSE, "a new store is empty")
contract("OptionsDictionary.__init__")(empty)
