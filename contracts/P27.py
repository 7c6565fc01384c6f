"""P27  cached_operation over an arbitrary file store, and the models' training through it.

The file store is ghost state: a map from path to stored object, initially arbitrary (each path may or may not hold a readable object).
open / pickle / hashlib are replaced by their assumed contracts on it; the serialisation is injective and so is the digest (no collisions)."""
from pyvc.contract import *
from pyvc.interp import Native, PyRaise, ExcVal, Obj, ClassVal, PyDict, PyList, MergeFail, Cell
contract = Registry()
ASSUMPTIONS = ["pickle: loads(dumps(x)) equals x, dumps is injective on the cached inputs; the digest has no collisions",
               "files are only changed through open/pickle.dump; a file that cannot be opened or unpickled raises an exception"]
C = "smt.utils.caching:"

class FS:
    """ghost file store"""
    def __init__(self, vc):
        self.vc = vc; it = vc.it; self.files = {}; self.log = []; self.seen = []; self.pre = {}
        self.deep = lambda x: it.natives["copy.deepcopy"](it, [x], {})
        def handle(path, mode):
            o = Obj(ClassVal("file", [], None)); o.c["path"] = path; o.c["mode"] = mode
            o.c["__enter__"] = Native(lambda it, a, kw: o); o.c["__exit__"] = Native(lambda it, a, kw: None); o.c["close"] = Native(lambda it, a, kw: None)
            return o
        def op(it, a, kw):
            path = a[0]; mode = a[1] if len(a) > 1 else kw.get("mode", "r")
            if not isinstance(path, str): raise Unsupported("computed path")
            if it.merging: raise MergeFail("file access")
            self.log.append(("open", path, mode))
            if mode.startswith("r"):
                if not self.exists(path): raise PyRaise(ExcVal("FileNotFoundError", [path]))
            elif mode.startswith("w"): self.files[path] = ("truncated", None)
            else: raise Unsupported("file mode " + mode)
            return handle(path, mode)
        def load(it, a, kw):
            p = a[0].c["path"]; self.log.append(("load", p))
            kind, v = self.files[p]
            if kind != "object": raise PyRaise(ExcVal("ValueError", ["unreadable file"]))
            return self.deep(v)
        def dump(it, a, kw):
            p = a[1].c["path"]; self.log.append(("dump", p))
            if not a[1].c["mode"].startswith("w"): raise PyRaise(ExcVal("OSError", ["not writable"]))
            self.files[p] = ("object", self.deep(a[0]))
        def dumps(it, a, kw):
            o = Obj(ClassVal("pickled", [], None)); o.c["v"] = self.deep(a[0]); return o
        def md5(it, a, kw):
            o = Obj(ClassVal("digest", [], None)); v = a[0].c["v"]
            def hx(it, a_, kw_):
                for k, w in enumerate(self.seen):
                    if self.same(v, w): return "digest%d" % k
                self.seen.append(v); return "digest%d" % (len(self.seen) - 1)
            o.c["hexdigest"] = Native(hx); o.c["digest"] = Native(hx); return o
        nat = it.natives
        nat["open"] = op
        for m in ("pickle", "cPickle"): nat[m + ".load"] = load; nat[m + ".dump"] = dump; nat[m + ".dumps"] = dumps
        for h in ("md5", "sha1", "sha256"): nat["hashlib." + h] = md5
        for q in ("os.path.exists", "os.path.isfile"): nat[q] = lambda it, a, kw: self.exists(a[0])
        nat["os.path.join"] = lambda it, a, kw: "/".join(a)
    def exists(self, path):
        if path in self.files: return True
        if path in self.pre: return False
        k = len(self.pre)
        if self.vc.it.decide(app("exists%d" % k, s="B")):
            self.pre[path] = k
            self.files[path] = ("object", self.vc.py({"r": var("stored%d" % k, "U")})) if self.vc.it.decide(app("readable%d" % k, s="B")) else ("corrupt", None)
            return True
        self.pre[path] = None
        return False
    def same(self, a, b, seen=()):
        """equality of serialised structures, decided on this path"""
        if isinstance(a, T) or isinstance(b, T):
            if not (isinstance(a, T) and isinstance(b, T)): return False
            return self.vc.it.decide(eq(a, b))
        if isinstance(a, PyDict) and isinstance(b, PyDict):
            return list(a.d) == list(b.d) and all(self.same(a.d[k], b.d[k]) for k in a.d)
        if isinstance(a, Obj) and isinstance(b, Obj):
            if (a, b) in seen: return True
            return a.cls is b.cls and sorted(a.c) == sorted(b.c) and all(self.same(a.c[k], b.c[k], seen + ((a, b),)) for k in sorted(a.c))
        if isinstance(a, (PyList, tuple)) and type(a) == type(b):
            la, lb = self.vc.it.seq_of(a), self.vc.it.seq_of(b)
            return len(la) == len(lb) and all(self.same(x, y) for x, y in zip(la, lb))
        if isinstance(a, Arr) and isinstance(b, Arr):
            return self.vc.it.matlam(a) is self.vc.it.matlam(b) if a.ndim == 2 and b.ndim == 2 else a is b
        return type(a) == type(b) and a == b
    def value(self, d):
        """the cached object as a comparable value"""
        return d

def cached(vc, fs, inputs, d, desc, result, fail=False):
    """run the documented pattern; -> (what the body saw, exception)"""
    saw = []
    def body(it, a, kw):
        out = a[0]
        saw.append(dict(out.d))
        if fail: raise PyRaise(ExcVal("RuntimeError", ["the computation failed"]))
        if not out.d: it.setitem(out, "r", result)
    env_kw = dict(inputs_dict=inputs, data_dir=d)
    if desc is not None: env_kw["desc"] = desc
    e, _ = vc.raises(lambda: vc.within_fn(C + "cached_operation", env_kw, Native(body, "body")))
    return saw, e

def single(vc, d, desc, fail):
    fs = FS(vc)
    inputs = vc.py({"x": var("x", "U"), "n": 3})
    r = var("r", "U")
    saw, e = cached(vc, fs, inputs, d, desc, r, fail)
    vc.require((e is not None) == fail, "outcome of the computation is passed on")
    vc.require(len(saw) == 1, "the body runs exactly once")
    vc.require(set(inputs.d) == {"x", "n"} and inputs.d["x"] is var("x", "U") and inputs.d["n"] == 3, "the inputs are unchanged")
    if not saw: return
    saw = saw[0]
    if not d:
        vc.require(not fs.log and not fs.files, "with caching disabled no file is touched")
        vc.require(saw == {}, "with caching disabled the result is recomputed")
        return
    paths = {l[1] for l in fs.log}
    vc.require(len(paths) == 1, "one file per operation")
    p = next(iter(paths))
    vc.require(p.startswith(d + "/"), "the file lies in the given directory")
    hit = fs.pre.get(p) is not None and ("readable" in str(fs.vc.it.path_assum) and fs.vc.it.decide(app("readable%d" % fs.pre[p], s="B")))
    writes = [l for l in fs.log if l[0] == "dump" or l[0] == "open" and not l[2].startswith("r")]
    if hit:
        k = fs.pre[p]
        vc.require(list(saw) == ["r"] and saw["r"] is var("stored%d" % k, "U"), "the stored result is loaded unchanged")
        vc.require(not writes, "an existing result is not written")
        vc.require(fs.files[p][0] == "object" and fs.files[p][1].d["r"] is var("stored%d" % k, "U"), "an existing result stays as it was")
    else:
        vc.require(saw == {}, "without a readable result the computation starts from nothing")
        if fail: vc.require(not writes, "a failed computation stores nothing")
        else:
            vc.require(p in fs.files and fs.files[p][0] == "object" and list(fs.files[p][1].d) == ["r"] and fs.files[p][1].d["r"] is r, "the computed result is stored")
for d in (None, "", "dir"):
    for desc in (None, "desc"):
        for fail in (False, True):
            contract("cached_operation(dir=%r, desc=%r)%s" % (d, desc, " failing" if fail else ""))(lambda vc, d=d, desc=desc, fail=fail: single(vc, d, desc, fail))

def history(vc):
    """three operations on an initially empty directory: a result is loaded exactly when an operation with identical inputs stored it"""
    fs = FS(vc)
    fs.exists = lambda p: p in fs.files
    xs = [var("x%d" % k, "U") for k in range(3)]
    rs = [var("r%d" % k, "U") for k in range(3)]
    for k in range(3):
        saw, e = cached(vc, fs, vc.py({"x": xs[k], "n": 1}), "dir", "", rs[k])
        vc.require(e is None, "no failure")
        prev = next((j for j in range(k) if vc.it.decide(eq(xs[j], xs[k]))), None)
        if prev is None: vc.require(saw == [{}], "an input not seen before is computed")
        else: vc.require(len(saw) == 1 and saw[0].get("r") is rs[prev], "an identical input gets the result stored for it")
contract("cached_operation: three operations", maxpaths=200)(history)

def other(vc, what):
    """operations that differ in directory, description or inputs never share a file"""
    fs = FS(vc); fs.exists = lambda p: p in fs.files
    a = dict(d="dir", desc="d1", i={"x": var("x", "U")}); b = {**a, **{"dir": dict(d="dir2"), "key": dict(i={"y": var("x", "U")}), "more": dict(i={"x": var("x", "U"), "z": 1})}[what]}
    cached(vc, fs, vc.py(a["i"]), a["d"], a["desc"], var("r1", "U"))
    saw, _ = cached(vc, fs, vc.py(b["i"]), b["d"], b["desc"], var("r2", "U"))
    vc.require(saw == [{}] and len(fs.files) == 2, "separate results")
    saw, _ = cached(vc, fs, vc.py(a["i"]), a["d"], a["desc"], var("r3", "U"))
    vc.require(len(saw) == 1 and saw[0].get("r") is var("r1", "U"), "the first result is still there")
for w in ("dir", "key", "more"):
    contract("cached_operation: differing %s" % w)(lambda vc, w=w: other(vc, w))

def selfobj(vc):
    """a model as input: its printer does not matter, every other attribute does, and the model is left as it was"""
    fs = FS(vc); fs.exists = lambda p: p in fs.files
    def mk(k, a):
        o = Obj(ClassVal("M", [], None)) if not cls else Obj(cls[0])
        if not cls: cls.append(o.cls)
        o.c = {"printer": var("printer%d" % k, "U"), "attr": a, "other": 3}; return o
    cls = []
    a1, a2 = var("a1", "U"), var("a2", "U")
    m1, m2 = mk(1, a1), mk(2, a2)
    c1 = vc.call(C + "_caching_checksum", {"self": m1}); c2 = vc.call(C + "_caching_checksum", {"self": m2})
    same = vc.it.decide(eq(a1, a2))
    vc.require((c1 == c2) == same, "equal checksums exactly for equal content, whatever the printer")
    for m, k, a in ((m1, 1, a1), (m2, 2, a2)):
        vc.require(set(m.c) == {"printer", "attr", "other"} and m.c["printer"] is var("printer%d" % k, "U") and m.c["attr"] is a and m.c["other"] == 3, "the model is left as it was")
contract("_caching_checksum of a model")(selfobj)

MODELS = {"rbf:RBF": (["sol", "mtx"], "rbfc"), "idw:IDW": ([], "idwc"), "ls:LS": ([], None), "qp:QP": ([], None),
          "rmtb:RMTB": (["sol_coeff", "sol", "mtx", "full_dof2coeff", "full_hess", "full_jac_dict"], "rmtsc"),
          "rmtc:RMTC": (["sol_coeff", "sol", "mtx", "full_dof2coeff", "full_hess", "full_jac_dict"], "rmtsc")}
def training(vc, name):
    """a second model with identical data and options ends with the state that training directly gives"""
    attrs, ext = MODELS[name]
    fs = FS(vc); fs.exists = lambda p: p in fs.files
    kw = {"xlimits": vc.arr("lim", 2, 2)} if "rmt" in name else {}
    fs.same = lambda a, b, seen=(): identical[0]          # the two inputs are identical (or not) by assumption
    runs = []
    def setup(it, a, kw_):
        if ext: a[0].put(ext, var("extern", "U"))
    def new(it, a, kw_):
        runs.append(a[0])
        for n in attrs: a[0].put(n, app("trained_" + n, s="U"))
    mod, c = name.split(":")
    for owner in {"rmtb:RMTB": ["rmtb:RMTB", "rmts:RMTS"], "rmtc:RMTC": ["rmtc:RMTC", "rmts:RMTS"]}.get(name, [name]):
        vc.it.stubs["smt.surrogate_models.%s._setup" % owner] = setup
        vc.it.stubs["smt.surrogate_models.%s._new_train" % owner] = new
    sms = []
    for k in range(2):
        sm = vc.new("smt.surrogate_models." + name, print_global=False, **kw)
        vc.it.setitem(vc.attr(sm, "options"), "data_dir", "dir")
        if ext: sm.put(ext, var("extern", "U"))
        sms.append(sm)
    identical = [vc.it.decide(app("identical", s="B"))]
    for k, sm in enumerate(sms):
        p = vc.attr(sm, "printer")
        vc.method(sm, "_train")
        for n in attrs: vc.require(sm.c.get(n) is app("trained_" + n, s="U"), "%s equals the directly trained one (model %d)" % (n, k + 1))
        if not attrs: vc.require(sm in runs, "a model without stored results is always trained")
        if ext: vc.require(sm.c.get(ext) is var("extern", "U"), "compiled part of the model is in place after training")
        vc.require(vc.attr(sm, "printer") is p, "the printer is in place after training")
    vc.require(sms[0] in runs, "the first model is trained")
    if not identical[0]: vc.require(sms[1] in runs, "different inputs are never served from the cache")
for m in MODELS:
    contract("%s._train through the cache" % m.split(":")[1])(lambda vc, m=m: training(vc, m))

def disabled(vc, name):
    attrs, ext = MODELS[name]
    fs = FS(vc); runs = []
    kw = {"xlimits": vc.arr("lim", 2, 2)} if "rmt" in name else {}
    for owner in {"rmtb:RMTB": ["rmtb:RMTB", "rmts:RMTS"], "rmtc:RMTC": ["rmtc:RMTC", "rmts:RMTS"]}.get(name, [name]):
        vc.it.stubs["smt.surrogate_models.%s._setup" % owner] = lambda it, a, k: None
        def new(it, a, k):
            runs.append(a[0])
            for n in attrs: a[0].put(n, var("v", "U"))
        vc.it.stubs["smt.surrogate_models.%s._new_train" % owner] = new
    sm = vc.new("smt.surrogate_models." + name, print_global=False, **kw)
    if ext: sm.put(ext, var("extern", "U"))
    vc.method(sm, "_train"); vc.method(sm, "_train")
    vc.require(len(runs) == 2 and not fs.log, "without a cache directory every training is computed and no file is touched")
for m in MODELS:
    contract("%s._train without a cache" % m.split(":")[1])(lambda vc, m=m: disabled(vc, m))
