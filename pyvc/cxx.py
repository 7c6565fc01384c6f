"""C++ front end: the sources of an extension library (/repo/smt/src/<lib>/*.cpp, *.pyx) are parsed with
clang (AST as JSON) on every run and rewritten, node by node, into the Python subset the verifier executes.

What the rewriting drops or changes: delete[] and destructors (memory is not modelled), assert() with
NDEBUG semantics, integer width (mathematical integers), int/int is floor division (= C++ truncation for
the non-negative operands it is used on; a negative operand is rejected), pointers are array views, a
pointer to an element is a view starting there, and the Cython wrapper's argument type declarations."""
import json, os, re, subprocess, glob
from .arrays import Unsupported
INC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "cxxinc")
LIBS = {"smt.surrogate_models.rbfclib": "rbf", "smt.surrogate_models.idwclib": "idw", "smt.surrogate_models.rmtsclib": "rmts"}

def ast_of(path, incdirs):
    p = subprocess.run(["clang", "-Xclang", "-ast-dump=json", "-fsyntax-only", "-nostdinc", "-nostdinc++", "-std=c++14", "-I", INC]
                       + [x for d in incdirs for x in ("-I", d)] + [path], capture_output=True, text=True)
    if p.returncode: raise Unsupported("clang: " + p.stderr[:300])
    return json.loads(p.stdout)

CALLS = {"pow": None, "exp": "np.exp", "ceil": "np.ceil", "floor": "np.floor", "sqrt": "np.sqrt", "fabs": "abs", "log": "np.log", "max": "max", "min": "min", "abs": "abs"}

_CACHE = {}
def source(repo, lib):
    if (repo, lib) not in _CACHE:
        try: _CACHE[repo, lib] = translate(repo, lib)
        except (OSError, KeyError, IndexError, AttributeError, ValueError) as e: raise Unsupported("C++ front end (%s): %r" % (lib, e))
    return _CACHE[repo, lib]

SCALARS = ("int", "long", "unsigned int", "unsigned long", "short", "long long", "unsigned long long", "char", "bool", "double", "float")
def tyname(t):
    q = t.get("desugaredQualType", t["qualType"])
    return re.sub(r"\b(const|volatile)\b", "", q).strip()
def isint(t): return tyname(t) in SCALARS[:-3]
def isptr(t): return tyname(t).endswith("*") or tyname(t).endswith("]")
def refof(t):
    """the scalar type a non-const reference type refers to (None: not such a reference)"""
    q = t.get("desugaredQualType", t["qualType"]).strip()
    if not q.endswith("&"): return None
    b = q.rstrip("&").strip()
    return None if b.startswith("const ") or b.endswith(" const") or b not in SCALARS else b

class Tr:
    def __init__(self, tree):
        self.ids = {}; self.owner = {}; self.refs = set(); self.pre = self.post = self.cur = None; self.tmp = 0; self.uninit = set()
        def walk(n, cls=None):
            if not isinstance(n, dict): return
            k = n.get("kind")
            if "id" in n: self.ids[n["id"]] = n
            c = n.get("name") if k == "CXXRecordDecl" else cls
            if k in ("CXXMethodDecl", "FieldDecl", "CXXConstructorDecl") and cls: self.owner[n["id"]] = cls
            for x in n.get("inner", []): walk(x, c)
        walk(tree)
        self.tree = tree
    # ------------------------------------------------------------- declarations
    def functions(self):
        """[(class or None, name, params, body)] of every definition outside the stub headers"""
        out = []; self.bases = {}; self.globals = []
        def top(t):
            for n in t.get("inner", []):
                if n.get("kind") in ("NamespaceDecl", "LinkageSpecDecl"): yield from top(n)
                else: yield n
        for n in top(self.tree):
            k = n.get("kind")
            if k == "VarDecl" and n.get("init") and n.get("storageClass") != "extern":
                self.names = {}; self.scopes = [set()]
                self.globals.append("%s = %s" % (n["name"], self.expr([x for x in n["inner"] if not x["kind"].endswith("Attr")][0])))
            if k == "CXXRecordDecl" and n.get("completeDefinition"):
                self.bases[n["name"]] = [b["type"]["qualType"] for b in n.get("bases", [])]
                for m in n.get("inner", []):
                    if m.get("kind") in ("CXXMethodDecl", "CXXConstructorDecl") and self.body(m): out.append((n["name"], m))
            if k in ("FunctionDecl",) and self.body(n): out.append((None, n))
            if k in ("CXXMethodDecl", "CXXConstructorDecl") and self.body(n):
                prev = n.get("previousDecl"); cls = self.owner.get(prev)
                if cls is None: raise Unsupported("method without class")
                out.append((cls, n))
        return out
    def body(self, n):
        for x in n.get("inner", []):
            if x.get("kind") == "CompoundStmt": return x
        return None
    def emit_function(self, cls, n):
        self.names = {}; self.scopes = [set()]; self.cls = cls; self.refs = set()
        params = []
        for x in n.get("inner", []):
            if x.get("kind") == "ParmVarDecl":
                params.append(self.declare(x))
                if refof(x["type"]): self.refs.add(x["id"])
                elif tyname(x["type"]).endswith("&") and "*" in x["type"]["qualType"]: raise Unsupported("reference to a pointer")
        name = n["name"]
        if n["kind"] == "CXXConstructorDecl": name = "__init__"
        head = "def %s(%s):" % (name, ", ".join((["self"] if cls else []) + params))
        try: body = self.block(self.body(n)) or ["pass"]
        except Unsupported as e: body = ["_unsupported(%r)" % str(e)]       # only what calls this function is out of reach
        return [head] + ["    " + l for l in body]
    def declare(self, d):
        nm = d["name"]
        while any(nm in s for s in self.scopes): nm += "_"
        if nm in ("in", "is", "not", "and", "or", "def", "from", "lambda", "pass", "del", "with", "np"): nm += "_"
        self.scopes[-1].add(nm); self.names[d["id"]] = nm
        return nm
    # ------------------------------------------------------------- statements
    def block(self, s):
        if s["kind"] != "CompoundStmt": return self.stmt(s)
        self.scopes.append(set()); out = []
        for x in s.get("inner", []): out += self.stmt(x)
        self.scopes.pop()
        return out
    def ind(self, ls): return ["    " + l for l in (ls or ["pass"])]
    def stmt(self, s):
        """one statement; a call that writes a scalar through a reference or an address passes it in a one-element
        array and copies it back, and an increment inside the statement happens before / after it"""
        k = s["kind"]
        simple = k in ("DeclStmt", "BinaryOperator", "CompoundAssignOperator", "CallExpr", "CXXMemberCallExpr", "ReturnStmt", "ExprWithCleanups")
        save = self.pre, self.post
        self.pre, self.post = ([], []) if simple else (None, None)
        try:
            self.cur = s if simple else None
            out = self.stmt_(s)
            if not simple: return out
            if k == "ReturnStmt" and self.post:
                if not s.get("inner"): raise Unsupported("return")
                return self.pre + ["ret__ = " + out[0][len("return "):]] + self.post + ["return ret__"]
            return self.pre + out + self.post
        finally: self.pre, self.post = save
    def conditional(self, n):
        if not isinstance(n, dict): return False
        if n.get("kind") == "ConditionalOperator" or n.get("kind") == "BinaryOperator" and n["opcode"] in ("&&", "||", ","): return True
        return any(self.conditional(x) for x in n.get("inner", []))
    def outparam(self, x):
        """a one-element view of the scalar lvalue x, for a callee that may write it"""
        x = self.strip(x)
        if x["kind"] == "ArraySubscriptExpr": return "%s[%s:]" % (self.expr(x["inner"][0]), self.expr(x["inner"][1]))
        if x["kind"] == "UnaryOperator" and x["opcode"] == "*": return self.expr(x["inner"][0])
        if x["kind"] == "DeclRefExpr" and x["referencedDecl"]["id"] in self.refs: return self.names[x["referencedDecl"]["id"]]
        if x["kind"] in ("DeclRefExpr", "MemberExpr") and tyname(x["type"]) in SCALARS:
            if self.pre is None: raise Unsupported("address of a scalar inside a compound statement")
            nm = self.expr(x)
            if any(l.endswith("[%s])" % nm) or l.startswith("%s = " % nm) for l in self.pre + self.post): raise Unsupported("scalar written twice in one statement")
            self.tmp += 1; t = "ref%d__" % self.tmp
            self.pre += ["%s = np.empty(1, dtype=%s)" % (t, "int" if isint(x["type"]) else "float")]
            if x["kind"] != "DeclRefExpr" or x["referencedDecl"]["id"] not in self.uninit: self.pre += ["%s[0] = %s" % (t, nm)]
            self.post += ["%s = %s[0]" % (nm, t)]
            if x["kind"] == "DeclRefExpr": self.uninit.discard(x["referencedDecl"]["id"])
            return t
        raise Unsupported("address of %s" % x["kind"])
    def callargs(self, args, decl):
        """arguments; those bound to a non-const scalar reference are passed as one-element views"""
        ps = [x for x in decl.get("inner", []) if x.get("kind") == "ParmVarDecl"]
        out = []
        for i, x in enumerate(args):
            if i < len(ps) and refof(ps[i]["type"]): out.append(self.outparam(x))
            else: out.append(self.expr(x))
        return out
    def stmt_(self, s):
        k = s["kind"]
        if k == "CompoundStmt": return self.block(s)
        if k == "NullStmt": return []
        if k == "DeclStmt":
            out = []
            for d in s["inner"]:
                if d["kind"] != "VarDecl": raise Unsupported("declaration %s" % d["kind"])
                init = [x for x in d.get("inner", []) if "kind" in x and not x["kind"].endswith("Attr")]
                if d.get("storageClass") == "static" and "const" not in d["type"]["qualType"]: raise Unsupported("static local")
                if tyname(d["type"]).endswith("&") and isptr({"qualType": tyname(d["type"]).rstrip("& ")}): raise Unsupported("reference to a pointer")
                if tyname(d["type"]).endswith("&") and tyname(d["type"]).rstrip("& ") in SCALARS and self.strip(init[0])["kind"] in ("ArraySubscriptExpr", "DeclRefExpr", "MemberExpr", "UnaryOperator"):
                    x = self.strip(init[0])
                    if x["kind"] != "ArraySubscriptExpr" and not (x["kind"] == "UnaryOperator" and x["opcode"] == "*") and not (x["kind"] == "DeclRefExpr" and x["referencedDecl"]["id"] in self.refs):
                        raise Unsupported("reference to a scalar variable")
                    e = self.outparam(x); nm = self.declare(d); self.refs.add(d["id"]); out.append("%s = %s" % (nm, e)); continue
                e = self.expr(init[0]) if init else None
                nm = self.declare(d)
                if e is None and tyname(d["type"]) in SCALARS: self.uninit.add(d["id"])
                if e is not None: out.append("%s = %s" % (nm, e))
                elif "[" in d["type"]["qualType"]:
                    t, sz = re.match(r"(\w+)\s*\[(\d+)\]", d["type"]["qualType"]).groups()
                    out.append("%s = np.empty(%s, dtype=%s)" % (nm, sz, "float" if t == "double" else "int"))
            return out
        if k == "IfStmt":
            inn = s["inner"]
            if s.get("hasVar") or s.get("hasInit"): raise Unsupported("if with declaration")
            out = ["if %s:" % self.expr(inn[0])] + self.ind(self.scoped(inn[1]))
            if len(inn) > 2: out += ["else:"] + self.ind(self.scoped(inn[2]))
            return out
        if k == "ForStmt": return self.for_(s)
        if k == "WhileStmt": return ["while %s:" % self.expr(s["inner"][0])] + self.ind(self.scoped(s["inner"][1]))
        if k == "ReturnStmt":
            return ["return" + (" " + self.expr(s["inner"][0]) if s.get("inner") else "")]
        if k == "BreakStmt": return ["break"]
        if k == "ContinueStmt": return ["continue"]
        if k in ("ExprWithCleanups", "ParenExpr", "CStyleCastExpr", "CXXFunctionalCastExpr") and s["type"]["qualType"] != "void" or k == "ExprWithCleanups": return self.stmt(s["inner"][0])
        if k == "CXXDeleteExpr": return []
        if k == "BinaryOperator" and s["opcode"] == "=":
            return ["%s = %s" % (self.lhs(s["inner"][0]), self.expr(s["inner"][1]))]
        if k == "BinaryOperator" and s["opcode"] == ",":
            return self.stmt(s["inner"][0]) + self.stmt(s["inner"][1])
        if k == "CompoundAssignOperator":
            l, r = self.lhs(s["inner"][0]), self.expr(s["inner"][1])
            op = s["opcode"][:-1]
            lt, ct = s["inner"][0]["type"], s["computeResultType"]
            if isptr(lt):
                if op == "+": return ["%s = %s[%s:]" % (l, l, r)]
                raise Unsupported("pointer arithmetic")
            if op == "/" and isint(ct): e = "_cdiv(%s, %s)" % (l, r)
            elif op == "%": e = "_cmod(%s, %s)" % (l, r)
            elif op in "+-*/": e = "%s %s (%s)" % (l, op, r)
            else: raise Unsupported("operator " + s["opcode"])
            if isint(lt) and not isint(ct): e = "int(%s)" % e
            elif op in "+-*" or not isint(lt): return ["%s %s= %s" % (l, op, r)]
            return ["%s = %s" % (l, e)]
        if k == "UnaryOperator" and s["opcode"] in ("++", "--"):
            if isptr(s["inner"][0]["type"]):
                if s["opcode"] == "++": return ["%s = %s[1:]" % ((self.lhs(s["inner"][0]),) * 2)]
                raise Unsupported("pointer arithmetic")
            return ["%s %s= 1" % (self.lhs(s["inner"][0]), s["opcode"][0])]
        if k in ("CallExpr", "CXXMemberCallExpr"):
            e = self.expr(s)
            return e if isinstance(e, list) else [e]
        if k in ("ImplicitCastExpr", "CStyleCastExpr"): return []          # ((void)0)
        raise Unsupported("C++ statement %s" % k)
    def scoped(self, s):
        self.scopes.append(set())
        try: return self.block(s)
        finally: self.scopes.pop()
    def assigned(self, n, acc):
        if isinstance(n, dict):
            k = n.get("kind")
            if k == "BinaryOperator" and n["opcode"] == "=" or k == "CompoundAssignOperator" or k == "UnaryOperator" and n["opcode"] in ("++", "--"):
                acc.append(self.strip(n["inner"][0]))
            if k == "ContinueStmt": acc.append(n)
            for x in n.get("inner", []): self.assigned(x, acc)
        return acc
    def strip(self, n):
        while n["kind"] in ("ParenExpr", "ImplicitCastExpr"): n = n["inner"][0]
        return n
    def ref(self, n):
        n = self.strip(n)
        return n["referencedDecl"]["id"] if n["kind"] == "DeclRefExpr" else None
    def reads(self, n, acc):
        if isinstance(n, dict):
            if n.get("kind") in ("DeclRefExpr", "MemberExpr", "ArraySubscriptExpr"): acc.append(n)
            for x in n.get("inner", []): self.reads(x, acc)
        return acc
    def for_(self, s):
        init, _, cond, inc, body = s["inner"]
        self.scopes.append(set())
        try:
            simple = None
            if init.get("kind") == "DeclStmt" and len(init["inner"]) == 1 and cond.get("kind") == "BinaryOperator" and cond["opcode"] in ("<", "<=", ">", ">=", "!="):
                d = init["inner"][0]; vid = d["id"]
                step = None
                if inc.get("kind") == "UnaryOperator" and inc["opcode"] in ("++", "--") and self.ref(inc["inner"][0]) == vid: step = 1 if inc["opcode"] == "++" else -1
                if inc.get("kind") == "CompoundAssignOperator" and inc["opcode"] in ("+=", "-=") and self.ref(inc["inner"][0]) == vid:
                    c = self.strip(inc["inner"][1])
                    if c["kind"] == "IntegerLiteral": step = int(c["value"]) * (1 if inc["opcode"] == "+=" else -1)
                wr = self.assigned(body, [])
                wid = {w["referencedDecl"]["id"] for w in wr if w["kind"] == "DeclRefExpr"}
                wmem = {w.get("name") for w in wr if w["kind"] == "MemberExpr"}
                bound_ok = all((r["kind"] == "DeclRefExpr" and r["referencedDecl"]["id"] not in wid) or (r["kind"] == "MemberExpr" and r.get("name") not in wmem) or
                               (r["kind"] == "ArraySubscriptExpr" and not any(w["kind"] == "ArraySubscriptExpr" and w["type"] == r["type"] for w in wr)) for r in self.reads(cond["inner"][1], []))
                if step is not None and vid not in wid and bound_ok and self.ref(cond["inner"][0]) == vid and (cond["opcode"] in ("<", "<=")) == (step > 0) and d.get("inner"):
                    lo = self.expr(d["inner"][0]); hi = self.expr(cond["inner"][1]); v = self.declare(d)
                    if cond["opcode"] == "<=": hi = "(%s) + 1" % hi
                    if cond["opcode"] == ">=": hi = "(%s) - 1" % hi
                    rng = "range(%s)" % hi if lo == "0" and step == 1 else "range(%s, %s%s)" % (lo, hi, "" if step == 1 else ", %d" % step)
                    simple = ["for %s in %s:" % (v, rng)] + self.ind(self.scoped(body))
            if simple: return simple
            if any(w["kind"] == "ContinueStmt" for w in self.assigned(body, [])): raise Unsupported("continue in a general for loop")
            out = self.stmt(init) if init else []
            out += ["while %s:" % (self.expr(cond) if cond else "True")] + self.ind(self.scoped(body) + (self.stmt(inc) if inc else []))
            return out
        finally: self.scopes.pop()
    # ------------------------------------------------------------- expressions
    def lhs(self, n):
        n = self.strip(n)
        if n["kind"] == "DeclRefExpr": self.uninit.discard(n["referencedDecl"]["id"])
        if n["kind"] == "UnaryOperator" and n["opcode"] == "*": return self.deref(n["inner"][0])
        return self.expr(n)
    def deref(self, n): return "%s[0]" % self.expr(n)
    def expr(self, n):
        k = n["kind"]; inn = n.get("inner", [])
        if k in ("ParenExpr",): return "(%s)" % self.expr(inn[0])
        if k in ("ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr"): return self.expr(inn[0])
        if k in ("ImplicitCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr", "CXXStaticCastExpr"):
            ck = n.get("castKind")
            e = self.expr(inn[0])
            if ck == "FloatingToIntegral": return "int(%s)" % e
            if ck == "NullToPointer": return "None"
            if ck == "IntegralToFloating" and re.fullmatch(r"\d+", e): return e + "."
            if ck == "IntegralToBoolean": return "((%s) != 0)" % e
            return e
        if k == "IntegerLiteral": return n["value"]
        if k == "FloatingLiteral":
            v = n["value"]; return v if "." in v or "e" in v else v + "."
        if k == "CXXBoolLiteralExpr": return "True" if n["value"] in (True, "true") else "False"
        if k == "CXXNullPtrLiteralExpr" or k == "GNUNullExpr": return "None"
        if k == "CXXThisExpr": return "self"
        if k == "DeclRefExpr":
            d = n["referencedDecl"]
            nm = self.names.get(d["id"], d["name"])
            return nm + "[0]" if d["id"] in self.refs else nm
        if k == "MemberExpr": return "%s.%s" % (self.expr(inn[0]), n["name"])
        if k == "ArraySubscriptExpr": return "%s[%s]" % (self.expr(inn[0]), self.expr(inn[1]))
        if k == "UnaryOperator":
            op = n["opcode"]
            if op == "-": return "(-%s)" % self.expr(inn[0])
            if op == "+": return self.expr(inn[0])
            if op == "!": return "(not %s)" % self.expr(inn[0])
            if op == "*":
                if "(" in n["type"]["qualType"]: return self.expr(inn[0])      # function designator
                return self.deref(inn[0])
            if op == "&":
                x = self.strip(inn[0])
                if x["kind"] == "DeclRefExpr" and "(" in x["type"]["qualType"]: return self.expr(x)
                if x["kind"] in ("ArraySubscriptExpr", "DeclRefExpr", "MemberExpr", "UnaryOperator"): return self.outparam(x)
            if op in ("++", "--") and self.pre is not None and self.cur is not None:
                x = self.strip(inn[0]); vid = self.ref(inn[0])
                if vid is None or isptr(x["type"]) or vid in self.refs: raise Unsupported("increment inside an expression")
                uses = [r for r in self.reads(self.cur, []) if r["kind"] == "DeclRefExpr" and r["referencedDecl"]["id"] == vid]
                if len(uses) != 1 or self.conditional(self.cur): raise Unsupported("increment inside an expression")
                (self.post if n.get("isPostfix") else self.pre).append("%s %s= 1" % (self.expr(x), op[0]))
                return self.expr(x)
            raise Unsupported("C++ unary %s" % op)
        if k == "BinaryOperator":
            op = n["opcode"]; a, b = self.expr(inn[0]), self.expr(inn[1])
            if op == "&&": return "(%s and %s)" % (a, b)
            if op == "||": return "(%s or %s)" % (a, b)
            if op == "/" and isint(n["type"]): return "_cdiv(%s, %s)" % (a, b)
            if op == "%": return "_cmod(%s, %s)" % (a, b)
            if op in ("+", "-") and "*" in n["type"]["qualType"]:
                if op == "+" : return "%s[%s:]" % (a, b)
                raise Unsupported("pointer arithmetic")
            if op in ("+", "-", "*", "/", "<", "<=", ">", ">=", "==", "!="): return "(%s %s %s)" % (a, op, b)
            raise Unsupported("C++ operator " + op)
        if k == "ConditionalOperator": return "(%s if %s else %s)" % (self.expr(inn[1]), self.expr(inn[0]), self.expr(inn[2]))
        if k == "InitListExpr": return "np.array([%s])" % ", ".join(self.expr(x) for x in (inn or n.get("array_filler", [])))
        if k == "CXXNewExpr":
            if not n.get("isArray"): raise Unsupported("new of an object")
            t = n["type"]["qualType"]
            return "np.empty(%s, dtype=%s)" % (self.expr(inn[0]), "float" if t.startswith("double") else "int")
        if k == "CXXMemberCallExpr":
            m = inn[0]
            while m["kind"] in ("ParenExpr", "ImplicitCastExpr"): m = m["inner"][0]
            if m["kind"] != "MemberExpr": raise Unsupported("member call")
            args = self.callargs(inn[1:], self.ids.get(m.get("referencedMemberDecl"), {}))
            own = self.owner.get(m.get("referencedMemberDecl"))
            decl = self.ids.get(m.get("referencedMemberDecl"), {})
            obj = self.expr(m["inner"][0])
            if own and obj == "self" and not decl.get("virtual"): return "%s.%s(%s)" % (own, m["name"], ", ".join(["self"] + args))
            return "%s.%s(%s)" % (obj, m["name"], ", ".join(args))
        if k == "CallExpr":
            f = inn[0]
            while f["kind"] in ("ParenExpr", "ImplicitCastExpr"): f = f["inner"][0]
            if f["kind"] == "UnaryOperator" and f["opcode"] == "*": f = f["inner"][0]
            while f["kind"] in ("ParenExpr", "ImplicitCastExpr"): f = f["inner"][0]
            if f["kind"] != "DeclRefExpr": raise Unsupported("indirect call")
            nm = f["referencedDecl"]["name"]
            if nm == "memcpy":
                cnt = self.strip(inn[3])
                if cnt["kind"] == "BinaryOperator" and cnt["opcode"] == "*":
                    keep = [x for x in cnt["inner"] if self.strip(x)["kind"] != "UnaryExprOrTypeTraitExpr"]
                    if len(keep) == 1:
                        c = self.expr(keep[0]); dst, src = self.expr(inn[1]), self.expr(inn[2])
                        return ["%s[:%s] = %s[:%s]" % (dst, c, src, c)]
                raise Unsupported("memcpy form")
            args = self.callargs(inn[1:], self.ids.get(f["referencedDecl"]["id"], {}))
            if f["referencedDecl"]["id"] in self.names: return "%s(%s)" % (self.names[f["referencedDecl"]["id"]], ", ".join(args))
            if nm in CALLS:
                if nm == "pow": return "(%s) ** (%s)" % tuple(args) if False else "((%s) ** (%s))" % tuple(args)
                return "%s(%s)" % (CALLS[nm], ", ".join(args))
            if nm in ("memset", "swap"): raise Unsupported(nm)
            return "%s(%s)" % (nm, ", ".join(args))
        raise Unsupported("C++ expression %s" % k)

def pyx(src):
    """Python text of the Cython wrapper classes"""
    out = []; skip = False
    lines = src.splitlines(); i = 0
    while i < len(lines):
        l = lines[i]; i += 1
        if l.startswith(("from libcpp", "from cpython", "cimport", "import")): continue
        if l.startswith("cdef extern"):
            while i < len(lines) and (not lines[i].strip() or lines[i][0] in " \t"): i += 1
            continue
        m = re.match(r"cdef class (\w+):", l)
        if m: out.append("class %s(object):" % m[1]); continue
        if re.match(r"\s*cdef ", l): continue
        if re.match(r"\s*def ", l):
            while not l.rstrip().endswith(":"): l = l.rstrip() + " " + lines[i].strip(); i += 1
            m = re.match(r"(\s*)def (\w+)\((.*)\):", l)
            args = [a.strip().split()[-1] for a in re.sub(r"\[[^\]]*\]", "", m[3]).split(",")]
            name = {"__cinit__": "__init__"}.get(m[2], m[2])
            out.append("%sdef %s(%s):" % (m[1], name, ", ".join(args))); continue
        m = re.match(r"(\s*)self\.thisptr = new (\w+)\(\)", l)
        if m: out.append("%sself.thisptr = %s()" % (m[1], m[2])); continue
        if re.match(r"\s*del self\.thisptr", l): out.append(re.match(r"\s*", l)[0] + "pass"); continue
        out.append(re.sub(r"&(\w+)\[0\]", r"\1", l))
    return out

def translate(repo, lib):
    """Python source of library `lib`"""
    d = os.path.join(repo, "smt", "src", lib)
    funcs = {}; classes = {}; bases = {}; glob_ = {}
    for f in sorted(glob.glob(d + "/*.cpp")):
        if os.path.basename(f) == lib + "clib.cpp": continue
        t = Tr(ast_of(f, [d]))
        for cls, n in t.functions():
            src = t.emit_function(cls, n)
            tab = funcs if cls is None else classes.setdefault(cls, {})
            if tab.setdefault(n["name"], src) != src: raise Unsupported("two functions called %s" % n["name"])
        for g in t.globals:
            if glob_.setdefault(g.split(" = ")[0], g) != g: raise Unsupported("two globals of one name")
        bases.update(t.bases)
    out = ["import numpy as np", ""] + list(glob_.values()) + [""]
    for s in funcs.values(): out += s + [""]
    done = []
    def emit(c):
        if c in done: return
        done.append(c)
        for b in bases.get(c, []): emit(b)
        out.append("class %s(%s):" % (c, ", ".join(bases.get(c, [])) or "object"))
        for s in classes.get(c, {}).values(): out.extend(["    " + l for l in s] + [""])
        if not classes.get(c): out.append("    pass")
    for c in bases: emit(c)
    out += pyx(open(os.path.join(d, lib + "clib.pyx")).read())
    return "\n".join(out) + "\n"

if __name__ == "__main__":
    import sys
    print(translate(os.environ.get("PYVC_REPO", "/repo"), sys.argv[1]))
