#!/usr/bin/env python3-vt
"""check.py Pxx  -- decide property Pxx on /repo's current source.

1. contracts/Pxx.py: generate and discharge every proof obligation from the current source (pyvc);
2. harness/Pxx.py:   the same contracts, executable, on the real code (counter-example replay and the bounded
                     stand-in for code outside the verifier's reach).
Exit 0: every generated obligation discharged and no executable contract failed.  Exit 1: VIOLATION line."""
import os, sys, json, time, importlib, multiprocessing as mp, subprocess, hashlib, shutil, tempfile, resource, traceback
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V); sys.setrecursionlimit(20000)
REPO = os.environ.get("PYVC_REPO", "/repo")

def run_item(args):
    mod, k, tmo = args
    sys.setrecursionlimit(20000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    out = {}
    def go():
        try:
            m = importlib.import_module("contracts." + mod)
            from pyvc.vc import run_contract
            from pyvc import norm
            norm.TSCALE[0] = tmo
            c = m.contract.items[k]
            s0 = dict(norm.STATS)
            o = run_contract(c["name"], c["proof"], c["setup"], c["timeout"] * min(tmo, 2), c["maxpaths"])
            o["obligations"] = [dict(kind=x.kind, label=x.label, ok=bool(x.ok), how=str(x.how), time=round(x.time, 4), residual=(str(x.residual)[:4000] if not x.ok else None)) for x in o["obligations"]]
            o["functions"] = sorted(map(str, o["functions"])); o["builtins"] = sorted(map(str, o["builtins"]))
            o["stats"] = {a: norm.STATS[a] - s0.get(a, 0) for a in norm.STATS if isinstance(norm.STATS[a], (int, float))}
            out.update(o)
        except BaseException as e:
            out.update(name=str(k), status="unsupported", detail="engine crash %r" % (e,), obligations=[], paths=0, functions=[], builtins=[], time=0.0, stats={})
    t = threading.Thread(target=go); t.start(); t.join()
    return k, out

def work(conn, args):
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))      # one runaway obligation must not take the machine down
    try:
        o = run_item(args)[1]; o["peak_mb"] = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss >> 10; conn.send(o)
    except BaseException as e:
        try: conn.send(dict(name="", status="unsupported", detail="engine crash %r" % (e,), obligations=[], paths=0, functions=[], builtins=[], time=0.0, stats={}))
        except BaseException: pass
    conn.close(); os._exit(0)
MEM = 9 << 30

def run_items(pid, ks, jobs, scale, limit, cap, after=1e9):
    """one forked process per contract; -> {k: result} (a process that dies or overruns gives no result)"""
    from multiprocessing.connection import wait
    ctx = mp.get_context("fork"); todo = list(ks); live = {}; res = {}; t0 = time.time()
    while todo or live:
        while todo and len(live) < jobs and time.time() - t0 < limit:
            k = todo.pop(0); a, b = ctx.Pipe(False); p = ctx.Process(target=work, args=(b, (pid, k, scale))); p.start(); b.close()
            live[a] = (k, p, time.time())
        if not live: break
        for a in wait(list(live), timeout=1):
            k, p, _ = live.pop(a)
            try:
                o = a.recv(); o["peak_mb"] = o.get("peak_mb", 0)
                if o["name"]: res[k] = o
                if not all(x["ok"] for x in o["obligations"]): limit = min(limit, time.time() - t0 + after)     # the verdict is near: do not spend the whole budget on the rest
            except (EOFError, OSError): pass
            a.close(); p.join(5)
            if p.is_alive(): p.kill()
        for a, (k, p, s) in list(live.items()):
            if time.time() - s > cap or time.time() - t0 > limit: p.kill(); p.join(); a.close(); del live[a]
        if time.time() - t0 > limit: break
    return res

def prove(pid, tier, jobs):
    try: m = importlib.import_module("contracts." + pid)
    except ModuleNotFoundError as e:
        if "contracts" not in str(e): raise
        return [], [], None
    items = [k for k, c in enumerate(m.contract.items) if tier == "thorough" or not c["thorough"]]
    big = 560 if tier == "quick" else 3000
    res = run_items(pid, items, jobs, 1, big, big, 150 if tier == "quick" else 900)
    # a verdict must not depend on how busy the machine is: contracts left with undecided obligations are decided
    # once more, fewer at a time and with longer solver timeouts
    bad = lambda o: sum(not x["ok"] for x in o["obligations"])
    again = sorted((k for k in res if res[k]["status"] == "ok" and bad(res[k])), key=lambda k: res[k]["time"])[:12]
    for k, o in run_items(pid, again, 3, 5, 150 if tier == "quick" else 900, big).items():
        if o["status"] == "ok" and bad(o) < bad(res[k]): res[k] = o
    for k in items:
        if k not in res:
            res[k] = dict(name=m.contract.items[k]["name"], status="unsupported", detail="time or memory limit", obligations=[], paths=0, functions=[], builtins=[], time=0.0, stats={})
    return [res[k] for k in items], list(getattr(m, "ASSUMPTIONS", [])), m

# ---------------------------------------------------------------- real code
def ext_state(root):
    """which compiled extensions differ from their sources (same stamp rule as build.sh)"""
    stale = []
    for lib in ("idw", "rbf", "rmts"):
        so = os.path.join(root, "smt/surrogate_models/%sclib.cpython-312-x86_64-linux-gnu.so" % lib)
        st = os.path.join(root, "build/stamps", lib)
        sh = hashlib.sha256()
        sh.update(open(os.path.join(root, "setup.py"), "rb").read())
        fs = []
        for d, _, names in os.walk(os.path.join(root, "smt/src", lib)):
            for n in names:
                if n != lib + "clib.cpp": fs.append(os.path.relpath(os.path.join(d, n), root))
        for f in sorted(fs, key=lambda s: s.encode()):
            sh.update((f + "\n").encode()); sh.update(open(os.path.join(root, f), "rb").read())
        want = sh.hexdigest() + "  -"
        have = open(st).read().strip() if os.path.exists(st) else ""
        if not os.path.exists(so) or have != want: stale.append(lib)
    return stale

def env_for(root):
    e = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    e.update(OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", OPENBLAS_CORETYPE="Haswell", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
             MPLBACKEND="Agg", PYTHONNOUSERSITE="1", PYTHONPATH=root + ":" + V, PATH="/opt/venv/bin:" + os.environ.get("PATH", ""), PYTHONWARNINGS="ignore")
    return e

def tree(scratch):
    """directory from which the real code is imported: /repo when its extensions are current, else a scratch build"""
    stale = ext_state(REPO)
    if not stale: return REPO, None
    dst = os.path.join(scratch, "tree"); os.makedirs(dst)
    for n in ("smt", "setup.py", "README.md"):
        s = os.path.join(REPO, n)
        if os.path.isdir(s): shutil.copytree(s, os.path.join(dst, n), ignore=shutil.ignore_patterns("__pycache__"))
        elif os.path.exists(s): shutil.copy(s, os.path.join(dst, n))
    for lib in stale:
        for f in ("smt/surrogate_models/%sclib.cpython-312-x86_64-linux-gnu.so" % lib, "smt/src/%s/%sclib.cpp" % (lib, lib)):
            p = os.path.join(dst, f)
            if os.path.exists(p): os.remove(p)
    r = subprocess.run(["/opt/venv/bin/python", "setup.py", "build_ext", "--inplace", "-j", "3"], cwd=dst, env=env_for(dst), capture_output=True, text=True, timeout=600)
    if r.returncode: return dst, "build of the extensions failed: " + (r.stdout + r.stderr)[-2000:]
    return dst, None

def harness(pid, tier, seed, scratch, limit):
    h = os.path.join(V, "harness", pid + ".py")
    if not os.path.exists(h): return None
    root, err = tree(scratch)
    out = os.path.join(scratch, "harness.json")
    work = os.path.join(scratch, "work"); os.makedirs(work, exist_ok=True)
    cmd = ["/opt/venv/bin/python", "-X", "faulthandler", h, "--seed", str(seed), "--tier", tier, "--out", out, "--work", work, "--limit", str(limit)]
    try:
        p = subprocess.run(cmd, cwd=work, env=env_for(root), capture_output=True, text=True, timeout=limit + 120)
        rc, log = p.returncode, (p.stdout + p.stderr)[-6000:]
    except subprocess.TimeoutExpired as e:
        rc, log = -99, "harness exceeded its time limit"
    try: r = json.load(open(out))
    except Exception: r = dict(cases=0, evaluations=0, violations=[], samples=[], incomplete=True, progress=None)
    r["rc"] = rc; r["log"] = log; r["cmd"] = " ".join(cmd); r["build_error"] = err; r["root"] = root
    return r

def known(pid):
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s " % pid):
                rest = l.split(" ", 2)[2]
                key, _, what = rest.partition(" :: ")
                out.append((key.strip().removeprefix("key="), what))
    return out

def main():
    if os.environ.get("PYTHONHASHSEED") != "0":      # same term order on every run
        os.environ["PYTHONHASHSEED"] = "0"; os.execv(sys.executable, [sys.executable] + sys.argv)
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"): tier = "quick"
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="smtcheck_%s_" % pid)
    try:
        hres = {}
        import threading
        limit = 240 if tier == "quick" else 1500
        def hr():
            try: hres["r"] = harness(pid, tier, seed, scratch, limit)
            except Exception as e: hres["e"] = traceback.format_exc()
        th = threading.Thread(target=hr)
        # proofs first (they fork workers), the executable contracts on the real code after that
        results, assumptions, mod = prove(pid, tier, 7)
        th.start(); th.join()
        finish(pid, tier, seed, t0, results, assumptions, mod, hres)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def finish(pid, tier, seed, t0, results, assumptions, mod, hres):
    obl = [(o["name"], x) for o in results for x in o["obligations"] if o["status"] == "ok"]
    undis = [(n, x) for n, x in obl if not x["ok"]]
    unreach = [dict(contract=o["name"], reason=o["detail"]) for o in results if o["status"] != "ok"]
    # obligations of contracts that went out of reach midway are not counted, except refuted ones
    h = hres.get("r")
    kn = known(pid); viol = []; knownhit = []
    rdir = os.path.join(V, "replays"); os.makedirs(rdir, exist_ok=True)
    if h is not None:
        for v in h.get("violations", []):
            hit = next((k for k in kn if k[0] == v["key"]), None)
            if hit: knownhit.append((hit, v)); continue
            viol.append(v)
        crashed = h["rc"] != 0 or h.get("incomplete")
        if h["build_error"]:
            viol.append(dict(key="build", what="the extensions do not build from the current source", input=h["build_error"]))
        elif h["rc"] == -99 and not viol:
            pr = h.get("progress") or {}
            if pr.get("hang"): viol.append(dict(key="hang", what="the call did not return: %s" % pr.get("label"), input=pr.get("input")))
        elif h["rc"] < 0 and not viol:
            pr = h.get("progress") or {}
            viol.append(dict(key="crash", what="the real code crashed the interpreter (signal %d) in: %s" % (-h["rc"], pr.get("label")), input=pr.get("input")))
    lines = []
    def replay(name, data):
        p = os.path.join(rdir, "%s_%s.json" % (pid, name)); json.dump(data, open(p, "w"), indent=1, default=str); return os.path.relpath(p, V)
    byk = {}
    for v in viol: byk.setdefault(v["key"], v)
    for i, (k, v) in enumerate(list(byk.items())[:8]):
        d = dict(property=pid, kind="executable contract failed on the real code", violation=v, seed=seed, tier=tier,
                 failed_obligations=["%s: %s" % (n, x["label"]) for n, x in undis][:20], rerun=h["cmd"])
        lines.append("VIOLATION property=%s replay=%s" % (pid, replay("v%d" % i, d))); lines.append("  %s: %s" % (k, str(v["what"])[:600]))
    if undis and not viol:
        d = dict(property=pid, kind="proof obligation not discharged", obligations=[dict(contract=n, **x) for n, x in undis][:40])
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, replay("proof", d)))
        for n, x in undis[:5]: lines.append("  undischarged obligation [%s] %s: %s (%s)" % (x["kind"], n, x["label"], x["how"]))
    for (k, what) in dict.fromkeys((hk for hk, v in knownhit)): print("KNOWN-FINDING: property=%s %s" % (pid, what or k))
    backs = {}
    for n, x in obl:
        if x["ok"]: backs[x["how"]] = backs.get(x["how"], 0) + 1
    solver = {}
    for o in results:
        for a, b in o.get("stats", {}).items(): solver[a] = round(solver.get(a, 0) + b, 3)
    cov = dict(obligations=len(obl), discharged=len(obl) - len(undis), checker_cmd="python3-vt /verif/check.py %s" % pid,
        trusted_base=["pyvc symbolic semantics of Python/numpy (terms, arrays, interp, loops, norm)", "z3"] + sorted({"assumed contract of " + b for o in results for b in o["builtins"]}),
        contracts=len(results), contracts_discharged=sum(o["status"] == "ok" and all(x["ok"] for x in o["obligations"]) for o in results),
        functions_under_contract=sorted({f for o in results if o["status"] == "ok" for f in o["functions"]}),
        paths=sum(o["paths"] for o in results), by_back_end=backs, solver=solver, peak_mb=max([o.get("peak_mb", 0) for o in results] or [0]), proof_s=round(sum(o["time"] for o in results), 2), out_of_reach=unreach,
        bounded=None if h is None else dict(label="bounded: executable contracts on the real code (replay and stand-in, not counted as proved)", cases=h.get("cases", 0), evaluations=h.get("evaluations", 0),
             distinct=h.get("distinct", 0), by_group=h.get("groups", {}), exit=h["rc"], incomplete=bool(h.get("incomplete")), notes=h.get("notes", []), harness_errors=h.get("errors", [])[:10]),
        samples=(h or {}).get("samples", [])[:6])
    level = getattr(mod, "LEVEL", "proof") if mod else "exploration"
    if not obl: level = "exploration"
    if h is not None: cov.update(evaluations=h.get("evaluations", 0), distinct_nontrivial=h.get("distinct", 0), rule="random and corner cases of the executable contract; a case is non-trivial when its inputs differ from every other case")
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 2), violations=sum(l.startswith("VIOLATION") for l in lines),
        assumptions=["machine floats are mathematical reals, machine ints are mathematical integers", "numpy/scipy functions behave as their assumed contracts in pyvc/npmodel.py say"] + assumptions)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1, default=str)
    for l in lines: print(l)
    print("%s: %d/%d obligations discharged in %d contracts; %d out of reach; bounded cases %s; %.1fs" % (pid, cov["discharged"], cov["obligations"], len(results), len(unreach), cov["bounded"] and cov["bounded"]["cases"], time.time() - t0))
    for u in unreach: print("  out of reach: %s (%s)" % (u["contract"], u["reason"][:200]))
    if hres.get("e"): print("  harness machinery error:", hres["e"][-1500:])
    if h is not None and h["rc"] != 0: print("  harness exit %s: %s" % (h["rc"], h["log"][-1500:]))
    for e in (h or {}).get("errors", [])[:5]: print("  harness note:", e)
    sys.stdout.flush()
    code = 1 if lines else 0
    sys.exit(code)

if __name__ == "__main__": main()
