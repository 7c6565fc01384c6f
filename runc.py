"""development driver: python3-vt runc.py P23 [filter]"""
import sys, importlib; sys.path.insert(0, "/verif"); sys.setrecursionlimit(20000)
from pyvc.vc import run_contract
m = importlib.import_module("contracts." + sys.argv[1]); flt = sys.argv[2] if len(sys.argv) > 2 else ""
for c in m.contract.items:
    if flt not in c["name"] or not flt and c["thorough"] and __import__("os").environ.get("QUICK"): continue
    o = run_contract(c["name"], c["proof"], c["setup"], c["timeout"], c["maxpaths"])
    bad = [x for x in o["obligations"] if not x.ok]
    print("%-45s %s %s paths %d obl %d bad %d %.2fs" % (o["name"], o["status"], o["detail"], o["paths"], len(o["obligations"]), len(bad), o["time"]), flush=True)
    if o["status"] != "ok": print(o.get("where", "")[-int(sys.argv[3]):] if len(sys.argv) > 3 else o.get("where","")[-150:])
    for x in bad[:6]: print("    FAIL", x.kind, x.label, x.how, (lambda s, N=int(__import__("os").environ.get("RL","500")): s[:N] + " ... " + s[-N:])(str(x.residual)))
