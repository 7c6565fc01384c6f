#!/usr/bin/env python3
"""Plant a bug: python3 tools/plant.py SPEC.py [--notest]
SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source), or
DEMO_SH.  Makes a scratch copy of /repo under /tmp/plant_<id>, applies, runs demo on both, runs the
stable tests there, writes /verif/seeded/<id>, removes the scratch copy."""
import json, os, runpy, shutil, subprocess, sys, tempfile

def sh(cmd, cwd, timeout=1500, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1",
             OMP_NUM_THREADS="1", PYTHONHASHSEED="0", PATH="/opt/venv/bin:" + os.environ["PATH"])
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)

def main(spec, test=True):
    S = runpy.run_path(spec)
    pid = S["ID"]
    tmp = "/tmp/plant_%s" % pid
    shutil.rmtree(tmp, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", tmp])
    out = "/verif/seeded/%s" % pid
    os.makedirs(out, exist_ok=True)
    open(out + "/demo.py", "w").write(S["DEMO"])
    open(out + "/demo.sh", "w").write(
        '#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
        'PYTHONPATH="$PWD" exec /opt/venv/bin/python "$D/demo.py"\n')
    os.chmod(out + "/demo.sh", 0o755)
    try:
        r = sh(["bash", out + "/demo.sh"], tmp, 300)
        print("demo on clean:", r.returncode, r.stdout[-300:], r.stderr[-300:])
        ok = r.returncode == 0
        cpp = False
        for f, old, new in S["EDITS"]:
            p = os.path.join(tmp, f)
            s = open(p, newline="").read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w", newline="").write(s.replace(old, new))
            cpp |= f.endswith(("pp", "pyx"))
        d = sh(["git", "diff"], tmp).stdout
        open(out + "/patch.diff", "w").write(d)
        if cpp:
            script = open("/opt/vp/env.sh").read().replace("cd /repo", "cd " + tmp) + "\nbuild_ext\n"
            r = subprocess.run(["bash", "-c", script], cwd=tmp, capture_output=True, text=True)
            print("build", r.returncode, r.stderr[-300:] if r.returncode else "")
            ok &= r.returncode == 0
        r = sh(["bash", out + "/demo.sh"], tmp, 300)
        print("demo on patched:", r.returncode, r.stdout[-300:], r.stderr[-300:])
        ok &= r.returncode != 0
        if test:
            x = tmp + "/junit.xml"
            sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "6", "--dist", "worksteal",
                "--timeout=600", "--continue-on-collection-errors", "-p", "no:warnings", "--randomly-seed=1",
                "--randomly-dont-reorganize", "-o", "junit_family=xunit2", "--junitxml=" + x, "smt"], tmp,
               env={"PYTHONPATH": tmp})
            r = sh(["python3", "/opt/vp/results.py", tmp + "/res.json", "junit:" + x], tmp)
            res = json.load(open(tmp + "/res.json"))
            stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            passed = set(res.get("passed", []) if isinstance(res, dict) else [])
            miss = sorted(stable - passed)
            print("stable tests broken:", miss[:8], len(miss), {k: len(v) for k, v in res.items() if hasattr(v, "__len__")})
            ok &= not miss
        json.dump({"property": S["PROPERTY"], "needs": S["NEEDS"], "what_it_breaks": S["BREAKS"]},
                  open(out + "/meta.json", "w"), indent=1)
        print(pid, "KEPT" if ok else "NOT OK")
        if not ok:
            shutil.rmtree(out, ignore_errors=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

if __name__ == "__main__":
    main(sys.argv[1], "--notest" not in sys.argv)
