#!/usr/bin/env python3
"""plant.py ID [--check] [--notest]: confirm a planted bug in a scratch copy of
/repo; with --check also run its property's check against it (in /repo, undone)."""
import json, os, shutil, subprocess, sys, tempfile
V = "/verif/seeded/"
i = sys.argv[1]
d = V + i
meta = json.load(open(d + "/meta.json"))
if not os.path.exists(d + "/demo.sh") or "Run with cwd = the repository" in open(d + "/demo.sh").read():
    shutil.copy("/verif/tools/demo_template.sh", d + "/demo.sh"); os.chmod(d + "/demo.sh", 0o755)
    shutil.copy("/verif/harness/go.work.sum", d + "/go.work.sum")
def sh(cmd, **k): return subprocess.run(cmd, shell=True, executable="/bin/bash", capture_output=True, text=True, **k)
if "--notest" not in sys.argv:
    T = tempfile.mkdtemp(prefix="plant-")
    R = T + "/repo"
    try:
        sh("cp -a /repo %s" % R)
        r = sh("bash %s/demo.sh" % d, cwd=R)
        print("demo clean:", r.returncode, (r.stdout + r.stderr)[-300:].strip())
        ok = r.returncode == 0
        r = sh("git -C %s apply %s/patch.diff" % (R, d))
        if r.returncode: print("apply failed", r.stderr); sys.exit(1)
        env = dict(os.environ, R=R, T=T)
        r = sh(r'''. /opt/vp/env.sh; sed "s#/repo/#$R/#" /opt/vp/go.work > $T/go.work; cp /opt/vp/go.work.sum $T/; mkdir $T/logs
for m in $MODULES; do (cd $R/$m && GOWORK=$T/go.work $GO126 test -json -vet=off -count=1 -timeout 5m ./... > $T/logs/${m//\//_}.log) & done; wait
(cd $R/aferofs && GOWORK=off $GO124 test -json -vet=off -count=1 ./... > $T/logs/aferofs.log)
python3 /opt/vp/results.py $T/out.json "gojson:$T/logs/*.log"''', env=env)
        res = json.load(open(T + "/out.json"))
        miss = sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(res["passed"]))
        print("tests: missing stable", len(miss), miss[:8])
        r = sh("bash %s/demo.sh" % d, cwd=R)
        print("demo patched:", r.returncode, (r.stdout + r.stderr)[-400:].strip())
        ok = ok and not miss and r.returncode != 0
        print("COUNTS" if ok else "DOES NOT COUNT")
    finally:
        shutil.rmtree(T, ignore_errors=True)
if "--check" in sys.argv:
    assert sh("git -C /repo status --porcelain").stdout == "", "repo dirty"
    r = sh("git -C /repo apply %s/patch.diff" % d)
    assert r.returncode == 0, r.stderr
    try:
        for p in [meta["property"]] + [a for a in sys.argv[2:] if not a.startswith("-")]:
            r = sh("/verif/bin/check %s" % p, cwd="/verif")
            print("CHECK", p, r.returncode, "\n".join((r.stdout + r.stderr).splitlines()[-6:])[:1500])
    finally:
        sh("git -C /repo checkout -- .")
