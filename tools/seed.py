#!/usr/bin/env python3
"""Verify planted bugs: tools/seed.py [ID...]  (needs the analyzer binary /tmp/rc)
For each seeded/<id>: the patch applies to /repo's HEAD, builds, passes the stable tests, its demo
passes on the clean tree and fails with the patch; then which checks report it.
Set CHECKS=all to run every check, otherwise only the property's own."""
import json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def sh(c, cwd, **kw):
    return subprocess.run(c, cwd=cwd, shell=True, capture_output=True, text=True, **kw)
env = dict(os.environ); env.pop("GOFLAGS", None)
for i in ids:
    d = f"{V}/seeded/{i}"
    meta = json.load(open(d + "/meta.json"))
    r = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo/.", r], check=True)
        out = []
        dd = tempfile.mkdtemp(prefix="demo", dir="/tmp")
        for f in os.listdir(d):
            if not f.endswith((".diff", ".patch")) and f != "meta.json":
                s = f"{d}/{f}"
                (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, f"{dd}/{f}")
        if os.environ.get("SKIPDEMO") is None:
            c = sh(f"bash {dd}/demo.sh", r, env=env)
            out.append("demo-clean " + ("ok" if c.returncode == 0 else "FAIL " + (c.stdout + c.stderr)[-800:]))
        a = sh(f"git apply {d}/patch.diff", r)
        if a.returncode: out.append("APPLY FAIL " + a.stderr)
        if os.environ.get("SKIPDEMO") is None:
            b = sh(". /opt/vp/env.sh; cd %s; export GOFLAGS='-mod=readonly -modfile=/opt/vp/mod/riot.mod'; go build $PKGS" % r, r)
            out.append("build " + ("ok" if b.returncode == 0 else "FAIL " + b.stderr[-400:]))
            t = sh(". /opt/vp/env.sh; cd %s; export GOFLAGS='-mod=readonly -modfile=/opt/vp/mod/riot.mod'; go test -json -vet=off -count=1 $PKGS" % r, r)
            passed = set()
            for l in t.stdout.splitlines():
                try: e = json.loads(l)
                except: continue
                if e.get("Action") == "pass" and e.get("Test"): passed.add(e["Package"] + "/" + e["Test"])
            miss = stable - passed
            out.append("tests " + ("ok" if not miss else "FAIL %s" % miss))
            c = sh(f"bash {dd}/demo.sh", r, env=env)
            out.append("demo-patched " + ("fails" if c.returncode else "PASSES(bad)"))
        shutil.rmtree(dd)
        e2 = dict(os.environ, RIOT_REPO=r, RIOT_VERIF="/tmp/rmv")
        os.makedirs("/tmp/rmv", exist_ok=True)
        if not os.path.exists("/tmp/rmv/stubs"): os.symlink(V + "/stubs", "/tmp/rmv/stubs")
        shutil.copy(V + "/known-findings.txt", "/tmp/rmv/known-findings.txt")
        which = [meta["property"]] if os.environ.get("CHECKS") != "all" else ["all"]
        for w in which:
            c = sh(f"/tmp/rc {w}", V, env=e2)
            v = sorted({l.split("property=")[1].split()[0] for l in c.stdout.splitlines() if l.startswith("VIOLATION")})
            out.append("caught by " + ",".join(v) if v else "MISSED by " + w)
        print(i, meta["property"], "|", "; ".join(out), flush=True)
    finally:
        shutil.rmtree(r, ignore_errors=True)
