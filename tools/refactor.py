#!/usr/bin/env python3
"""refactor.py KIND[,KIND...] PKG CHECK...|all: rewrites a copy of /repo without changing its
behaviour (analyzer/refactor.go, built with -tags refactor as /tmp/rcr), checks that it still
builds, and runs the checks, which must stay quiet. For an alarm, finds a single site that
causes it, if there is one."""
import sys, subprocess, os, re, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
RC, RCR = os.environ.get("RC", "/tmp/rc"), os.environ.get("RCR", "/tmp/rcr")
KINDS = "extract-if extract-loop invert break guard nest flip negate demorgan cond init args result switch index range wrap lit hoist else local".split()
kinds, pkg, cs = sys.argv[1], sys.argv[2], sys.argv[3:]
kinds = KINDS if kinds == "all" else kinds.split(",")
if cs == ["all"]:
    cs = sorted(set(re.findall(r'register\("(C\d+)"', "".join(open("/verif/analyzer/" + f).read() for f in os.listdir("/verif/analyzer") if f.endswith(".go")))))
base = tempfile.mkdtemp(prefix="rf", dir="/tmp")
for c in cs:
    os.makedirs(f"{base}/v/{c}", exist_ok=True)
    subprocess.run(["cp", "-r", "/verif/known-findings.txt", "/verif/stubs", f"{base}/v/{c}/"])
def fresh(name="r"):
    d = f"{base}/{name}"
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    return d
def apply(d, kind, lo=None, hi=None):
    a = [RCR, "refactor", kind, pkg] + ([str(lo), str(hi)] if lo is not None else [])
    r = subprocess.run(a, capture_output=True, text=True, env=dict(os.environ, RIOT_REPO=d, RIOT_VERIF="/verif"), cwd="/verif")
    if r.returncode: return r.stderr
    ch = subprocess.run(["git", "-C", d, "diff", "--name-only"], capture_output=True, text=True).stdout.split()
    for f in ch:
        subprocess.run(["goimports", "-w", d + "/" + f], capture_output=True)
    return r.stdout.strip()
def one(c, d):
    r = subprocess.run([RC, c], capture_output=True, text=True, env=dict(os.environ, RIOT_REPO=d, RIOT_VERIF=f"{base}/v/{c}"), cwd="/verif")
    if r.returncode == 0: return None
    if r.returncode == 2: return c + " ERROR " + r.stderr[:300]
    return c + " ALARM " + " | ".join(l for l in r.stdout.splitlines() if "[C" in l)[:500]
def run(d, cs):
    with ThreadPoolExecutor(int(os.environ.get("J", "6"))) as ex: return [x for x in ex.map(lambda c: one(c, d), cs) if x]
for k in kinds:
    d = fresh()
    msg = apply(d, k)
    out = run(d, cs)
    print(k, pkg, msg, "ok" if not out else ""); sys.stdout.flush()
    for o in out:
        print("  ", o)
        c = o.split()[0]
        if " ERROR " in o: break
        m = re.search(r"sites (\d+)", msg)
        lo, hi = 0, int(m.group(1)); alone = None
        while hi - lo > 1:
            mid = (lo + hi) // 2
            for a, b in ((lo, mid), (mid, hi)):
                e = fresh("b"); apply(e, k, a, b)
                r = one(c, e)
                if r and "ERROR" not in r:
                    lo, hi, alone = a, b, r; break
            else: break
        if hi - lo == 1:
            e = fresh("b"); apply(e, k, lo, hi)
            df = subprocess.run(["git", "-C", e, "diff", "-U0"], capture_output=True, text=True).stdout
            print("     site", lo, (alone or "")[:300]); print("\n".join("       " + l for l in df.splitlines()[4:24]))
        else: print("     needs several sites", lo, hi)
        sys.stdout.flush()
shutil.rmtree(base)
