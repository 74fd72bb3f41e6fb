#!/usr/bin/env python3
"""benign.py [-1] CHECK...|all < blocks (mut.py format): applies every block (all behaviour-
preserving) to a scratch copy of /repo, together (or one by one with -1), and runs the checks
in parallel; each must stay quiet. Blocks that alarm together are then tried one by one."""
import sys, subprocess, os, shutil, tempfile, re
from concurrent.futures import ThreadPoolExecutor
rc = os.environ.get("RC", "/tmp/rc")
args = sys.argv[1:]
single = args and args[0] == "-1"
if single: args = args[1:]
if args == ["all"]:
    args = sorted(set(re.findall(r'register\("(C\d+)"', "".join(open("/verif/analyzer/" + f).read() for f in os.listdir("/verif/analyzer") if f.endswith(".go")))))
d = tempfile.mkdtemp(prefix="rb", dir="/tmp")
def fresh():
    subprocess.run(["rsync", "-a", "--delete", "/repo/", d + "/"], check=True) if shutil.which("rsync") else (shutil.rmtree(d), subprocess.run(["cp", "-a", "/repo/.", d + "/"], check=True))
if not shutil.which("rsync"):
    def fresh():
        shutil.rmtree(d); os.mkdir(d); subprocess.run(["cp", "-a", "/repo/.", d], check=True)
def apply(blk):
    head, rest = blk.split("\n", 1)
    parts = head.split(None, 1); fn = parts[0]; n = 1
    if "#" in fn: fn, n = fn.split("#"); n = int(n)
    p = os.path.join(d, fn); src = open(p).read()
    for ed in rest.split("\n++++\n"):
        old, new = (ed + "\n").split("\n----\n")
        old = old.strip("\n"); new = new.rstrip("\n"); k = -1
        for _ in range(n):
            k = src.find(old, k + 1)
            if k < 0: break
        if k < 0: print("NOT FOUND", head, repr(old)); return False
        src = src[:k] + new + src[k + len(old):]
    open(p, "w").write(src)
    subprocess.run(["goimports", "-w", p], capture_output=True)
    v = subprocess.run(["gofmt", "-l", p], capture_output=True, text=True)
    if v.stderr: print("SYNTAX", head, v.stderr[:300]); return False
    return True
def run(cs):
    def one(c):
        r = subprocess.run([rc, c], capture_output=True, text=True, env=dict(os.environ, RIOT_REPO=d, RIOT_VERIF="/tmp/rmv_" + c), cwd="/verif")
        if r.returncode == 0: return None
        if r.returncode == 2: return c + " ERROR " + r.stderr[:400] + r.stdout[-300:]
        return c + " ALARM " + " | ".join(l for l in r.stdout.splitlines() if l.startswith("violation") or "[" in l)[:700]
    for c in cs:
        os.makedirs("/tmp/rmv_" + c, exist_ok=True)
        subprocess.run(["cp", "-r", "/verif/known-findings.txt", "/verif/stubs", "/tmp/rmv_" + c + "/"])
    with ThreadPoolExecutor(6) as ex:
        return [x for x in ex.map(one, cs) if x]
blks = [b.strip("\n") for b in sys.stdin.read().split("\n====\n") if b.strip()]
fresh()
if not single:
    for b in blks: apply(b)
    out = run(args)
    if not out: print("ok  all", len(blks), "together")
    else:
        print("together:"); print("\n".join(out)); args = sorted({o.split()[0] for o in out})
        single = len(blks) > 1
if single:
    for b in blks:
        fresh()
        if not apply(b): continue
        out = run(args)
        print("ok  " if not out else "!!!!", b.split("\n")[0], "" if not out else "\n   " + "\n   ".join(out), flush=True)
shutil.rmtree(d)
