#!/usr/bin/env python3
"""mut.py [-b] CHECK... < list of mutants: applies small source replacements in a scratch
copy of /repo and runs checks on it. Input blocks separated by lines '====':
  first line: file[#n]   (n: which occurrence, default 1)
  then old text, a line '----', new text.
A name line starting with 'benign' means the checks must stay quiet."""
import sys, subprocess, os, shutil, tempfile
rc = os.environ.get("RC", "/tmp/rc")
checks = sys.argv[1:]
verbose = checks and checks[0] == "-v"
if verbose:
    checks = checks[1:]
d = tempfile.mkdtemp(prefix="rm", dir="/tmp")
subprocess.run(["cp", "-a", "/repo/.", d], check=True)
bad = 0
for blk in sys.stdin.read().split("\n====\n"):
    blk = blk.strip("\n")
    if not blk.strip():
        continue
    head, rest = blk.split("\n", 1)
    parts = head.split(None, 1)
    fn = parts[0]; name = parts[1] if len(parts) > 1 else ""
    n = 1
    if "#" in fn:
        fn, n = fn.split("#"); n = int(n)
    edits = rest.split("\n++++\n")
    p = os.path.join(d, fn)
    orig = open(p).read()
    src = orig
    okm = True
    for ed in edits:
        old, new = (ed + "\n").split("\n----\n")
        old = old.strip("\n"); new = new.rstrip("\n")
        k = -1
        for _ in range(n):
            k = src.find(old, k + 1)
            if k < 0: break
        if k < 0:
            print("NOT FOUND", head, repr(old)); okm = False; break
        src = src[:k] + new + src[k + len(old):]
    if not okm:
        continue
    open(p, "w").write(src)
    subprocess.run(["goimports", "-w", p], capture_output=True)
    v = subprocess.run(["gofmt", "-l", p], capture_output=True, text=True)
    if v.stderr:
        print("SYNTAX", head, v.stderr[:300])
    out = []
    log = ""
    for c in checks:
        r = subprocess.run([rc, c], capture_output=True, text=True, env=dict(os.environ, RIOT_REPO=d, RIOT_VERIF="/tmp/rmv"), cwd="/verif")
        log += r.stdout
        if r.returncode == 2:
            out.append(c + " ERROR " + r.stderr[:200])
        elif r.returncode == 1:
            keys = [l[l.rfind("["):] for l in r.stdout.splitlines() if l.endswith("]")]
            out.append(c + " caught " + " ".join(keys[:3]))
        else:
            out.append(c + " -")
    benign = name.startswith("benign")
    caught = any("caught" in o for o in out)
    flag = "ok  " if caught != benign else "!!!!"
    print(flag, fn, name, "|", "; ".join(out), flush=True)
    if verbose:
        print(log)
    open(p, "w").write(orig)
shutil.rmtree(d)
