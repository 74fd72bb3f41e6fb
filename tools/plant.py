#!/usr/bin/env python3
"""plant.py ID PROPERTY < spec : writes seeded/ID from a spec:
file[#n]
old text
----
new text
(++++ separates further edits)
====NEEDS
text
====BREAKS
text
====DEMO pkgdir [go test flags]
go test source"""
import sys, os, subprocess, tempfile, shutil, json, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i, prop = sys.argv[1:3]
s = sys.stdin.read()
parts = re.split(r"^====(NEEDS|BREAKS|DEMO)(.*)\n", s, flags=re.M)
edits = parts[0]
sec = {}
for k in range(1, len(parts), 3): sec[parts[k]] = (parts[k+1].strip(), parts[k+2])
r = tempfile.mkdtemp(prefix="plant", dir="/tmp")
subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
for e in edits.split("\n++++\n"):
    head, rest = e.strip("\n").split("\n", 1)
    old, new = ("\n" + rest + "\n").split("\n----\n")
    old, new = old.strip("\n"), new.strip("\n")
    f, n = (head.split("#") + ["1"])[:2]; n = int(n)
    p = f"{r}/{f}"; t = open(p).read()
    c = t.count(old)
    assert c >= n and (c == 1 or "#" in head), (head, "count", c)
    pos = -1
    for _ in range(n): pos = t.index(old, pos + 1)
    open(p, "w").write(t[:pos] + new + t[pos+len(old):])
    g = subprocess.run(["gofmt", "-l", p], capture_output=True, text=True)
d = f"{V}/seeded/{i}"; os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "diff"], cwd=r, capture_output=True, text=True).stdout
open(d + "/patch.diff", "w").write(diff)
json.dump({"property": prop, "needs": sec["NEEDS"][1].strip(), "what_it_breaks": sec["BREAKS"][1].strip()}, open(d + "/meta.json", "w"), indent=1)
a = sec["DEMO"][0].split()
pkg, flags = a[0], " ".join(a[1:])
open(d + "/demo_src.go.txt", "w").write(sec["DEMO"][1])
shutil.copy("/opt/vp/mod/riot.mod", d + "/demo.mod"); shutil.copy("/opt/vp/mod/riot.sum", d + "/demo.sum")
open(d + "/demo.sh", "w").write(f'''#!/bin/bash
# run with cwd /repo; exit 0 when the behaviour is right
d=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS="-mod=readonly -modfile=$d/demo.mod" GOPROXY=off GOTOOLCHAIN=local
exec go test -vet=off -count=1 -timeout 120s -overlay /dev/stdin {flags} -run TestZZ ./{pkg} <<EOF
{{"Replace": {{"$PWD/{pkg}/zz_demo_test.go": "$d/demo_src.go.txt"}}}}
EOF
''')
shutil.rmtree(r)
print("planted", i)
