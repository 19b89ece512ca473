#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE NEEDS WHAT  < edits
Edits on stdin: blocks '<<<<\nold\n====\nnew\n>>>>\n'; a line '@@ file' switches file.
Works in /tmp/seed (a scratch copy of the repository)."""
import sys, subprocess, json, os, re
sid, prop, file, needs, what = sys.argv[1:6]
S = "/tmp/seed"
subprocess.run(["git", "-C", S, "checkout", "-q", "--", "."], check=True)
cur = file
txt = sys.stdin.read()
for m in re.finditer(r"@@ (\S+)\n|<<<<\n(.*?)\n====\n(.*?)\n?>>>>\n", txt, re.S):
    if m.group(1):
        cur = m.group(1); continue
    p = S + "/" + cur
    s = open(p).read()
    old, new = m.group(2), m.group(3)
    assert s.count(old) == 1, (cur, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
d = f"/verif/seeded/{sid}"
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", S, "diff"], capture_output=True, text=True, check=True).stdout
assert diff
open(d + "/patch.diff", "w").write(diff)
json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
pkg = os.environ.get("PKG", ".")
flags = os.environ.get("FLAGS", "")
open(d + "/demo.sh", "w").write(f'''#!/bin/bash
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
echo '{{"Replace":{{"'"$PWD"'/{pkg}/zz_demo_test.go":"'"$d"'/demo_test.go"}}}}' > "$t/o.json"
timeout 280 go test {flags}-overlay "$t/o.json" -run '^TestZZDemo$' -count=1 ./{pkg}
''')
env = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off")
r = subprocess.run(["go", "build", "./..."], cwd=S, env=env, capture_output=True, text=True)
print("build", r.returncode, r.stderr[:500])
def demo():
    r = subprocess.run(["bash", d + "/demo.sh"], cwd=S, capture_output=True, text=True)
    return r.returncode, (r.stdout + r.stderr)[-600:]
if os.path.exists(d + "/demo_test.go"):
    a = demo()
    subprocess.run(["git", "-C", S, "checkout", "-q", "--", "."], check=True)
    b = demo()
    print("patched", a[0], "clean", b[0])
    if b[0] != 0: print(b[1])
    if a[0] == 0: print(a[1])
    if a[0] != 0 and "--- FAIL" not in a[1] and "panic" not in a[1]: print(a[1])
