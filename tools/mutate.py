#!/usr/bin/env python3
"""Development aid: applies small changes to a scratch copy of /repo, mounted over
/repo in a mount namespace of its own, and lists those no check notices.
usage: mutate.py LOG PERFUNC SEED file.go..."""
import json, os, random, subprocess, sys, glob
log, per, seed, files = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
if os.environ.get("VF_NS") != "1":
    os.makedirs("/tmp/mrepo", exist_ok=True)
    os.environ["VF_NS"] = "1"
    script = "rsync -a --delete --exclude .git /repo/ /tmp/mrepo/ && mount --bind /tmp/mrepo /repo && exec python3 " + " ".join(sys.argv)
    os.execvp("unshare", ["unshare", "-m", "bash", "-c", script])
root = "/verif"
eng = os.environ.get("ENG", root + "/bin/engine")
env = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"])
subprocess.run(f"cd {root}/tools/mutgen && go build -o /tmp/mutgen main.go", shell=True, check=True, env=env)
fn, cost = {}, {}
for e in glob.glob(root + "/evidence/*.json"):
    d = json.load(open(e))
    cost[d["property"]] = d["wall_s"]
    for f in d["coverage"]["functions_encoded"]:
        k = f.split("routedns")[-1].lstrip("./").replace("*", "").replace("(", "").replace(")", "").split("$")[0].split("[")[0]
        fn.setdefault(k.split("/")[-1], set()).add(d["property"])
base = set("""TestDNSClientSimpleTCP TestDNSClientSimpleUDP TestDOQSimple TestDoHClientSimpleGET TestDoHClientSimplePOST TestDoTClientCA TestDoTClientSimple
TestDoTListenerPadding TestNetDialer TestNetResolver TestODOHClientSimple TestDoQClient0RTTHoldsNonReplayableOpcode""".split())
random.seed(seed)
out = open(log, "a")
for file in files:
    ms = [json.loads(l) for l in subprocess.run(["/tmp/mutgen", "/repo/" + file], capture_output=True, text=True).stdout.split("\n") if l]
    by = {}
    for m in ms:
        if any(w in m["desc"] for w in ("log.", "Log.", "logger(", "metrics.", "Debug(")):
            continue
        by.setdefault(m["func"], []).append(m)
    for func, l in by.items():
        cs = None
        for k in fn:
            if k == func or k.endswith("." + func):
                cs = (cs or set()) | fn[k]
        if not cs:
            out.write(f"UNCOVERED {file} {func} ({len(l)} changes)\n")
            continue
        for m in random.sample(l, min(per, len(l))):
            p = "/repo/" + file
            src = open(p, "rb").read()
            open(p, "wb").write(src[:m["pos"]] + m["text"].encode() + src[m["end"]:])
            where = f"{file}:{m['line']} {func}: {m['desc']}".replace("\n", " ")[:200]
            try:
                r = subprocess.run("cd /repo && go build ./... && go vet -assign=false . 2>/dev/null || go build ./...", shell=True, capture_output=True, env=env)
                if r.returncode:
                    continue
                got, ran = None, []
                for c in sorted(cs, key=lambda c: cost.get(c, 99)):
                    q = subprocess.run(["timeout", "400", eng, "-n", "-budget", "150s", c], capture_output=True, text=True, env=env)
                    ran.append(c)
                    if q.returncode == 1:
                        got = c
                        break
                    if q.returncode != 0:
                        got = f"{c} exit {q.returncode}"
                        out.write(f"ERROR {where} [{c} exit {q.returncode}] {q.stdout[-200:]!r} {q.stderr[-300:]!r}\n")
                        break
                if got:
                    out.write(f"caught {where} [{got}]\n")
                else:
                    t = subprocess.run("cd /repo && timeout 200 go test ./... 2>&1 | grep -E '^(--- FAIL|panic)' | sort | head -20", shell=True, capture_output=True, text=True, env=env).stdout
                    out.write(f"SURVIVED {where} {ran} tests: {' '.join(w for w in t.split() if w.startswith('Test') and w not in base)[:160]}\n")
            finally:
                open(p, "wb").write(src)
                out.flush()
