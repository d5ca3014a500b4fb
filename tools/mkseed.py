"""Helper that writes and validates a planted bug under /verif/seeded (development only; no check reads it).
seed(id, prop, edits, demo, needs, breaks): edits = [(file, old, new)], demo = Go main program body."""
import os, subprocess, json, shutil, sys
W = "/tmp/seedwork"
DEMO = '''#!/bin/bash
# exits 0 when the library behaves, nonzero when it does not
H="$(cd "$(dirname "$0")" && pwd)"
D="$(mktemp -d)"
trap 'rm -rf "$D"' EXIT
cp "$H/demo.go.txt" "$D/main.go"
go run "$D/main.go"
'''
def sh(cmd, cwd=None, t=600):
    r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
    return r.returncode, r.stdout + r.stderr
def fresh():
    shutil.rmtree(W, ignore_errors=True)
    sh("git -C /repo worktree prune; git clone -q /repo " + W)
def tests():
    rc, o = sh("go test ./... -json", W)
    passed = set()
    for l in o.splitlines():
        try: e = json.loads(l)
        except Exception: continue
        if e.get("Action") == "pass" and e.get("Test"): passed.add((e["Package"], e["Test"]))
    return rc, passed
def seed(id, prop, edits, demo, needs, breaks, runtests=True):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.go.txt", "w").write(demo)
    if not os.path.exists(W): fresh()
    sh("git fetch -q && git reset -q --hard origin/HEAD && git clean -fdq", W)
    rc, o = sh("bash %s/demo.sh" % d, W)
    if rc != 0: print(id, "DEMO FAILS ON CLEAN:", o[-600:]); return False
    for f, a, b in edits:
        s = open(W + "/" + f).read()
        if s.count(a) != 1: print(id, "EDIT MATCHES", s.count(a), f, repr(a)[:80]); return False
        open(W + "/" + f, "w").write(s.replace(a, b))
    rc, o = sh("gofmt -l . ; go build ./...", W)
    if rc != 0: print(id, "BUILD FAIL", o[-500:]); return False
    rc, o = sh("git diff", W)
    open(d + "/patch.diff", "w").write(o)
    rc, o = sh("bash %s/demo.sh" % d, W)
    if rc == 0: print(id, "DEMO PASSES WITH BUG"); return False
    msg = o.strip().splitlines()[-3:]
    if runtests:
        rc, p = tests()
        b = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        names = {"%s/%s" % x for x in p} | {"%s::%s" % x for x in p} | {x[1] for x in p}
        miss = [x for x in b if x not in names and x.split("/")[-1] not in names and x.split("::")[-1] not in names]
        if miss: print(id, "TESTS BREAK", miss[:5]); return False
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    print(id, "ok:", msg)
    return True
