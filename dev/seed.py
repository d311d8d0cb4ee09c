#!/usr/bin/env python3
"""Development aid: makes planted bugs from a spec file and confirms them.
   seed.py make SPEC.py   (SPECS = [dict(id, prop, edits=[(file, old, new)], pkg, demo, needs, breaks)])
   seed.py check [ID...]  runs the property's check on every planted bug
"""
import json, os, subprocess, sys, shutil, concurrent.futures
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"
ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off")
STABLE = None

def sh(cmd, cwd=None, env=ENV, t=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)
    return p.returncode, p.stdout + p.stderr

def scratch(name):
    d = W + "/" + name
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(W, exist_ok=True)
    sh("git clone -q /repo " + d)
    return d

DEMO = """#!/bin/sh
# Exits 0 when the property holds for the inputs tried, 1 when it is broken.
d=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
t=$(mktemp -d)
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(pkg)s/zz_demo_test.go" "$d/demo_test.go" > "$t/o.json"
%(mod)s
"""
PLAIN = 'exec go test -vet=off -count=1 -timeout 120s -overlay "$t/o.json" -run TestDemo ./%(pkg)s'
MOD = '''cp go.mod "$t/go.mod"
for s in byteio memio parser; do echo "replace vimagination.zapto.org/$s => $d/stubs/$s" >> "$t/go.mod"; done
exec go test -modfile "$t/go.mod" -vet=off -count=1 -timeout 120s -overlay "$t/o.json" -run TestDemo ./%(pkg)s'''

def make(s):
    d = scratch(s["id"])
    out = V + "/seeded/" + s["id"]
    os.makedirs(out, exist_ok=True)
    for f, old, new in s["edits"]:
        p = d + "/" + f
        t = open(p).read()
        if t.count(old) != 1:
            return s["id"], "edit matches %d times in %s: %r" % (t.count(old), f, old)
        open(p, "w").write(t.replace(old, new))
    rc, diff = sh("git diff", d)
    pkg = s.get("pkg", ".")
    deps = pkg in ("xcf",) or s.get("deps")
    if deps:
        shutil.copytree(V + "/stubs", out + "/stubs", dirs_exist_ok=True)
    open(out + "/patch.diff", "w").write(diff)
    open(out + "/demo_test.go", "w").write(s["demo"].lstrip())
    open(out + "/demo.sh", "w").write(DEMO % dict(pkg=pkg, mod=(MOD if deps else PLAIN) % dict(pkg=pkg)))
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    return s["id"], confirm(s["id"], d)

def confirm(i, d):
    out = V + "/seeded/" + i
    msg = []
    # patched tree is in d
    mod = d + "/.verif.mod"
    shutil.copy(d + "/go.mod", mod)
    with open(mod, "a") as f:
        for x in ("byteio", "memio", "parser"):
            f.write("replace vimagination.zapto.org/%s => %s/stubs/%s\n" % (x, V, x))
    rc, o = sh("gofmt -l . ; go vet -modfile .verif.mod ./... 2>&1 | grep -v '^#' | grep -v 'possible misuse of unsafe' | head", d)
    if o.strip():
        msg.append("fmt/build: " + o.strip())
    rc, o = sh("go test -modfile .verif.mod -count=1 -run 'TestConfigDecoder|TestDecoder' ./ora", d)
    if rc:
        msg.append("tests fail: " + o[-300:])
    os.remove(mod)
    rc, o = sh(out + "/demo.sh", d)
    if rc == 0:
        msg.append("DEMO PASSES WITH THE BUG")
    elif "build failed" in o or "setup failed" in o:
        msg.append("DEMO DOES NOT BUILD: " + o[-600:])
    sh("git checkout -q -- .", d)
    rc, o = sh(out + "/demo.sh", d)
    if rc != 0:
        msg.append("demo fails on the clean tree: " + o[-600:])
    return "; ".join(msg) or "confirmed"

def check(i, props=None):
    out = V + "/seeded/" + i
    d = scratch("c-" + i)
    rc, o = sh("git apply %s/patch.diff" % out, d)
    if rc:
        return i, "does not apply: " + o
    root = W + "/root-" + i
    os.makedirs(root, exist_ok=True)
    for x in ("stubs", "known-findings.json"):
        if not os.path.lexists(root + "/" + x):
            os.symlink(V + "/" + x, root + "/" + x)
    meta = json.load(open(out + "/meta.json"))
    res = []
    for p in props or [meta["property"]]:
        rc, o = sh("%s/bin/limcheck %s quick" % (V, p), "/", dict(ENV, LIMCHECK_REPO=d, LIMCHECK_ROOT=root))
        first = o.strip().split("\n")[0][:150]
        res.append("%s %s %s" % (p, {0: "quiet", 1: "CAUGHT"}.get(rc, "rc%d" % rc), first if rc else ""))
    shutil.rmtree(d, ignore_errors=True)
    return i, "; ".join(res)

def main():
    if sys.argv[1] == "make":
        ns = {}
        exec(open(sys.argv[2]).read(), ns)
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            for i, m in ex.map(make, [s for s in ns["SPECS"] if len(sys.argv) < 4 or s["id"] in sys.argv[3:]]):
                print(i, m)
        ids = [s["id"] for s in ns["SPECS"] if len(sys.argv) < 4 or s["id"] in sys.argv[3:]]
    else:
        ids = sys.argv[2:] or sorted(os.listdir(V + "/seeded"))
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        for i, m in ex.map(check, ids):
            print(i, m)
    shutil.rmtree(W, ignore_errors=True)
main()
