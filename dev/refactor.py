#!/usr/bin/env python3
"""Development aid: applies edits that keep the behaviour, one set at a time, and
reports which checks raise an alarm: refactor.py SPEC.py [CHECK...]"""
import os, shutil, subprocess, sys, concurrent.futures
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/refwork"
ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off")
def sh(c, cwd=None, env=ENV):
    p = subprocess.run(c, shell=True, cwd=cwd, env=env, capture_output=True, text=True)
    return p.returncode, p.stdout + p.stderr
def one(s):
    d = W + "/" + s["id"]
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(W, exist_ok=True)
    sh("git clone -q /repo " + d)
    for f, old, new in s["edits"]:
        t = open(d + "/" + f).read()
        if old not in t:
            return s["id"], "no match: %r" % old
        open(d + "/" + f, "w").write(t.replace(old, new))
    open(d + "/go.mod", "a").write("".join("\nreplace vimagination.zapto.org/%s => %s/stubs/%s\n" % (x, V, x) for x in ("byteio", "memio", "parser")))
    rc, o = sh("go build ./...", d)
    if rc:
        return s["id"], "BUILD " + o
    sh("git checkout -q go.mod", d)
    root = W + "/root-" + s["id"]
    os.makedirs(root, exist_ok=True)
    for x in ("stubs", "known-findings.json"):
        if not os.path.lexists(root + "/" + x): os.symlink(V + "/" + x, root + "/" + x)
    out = []
    for p in sys.argv[2:] or s["checks"]:
        rc, o = sh("%s/bin/limcheck %s" % (V, p), "/", dict(ENV, LIMCHECK_REPO=d, LIMCHECK_ROOT=root))
        if rc: out.append(p + " ALARM " + "\n   ".join(x[:260] for x in o.strip().split("\n")[:6]))
        else: out.append(p + " quiet " + o.strip().split()[-1])
    shutil.rmtree(d)
    return s["id"], "; ".join(out)
ns = {}
exec(open(sys.argv[1]).read(), ns)
with concurrent.futures.ThreadPoolExecutor(2) as ex:
    for i, m in ex.map(one, ns["SPECS"]): print(i, m, flush=True)
shutil.rmtree(W, ignore_errors=True)
