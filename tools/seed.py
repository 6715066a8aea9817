#!/usr/bin/env python3
"""Makes or verifies planted bugs.

usage: seed.py make SPEC.json...   SPEC: {"id","property","edits":[[file,old,new],...],"main": go source of the demo,"needs","what_it_breaks"}
       seed.py verify [ID...]      applies each patch in a scratch copy: builds, tests pass, demo fails; demo passes without
       seed.py run [ID...] [--prop P] [--seed N]   runs the check of its property against /repo with the patch, and undoes it
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(V, "seeded")
DEMO = '''#!/bin/bash
# Run with the current directory at the root of the repository.
D="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin
export GOROOT=/opt/veriftools/go1.27.3 GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GO111MODULE=on
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
cp go.mod "$T/go.mod"
cat go.sum "$D/extra.sum" | sort -u > "$T/go.sum"
export GOFLAGS="-mod=mod -modfile=$T/go.mod"
%s
'''
RUN = 'go build -o "$T/demo" "$D/main.go" || exit 2\n"$T/demo"'

def sh(cmd, cwd=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf8", "replace")

def scratch():
    d = tempfile.mkdtemp(prefix="seedwork-", dir="/tmp")
    rc, o = sh("cd /repo && git archive HEAD | tar x -C %s && cd %s && git init -q . && git add -A && git -c user.email=a@b -c user.name=a commit -qm x" % (d, d))
    assert rc == 0, o
    return d

def make(spec):
    s = json.load(open(spec)) if isinstance(spec, str) else spec
    d = scratch()
    out = os.path.join(SEEDED, s["id"])
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(d, f)
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        if s.get("sed"): assert sh(s["sed"], d)[0] == 0
        rc, o = sh("git diff", d)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(o)
        if s["main"]: open(os.path.join(out, "main.go"), "w").write(s["main"])
        for src, dst in s.get("files", []):
            (shutil.copytree if os.path.isdir(src) else shutil.copy)(src, os.path.join(out, dst), **({"dirs_exist_ok": True} if os.path.isdir(src) else {}))
        shutil.copy("/opt/vp/extra.sum", os.path.join(out, "extra.sum"))
        open(os.path.join(out, "demo.sh"), "w").write(DEMO % s.get("run", RUN))
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what_it_breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1, ensure_ascii=False)
    finally:
        shutil.rmtree(d)
    return verify(s["id"])

def verify(i):
    d = scratch()
    try:
        seed = os.path.join(SEEDED, i)
        demo = os.path.join(seed, "demo.sh")
        r1, o1 = sh(["bash", demo], d)
        rc, o = sh(["git", "apply", os.path.join(seed, "patch.diff")], d)
        if rc: print(i, "PATCH DOES NOT APPLY", o); return False
        env = 'sed "s#cd /repo#cd %s#; s#/repo/#%s/#g; s#M=/opt/vp/mod#M=%s/.git/mod#" /opt/vp/env.sh > %s/.git/env.sh; . %s/.git/env.sh; ' % (d, d, d, d, d)
        rb, ob = sh(env + "go build ./...", d)
        rt, ot = sh(env + "go test -vet=off -count=1 ./...", d)
        r2, o2 = sh(["bash", demo], d)
        ok = r1 == 0 and r2 not in (0,) and rb == 0 and rt == 0
        print(i, "ok" if ok else "BAD", "clean=%d patched=%d build=%d test=%d" % (r1, r2, rb, rt))
        if not ok: print("clean:", o1[-1500:], "\npatched:", o2[-1500:], "\nbuild:", ob[-1500:], "\ntest:", ot[-1500:])
        else: print("   ", o2.strip()[-300:])
        return ok
    finally:
        shutil.rmtree(d)

def run(i, prop=None, seed="1"):
    """Builds with the patched files laid over /repo's, so that /repo itself is left alone."""
    p = prop or json.load(open(os.path.join(SEEDED, i, "meta.json")))["property"]
    d = scratch()
    try:
        rc, o = sh(["git", "apply", os.path.join(SEEDED, i, "patch.diff")], d)
        assert rc == 0, (i, o)
        rc, o = sh(["git", "diff", "--name-only"], d)
        ov = os.path.join(d, ".git", "overlay.json")
        json.dump({"Replace": {os.path.join("/repo", f): os.path.join(d, f) for f in o.split() if f.endswith(".go")}}, open(ov, "w"))
        code = "import sys; sys.path.insert(0, %r); import vrun; vrun.ENV['GOFLAGS'] += ' -overlay=%s'; vrun.ENV['VERIF_SERVER_DIR'] = %r; sys.exit(vrun.run(%r, 'quick', %d))" % (V, ov, d, p, int(seed))
        q = subprocess.run([sys.executable, "-c", code], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = q.stdout.decode("utf8", "replace")
        print(i, p, "CAUGHT" if q.returncode == 1 and "VIOLATION property=" + p in out else "MISSED rc=%d" % q.returncode)
        print("    " + "\n    ".join(out.strip().splitlines()[:6])[:700], flush=True)
    finally:
        shutil.rmtree(d)

if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "make":
        for f in a[1:]: make(f)
    elif a[0] == "verify":
        for i in a[1:] or sorted(os.listdir(SEEDED)): verify(i)
    elif a[0] == "run":
        prop, seed, ids = None, "1", []
        it = iter(a[1:])
        for x in it:
            if x == "--prop": prop = next(it)
            elif x == "--seed": seed = next(it)
            else: ids.append(x)
        for i in ids or sorted(os.listdir(SEEDED)): run(i, prop, seed)
