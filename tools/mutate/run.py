#!/usr/bin/env python3
"""Mutation testing of the checks: usage: run.py OUT.jsonl SLOTS EVERY [FILE...] (files of /repo)

Makes mutants of the files, drops those that do not compile or fail the tests of /repo,
and runs the checks (with fewer cases) until one reports a violation. Writes a line per mutant."""
import concurrent.futures as cf, json, os, random, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, V)
import vrun
LIB = ["C05", "C13", "C22", "C14", "C17", "C15", "C16", "C18", "C19", "C20", "C21", "C23", "C01", "C02", "C03", "C04", "C06", "C07", "C08", "C09", "C10", "C11", "C12"]
PROPS = {"server": ["C24"], "bot": ["C25"], "dict": ["C26"], "main.go": ["C27"]}
ORDER = {"logic": ["C17", "C16", "C19", "C20", "C15", "C18", "C14", "C22", "C23", "C13", "C21"],
         "ast": ["C01", "C02", "C03", "C11", "C10", "C12", "C05", "C06", "C07", "C08", "C04", "C09", "C13", "C17", "C16", "C19", "C18", "C23", "C21"],
         "tone": ["C09", "C08", "C05", "C07", "C26", "C18"]}
CASES = {"C24": 200, "C25": 400, "C26": 2000, "C27": 800}

def sh(cmd, cwd, env, timeout):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, preexec_fn=os.setsid)
        return p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"

def one(m):
    rel = m["rel"]
    d = tempfile.mkdtemp(prefix="mut-", dir=WORK)
    try:
        env = dict(vrun.ENV, GOMAXPROCS="2")
        ov = os.path.join(d, "overlay.json")
        json.dump({"Replace": {os.path.join("/repo", rel): m["file"]}}, open(ov, "w"))
        for f in ("go.mod", "go.sum"):
            shutil.copy(os.path.join(vrun.HARNESS, f), d)
        mod = ["-modfile", "/tmp/mutrepo.mod", "-overlay", ov]
        rc, o = sh(["go", "build", "-o", d + "/x", "./" + os.path.dirname(rel)] + [], "/repo", dict(env, GOFLAGS="-mod=mod -modfile=/tmp/mutrepo.mod -overlay=" + ov), 300)
        if rc:
            return dict(m, result="no build")
        rc, o = sh(["go", "test", "-vet=off", "-count=1", "./ast", "./logic", "./tone", "./dict"], "/repo", dict(env, GOFLAGS="-mod=mod -modfile=/tmp/mutrepo.mod -overlay=" + ov), 300)
        if rc:
            return dict(m, result="tests")
        top = rel.split("/")[0]
        rc, o = sh(["go", "build", "-modfile", d + "/go.mod", "-overlay", ov, "-o", d + "/vworker", "./cmd/vworker"], vrun.HARNESS, env, 300)
        if rc:
            return dict(m, result="worker does not build", out=o[-500:])
        if top in ("server", "bot", "main.go"):
            name = "toaq" if top == "main.go" else top
            rc, o = sh(["go", "build", "-o", d + "/bin-" + name, "./" + os.path.dirname(rel)], "/repo", dict(env, GOFLAGS="-mod=mod -modfile=/tmp/mutrepo.mod -overlay=" + ov), 300)
            assert rc == 0, o
        env.update(VERIF_BIN=d, VERIF_SCRATCH=d)
        for p in PROPS.get(top) or ORDER[top]:
            rc, o = sh([d + "/vworker", "-prop", p, "-noshrink", "-cases", str(CASES.get(p, QUICK[p] // 12)), "-out", d + "/out.json"], d, env, 400)
            if rc in (1, 17, 18, 19, 2) or rc == 124 or rc < 0:
                msg = ""
                if rc == 1:
                    msg = json.load(open(d + "/out.json"))["failure"]["message"][:200]
                return dict(m, result="killed", by=p, rc=rc, msg=msg)
            if rc != 0:
                return dict(m, result="harness", by=p, rc=rc, out=o[-500:])
        return dict(m, result="SURVIVED")
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    out, slots, every, files = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
    WORK = tempfile.mkdtemp(prefix="mutwork-", dir="/tmp")
    mod = open("/repo/go.mod").read() + "\nreplace github.com/velour/chat => %s/harness/fakechat\n" % V
    open("/tmp/mutrepo.mod", "w").write(mod)
    shutil.copy(os.path.join(vrun.HARNESS, "repo.sum"), "/tmp/mutrepo.sum")
    b = tempfile.mkdtemp(dir=WORK)
    vrun.build(b, "C01")
    QUICK = {l.split()[0]: int(l.split()[1]) for l in subprocess.run([b + "/vworker", "-list"], stdout=subprocess.PIPE).stdout.decode().splitlines()}
    subprocess.run(["go", "build", "-o", WORK + "/mutate", "main.go"], cwd=os.path.join(V, "tools/mutate"), env=vrun.ENV, check=True)
    done = set()
    if os.path.exists(out):
        for l in open(out):
            r = json.loads(l)
            done.add((r["rel"], r["line"], r["desc"]))
    ms = []
    for rel in files:
        dd = tempfile.mkdtemp(dir=WORK)
        o = subprocess.run([WORK + "/mutate", os.path.join("/repo", rel), dd], stdout=subprocess.PIPE, check=True).stdout.decode()
        for l in o.splitlines():
            m = json.loads(l)
            m["rel"] = rel
            if (rel, m["line"], m["desc"]) not in done:
                ms.append(m)
    random.Random(7).shuffle(ms)
    ms = ms[::every]
    print(len(ms), "mutants", flush=True)
    with cf.ThreadPoolExecutor(slots) as ex, open(out, "a") as w:
        for f in cf.as_completed([ex.submit(one, m) for m in ms]):
            try:
                r = f.result()
            except Exception as e:
                r = {"result": "error", "err": str(e), "rel": "", "line": 0, "desc": ""}
            w.write(json.dumps(r, ensure_ascii=False) + "\n"); w.flush()
    shutil.rmtree(WORK, ignore_errors=True)
