#!/usr/bin/env python3
"""Mutants of /repo's grammar: usage: grammar.py OUT.jsonl SLOTS EVERY

Each mutant is a change of ast/toaq.peggy, from which ast/toaq.go is generated."""
import concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, V)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vrun
import run as R

SRC = open("/repo/ast/toaq.peggy").read()
TOK = re.compile(r'\s+|#[^\n]*|"[^"]*"|\'[^\']*\'|\[(?:\\.|[^\]\\])*\]|<-|[\w\u0080-\U0010ffff]+:(?!:)|[\w\u0080-\U0010ffff]+|[<>,/()?*+!&.]|\{')

def tokens():
    i = SRC.index("\n}\n") + 3
    ts = []
    while i < len(SRC):
        m = TOK.match(SRC, i)
        assert m, SRC[i:i + 40]
        t = m.group()
        if t == "{":
            depth, j = 0, i
            while True:
                if SRC[j] in "\"'":
                    q = SRC[j]; j += 1
                    while SRC[j] != q:
                        j += 2 if SRC[j] == "\\" else 1
                elif SRC[j] == "{": depth += 1
                elif SRC[j] == "}":
                    depth -= 1
                    if depth == 0: break
                j += 1
            ts.append(("act", i, j + 1)); i = j + 1; continue
        if not t.isspace() and not t.startswith("#"):
            ts.append((t, i, m.end()))
        i = m.end()
    return ts

T = tokens()
# Rules: NAME [<params>] ["title"] <- body
starts = []
for k, t in enumerate(T):
    if t[0] == "<-":
        j = k - 1
        if T[j][0][0] == '"': j -= 1
        if T[j][0] == ">":
            while T[j][0] != "<": j -= 1
            j -= 1
        starts.append((j, k))
muts = []
def mut(a, b, new, desc):
    line = SRC.count("\n", 0, a) + 1
    muts.append({"a": a, "b": b, "new": new, "line": line, "desc": desc, "rel": "ast/toaq.peggy"})
names = [T[j][0] for j, _ in starts]
for n, (j, k) in enumerate(starts):
    end = starts[n + 1][0] if n + 1 < len(starts) else len(T)
    rule = T[j][0]
    # choices by depth
    stack = [[k + 1]]
    def close(e):
        alts = stack.pop()
        alts.append(e + 1)
        if len(alts) <= 2: return
        spans = [(T[alts[i]][1], T[alts[i + 1] - 2][2]) for i in range(len(alts) - 1)]
        for i, (a, b) in enumerate(spans):
            if i + 1 < len(spans):
                mut(a, spans[i + 1][0], "", "%s: drop alternative %s" % (rule, SRC[a:b]))
                a2, b2 = spans[i + 1]
                mut(a, b2, SRC[a2:b2] + SRC[b:a2] + SRC[a:b], "%s: swap %s and %s" % (rule, SRC[a:b], SRC[a2:b2]))
            else:
                mut(spans[i - 1][1], b, "", "%s: drop last alternative %s" % (rule, SRC[a:b]))
    i = k + 1
    while i < end:
        t, a, b = T[i]
        if t == "(": stack.append([i + 1])
        elif t == ")": close(i)
        elif t == "/": stack[-1].append(i + 1)
        elif t == "?": mut(a, b, "", "%s: drop ? after %s" % (rule, T[i - 1][0]))
        elif t == "+": mut(a, b, "", "%s: drop + after %s" % (rule, T[i - 1][0])); mut(a, b, "*", "%s: + to * after %s" % (rule, T[i - 1][0]))
        elif t in "&!" and T[i + 1][0] not in ("act",):
            e = i + 1
            if T[e][0] == "(":
                d = 0
                while True:
                    d += {"(": 1, ")": -1}.get(T[e][0], 0)
                    if d == 0: break
                    e += 1
            mut(a, T[e][2], "", "%s: drop %s" % (rule, SRC[a:T[e][2]]))
        elif t[0] == "[":
            cs = re.findall(r'\\u[0-9A-Fa-f]{4}|\\.|.', t[1:-1])
            if len(cs) > 1:
                for x, c in enumerate(cs):
                    mut(a, b, "[" + "".join(cs[:x] + cs[x + 1:]) + "]", "%s: class without %s" % (rule, c))
        elif t in names:
            base = re.sub(r"_\d+$", "", t).replace("arg_", "argument")
            sib = [x for x in names if re.sub(r"_\d+$", "", x) in (base, {"argument": "arg"}.get(base, base)) and x != t]
            for x in sib:
                mut(a, b, x, "%s: %s to %s" % (rule, t, x))
        i += 1
    close(end)

def one(m):
    d = tempfile.mkdtemp(prefix="gram-", dir=R.WORK)
    try:
        open(d + "/toaq.peggy", "w").write(SRC[:m["a"]] + m["new"] + SRC[m["b"]:])
        p = subprocess.run(["go", "run", "github.com/eaburns/peggy", "-o", d + "/toaq.go", d + "/toaq.peggy"], cwd="/repo/ast", env=dict(vrun.ENV, GOMAXPROCS="2", GOFLAGS="-mod=mod -modfile=/tmp/mutrepo.mod"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            return dict(m, result="no build", out=p.stdout.decode()[-300:])
        r = R.one(dict(m, rel="ast/toaq.go", file=d + "/toaq.go"))
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    out, slots, every = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    R.WORK = tempfile.mkdtemp(prefix="mutwork-", dir="/tmp")
    R.ORDER["ast"] = ["C02", "C04", "C07", "C08", "C05", "C01", "C03"]
    b = tempfile.mkdtemp(dir=R.WORK)
    vrun.build(b, "C01")
    R.QUICK = {l.split()[0]: int(l.split()[1]) for l in subprocess.run([b + "/vworker", "-list"], stdout=subprocess.PIPE).stdout.decode().splitlines()}
    open("/tmp/mutrepo.mod", "w").write(open("/repo/go.mod").read() + "\nreplace github.com/velour/chat => %s/harness/fakechat\n" % V)
    shutil.copy(os.path.join(vrun.HARNESS, "repo.sum"), "/tmp/mutrepo.sum")
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)["desc"] for l in open(out)}
    ms = [m for m in muts if m["desc"] not in done]
    random.Random(7).shuffle(ms)
    ms = ms[::every]
    print(len(muts), len(ms), "mutants", flush=True)
    with cf.ThreadPoolExecutor(slots) as ex, open(out, "a") as w:
        for f in cf.as_completed([ex.submit(one, m) for m in ms]):
            try:
                r = f.result()
            except Exception as e:
                r = {"result": "error", "err": str(e), "desc": ""}
            w.write(json.dumps(r, ensure_ascii=False) + "\n"); w.flush()
    shutil.rmtree(R.WORK, ignore_errors=True)
