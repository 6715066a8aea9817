#!/usr/bin/env python3
"""Runs the check of one property against /repo's working tree.

usage: vrun.py ID [quick|thorough]      (also: VERIF_TIER, VERIF_SEED)
       vrun.py --replay FILE            check the input of a replay file again
       vrun.py --setup                  build everything once (fills the build cache)

Exit codes: 0 the property held on all cases; 1 a violation (with a VIOLATION line);
2 the check itself failed, and nothing is known about the property.
"""
import hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, ".build")
SHARDS = 8
HANG, MEM, STUCK = 17, 18, 19
DEADLINE = {"quick": 240, "thorough": 3000}
# Binaries of /repo that some checks need: property -> (package, needs the fake chat module).
BINARIES = {"C24": [("server", False)], "C31": [("server", False)], "C25": [("bot", True)], "C27": [(".", False)], "C28": [("dict/main.go", False)],
            "C29": [("server", False), ("bot", True)]}
# Checks that are built with the race detector.
RACE = {"C29"}

ENV = dict(os.environ)
ENV.update({
    "HOME": "/root",
    "PATH": "/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    "GOROOT": "/opt/veriftools/go1.27.3", "GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod",
    "GOCACHE": "/root/.cache/go-build", "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOSUMDB": "off",
    "GOWORK": "off", "GO111MODULE": "on", "GOFLAGS": "-mod=mod", "GOTRACEBACK": "single",
})
for k in ("VERIF_SERVER_DIR", "GOOS", "GOARCH", "GODEBUG", "GOGC", "GOMAXPROCS", "GOEXPERIMENT"):
    ENV.pop(k, None)


class Infra(Exception):
    pass


def sh(cmd, cwd, env=None, timeout=800):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode != 0:
        raise Infra("%s failed:\n%s" % (" ".join(cmd), p.stdout.decode("utf8", "replace")[-4000:]))


def build(out, prop=None):
    """Builds the worker, and the binaries of /repo that the property needs."""
    env, flags = ENV, []
    if prop in RACE:
        env, flags = dict(ENV, CGO_ENABLED="1"), ["-race"]
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(HARNESS, f), os.path.join(out, f))
    sh(["go", "build"] + flags + ["-modfile", os.path.join(out, "go.mod"), "-o", os.path.join(out, "vworker"), "./cmd/vworker"], HARNESS, env)
    wanted = BINARIES.get(prop, [])
    if prop is None:
        wanted = sorted(set(b for bs in BINARIES.values() for b in bs))
    for pkg, fake in wanted:
        if fake and not os.path.exists(os.path.join(HARNESS, "fakechat")):
            continue
        mod = open(os.path.join(REPO, "go.mod")).read()
        if fake:
            mod += "\nreplace github.com/velour/chat => %s\n" % os.path.join(HARNESS, "fakechat")
        with open(os.path.join(out, "repo.mod"), "w") as f:
            f.write(mod)
        sums = set()
        for p in (os.path.join(REPO, "go.sum"), os.path.join(HARNESS, "go.sum"), os.path.join(HARNESS, "repo.sum")):
            if os.path.exists(p):
                sums.update(open(p).read().splitlines())
        with open(os.path.join(out, "repo.sum"), "w") as f:
            f.write("\n".join(sorted(s for s in sums if s)) + "\n")
        name = "toaq" if pkg == "." else pkg.split("/")[0]
        sh(["go", "build"] + flags + ["-modfile", os.path.join(out, "repo.mod"), "-o", os.path.join(out, "bin-" + name), "./" + pkg], REPO, env)


def limit():
    os.setsid()


class Worker:
    def __init__(self, out, prop, args, name):
        self.stats = os.path.join(out, name + ".stats")
        self.current = os.path.join(out, name + ".current")
        self.errfile = os.path.join(out, name + ".err")
        env = dict(ENV, VERIF_BIN=out, VERIF_KNOWN=os.path.join(VERIF, "known-findings.txt"), VERIF_SCRATCH=os.path.join(out, name + ".scratch"))
        if prop in RACE:
            # The reports go to files, which the check looks at after each case.
            env["GORACE"] = "log_path=%s halt_on_error=0 exitcode=0 atexit_sleep_ms=0" % os.path.join(out, name + ".race")
        os.makedirs(env["VERIF_SCRATCH"], exist_ok=True)
        with open(self.errfile, "wb") as err:
            self.p = subprocess.Popen([os.path.join(out, "vworker"), "-prop", prop, "-out", self.stats, "-current", self.current] + args,
                                      cwd=out, env=env, stdin=subprocess.DEVNULL, stdout=err, stderr=err, preexec_fn=limit)

    def stop(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()

    def err(self):
        with open(self.errfile, "rb") as f:
            s = f.read().decode("utf8", "replace")
        return s if len(s) < 6000 else s[:3000] + "\n...\n" + s[-3000:]

    def case(self):
        """The case that was current when the process died."""
        try:
            with open(self.current, "rb") as f:
                head, rest = f.read().split(b"\n", 1)
            n, length = head.split()
            return int(n), json.loads(rest[:int(length)])
        except (OSError, ValueError):
            return None


def replay_once(out, prop, inp, name, timeout=400):
    """Checks one input in a fresh process. Returns (violated, message)."""
    f = os.path.join(out, name + ".input")
    with open(f, "w") as w:
        json.dump(inp, w)
    k = Worker(out, prop, ["-replay", f], name)
    try:
        code = k.p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        k.stop()
        return True, "the check of this input does not end"
    k.stop()
    if code == 0:
        return False, k.err()
    if code == 3:
        raise Infra(k.err())
    if code < 0:
        raise Infra("the process was killed by signal %d\n%s" % (-code, k.err()))
    return True, {HANG: "exceeded the limit of CPU time\n", MEM: "exceeded the limit of memory\n", STUCK: "blocked forever\n"}.get(code, "") + k.err()


def run(prop, tier, seed):
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    out = tempfile.mkdtemp(prefix="%s-%s-" % (prop, tier), dir=BUILD)
    workers = []
    try:
        build(out, prop)
        deadline = DEADLINE[tier]
        for i in range(SHARDS):
            workers.append(Worker(out, prop, ["-tier", tier, "-seed", str(seed), "-shard", str(i), "-total", str(SHARDS),
                                              "-deadline", "%ds" % deadline], "w%d" % i))
        failure, died = None, []
        end = time.time() + deadline + 300
        left = list(workers)
        while left and failure is None:
            for k in list(left):
                code = k.p.poll()
                if code is None:
                    continue
                left.remove(k)
                if code == 1:
                    failure = json.load(open(k.stats))["failure"]
                    break
                if code == 3:
                    raise Infra("harness error:\n" + k.err())
                if code != 0:
                    died.append((k, code))
                    break
            if died:
                break
            if time.time() > end:
                raise Infra("the workers do not end")
            time.sleep(0.05)
        if failure is None and died:
            # A worker died: it is a violation only if the case does it again.
            k, code = died[0]
            for w in workers:
                w.stop()
            cur = k.case()
            if cur is None:
                raise Infra("a worker died with code %d outside of a case:\n%s" % (code, k.err()))
            for attempt in range(10 if prop in RACE else 3):
                bad, msg = replay_once(out, prop, cur[1], "again%d" % attempt)
                if bad:
                    failure = {"property": prop, "message": msg, "input": cur[1], "case": cur[0], "seed": seed,
                               "died": "exit code %d" % code, "original_message": k.err()}
                    break
            if failure is None:
                raise Infra("a worker died with code %d, and its case does not do it again:\n%s" % (code, k.err()))
        for w in workers:
            w.stop()
        stats = []
        for w in workers:
            if os.path.exists(w.stats):
                stats.append(json.load(open(w.stats)))
        evidence(prop, tier, seed, stats, failure, time.time() - t0)
        for key, what in known(prop):
            if any(key in (s.get("known") or []) for s in stats):
                print("KNOWN-FINDING: property=%s %s" % (prop, what))
        if failure is not None:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            blob = json.dumps(failure, indent=1, ensure_ascii=False)
            path = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, hashlib.sha256(blob.encode()).hexdigest()[:12]))
            with open(path, "w") as f:
                f.write(blob + "\n")
            print(failure["message"][:3000])
            print("input: " + json.dumps(failure["input"], ensure_ascii=False)[:3000])
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        print("ok property=%s tier=%s seed=%d cases=%d complete=%s wall=%.1fs" % (
            prop, tier, seed, sum(s["evaluations"] for s in stats), all(s["complete"] for s in stats), time.time() - t0))
        return 0
    finally:
        for w in workers:
            w.stop()
        shutil.rmtree(out, ignore_errors=True)


def known(prop):
    """The known findings of a property: pairs of a key and a description."""
    ks = []
    with open(os.path.join(VERIF, "known-findings.txt")) as f:
        for line in f:
            head = "known: property=%s key=" % prop
            if line.startswith(head):
                key, end = json.JSONDecoder().raw_decode(line[len(head):])
                ks.append((key, line[len(head) + end:].strip()))
    return ks


def evidence(prop, tier, seed, stats, failure, wall):
    keys, classes, samples = set(), {}, []
    for s in stats:
        keys.update(s["keys"] or [])
        for c, n in (s["classes"] or {}).items():
            classes[c] = classes.get(c, 0) + n
        samples += (s["samples"] or [])[:2]
    rule = next((s["rule"] for s in stats), "")
    e = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
         "coverage": {"evaluations": sum(s["evaluations"] for s in stats), "distinct_nontrivial": len(keys), "rule": rule,
                      "samples": samples[:12], "classes": dict(sorted(classes.items())), "complete": all(s["complete"] for s in stats)},
         "violations": 0 if failure is None else 1,
         "wall_s": round(wall, 2)}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.%d" % (prop, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(e, f, indent=1, ensure_ascii=False)
        f.write("\n")
    os.replace(tmp, os.path.join(d, prop + ".json"))


def replay(path):
    f = json.load(open(path))
    os.makedirs(BUILD, exist_ok=True)
    out = tempfile.mkdtemp(prefix="replay-", dir=BUILD)
    try:
        build(out, f["property"])
        bad, msg = replay_once(out, f["property"], f["input"], "replay")
        print(msg)
        if bad:
            print("VIOLATION property=%s replay=%s" % (f["property"], os.path.abspath(path)))
        return 1 if bad else 0
    finally:
        shutil.rmtree(out, ignore_errors=True)


def setup():
    os.makedirs(BUILD, exist_ok=True)
    out = tempfile.mkdtemp(prefix="setup-", dir=BUILD)
    try:
        build(out)
        return 0
    finally:
        shutil.rmtree(out, ignore_errors=True)


def main(argv):
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    try:
        if len(argv) == 2 and argv[1] == "--setup":
            return setup()
        if len(argv) == 3 and argv[1] == "--replay":
            return replay(argv[2])
        if len(argv) not in (2, 3) or argv[1].startswith("-"):
            print(__doc__)
            return 2
        tier = argv[2] if len(argv) == 3 else os.environ.get("VERIF_TIER", "quick")
        if tier not in DEADLINE:
            raise Infra("no tier " + tier)
        return run(argv[1], tier, int(os.environ.get("VERIF_SEED") or "1"))
    except Infra as e:
        print("ERROR " + str(e))
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv))
