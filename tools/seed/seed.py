#!/usr/bin/env python3
"""seed.py FILE.py [ids]: FILE defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], pkg, test, bank=True)].
Writes /verif/seeded/<id>/ and checks it in a scratch copy: compiles, tests pass, demo tells the trees apart."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", TZ="UTC")
W = "/tmp/seedw"


def sh(cmd, cwd=W, **k):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, env=ENV, **k)


def fresh():
    if not os.path.exists(W):
        sh("git worktree prune", cwd="/repo")
        r = subprocess.run(["git", "clone", "-q", "/repo", W], capture_output=True, text=True)
        assert r.returncode == 0, r.stderr
    sh("git fetch -q origin && git checkout -q -f FETCH_HEAD && git clean -fdq")
    assert sh("git rev-parse HEAD").stdout == sh("git rev-parse HEAD", cwd="/repo").stdout


def plant(s):
    fresh()
    for f, old, new in s["edits"]:
        p = os.path.join(W, f)
        t = open(p).read()
        if t.count(old) != 1:
            return "%d occurrences of edit in %s: %r" % (t.count(old), f, old[:60])
        open(p, "w").write(t.replace(old, new))
    d = os.path.join("/verif/seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    # only original lines may be touched
    base = "516a2db"
    diff = sh("git diff -U3").stdout
    for f in {e[0] for e in s["edits"]}:
        bl = sh("git blame -s HEAD -- " + f).stdout.splitlines()
        cur = 0
        for l in sh("git diff -U0 -- " + f).stdout.splitlines():
            if l.startswith("@@"):
                cur = int(l.split()[1][1:].split(",")[0])
            elif l.startswith("-") and not l.startswith("---"):
                if not bl[cur - 1].startswith("^"):
                    print("  note: touches a line added by a fix:", bl[cur - 1][:100])
                cur += 1
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    pkgname = s.get("name", s["pkg"].split("/")[-1]) + ("_test" if s.get("external", True) else "")
    open(os.path.join(d, "pkg"), "w").write(s["pkg"] + "\n")
    if s.get("bank"):
        open(os.path.join(d, "bank_test.go"), "w").write(open(os.path.join(HERE, "bank_test.go")).read().replace("package PKG", "package " + pkgname))
    open(os.path.join(d, "demo_test.go"), "w").write("package " + pkgname + "\n\n" + s["test"].strip() + "\n")
    shutil.copy(os.path.join(HERE, "demo.sh"), d)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    sh("gofmt -w " + os.path.join(d, "demo_test.go"))
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    r = sh("go build ./... && go vet ./dialog >/dev/null 2>&1; go test ./... 2>&1 | grep -v '^ok\\|no test files'")
    failing = [l for l in r.stdout.splitlines() if l.startswith("--- FAIL") or "FAIL" in l]
    base = set(open("/tmp/seed_base_fail").read().splitlines()) if os.path.exists("/tmp/seed_base_fail") else set()
    new = [l for l in failing if l.split("(")[0].strip() not in base and "domain" not in l and l.strip() != "FAIL" and not l.startswith("exit")]
    b = sh("go build ./...")
    if b.returncode:
        return "does not build: " + b.stderr[:400]
    if new:
        return "existing tests fail: " + "; ".join(new[:5])
    bad = sh(["bash", os.path.join(d, "demo.sh")])
    sh("git checkout -q -f .")
    good = sh(["bash", os.path.join(d, "demo.sh")])
    if good.returncode != 0:
        return "demo fails on the unchanged tree: " + good.stdout[-1500:] + good.stderr[-500:]
    if bad.returncode == 0 or bad.returncode == 3 or "build failed" in bad.stdout:
        return "demo does not notice the change (%d): " % bad.returncode + bad.stdout[-800:]
    return ""


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for s in ns["SEEDS"]:
        if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]:
            continue
        r = plant(s)
        print(s["id"], "OK" if not r else "NOT OK: " + r)


main()
