"""Shared machinery of the checks: building the harness, running TLC, replaying, reporting."""
import glob, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
GOENV = {"HOME": os.environ.get("HOME") or "/root", "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOWORK": "off", "GOFLAGS": "-mod=mod", "TZ": "UTC"}


class CheckError(Exception):
    """The check itself failed: no verdict."""


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.rng = random.Random(self.seed * 7919 + 17)
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = []  # (key, why, replay object)
        self._hv = {}
        self._lock = threading.Lock()
        self._hvlock = threading.Lock()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def mark(self, what, t0):
        if os.environ.get("VERIF_PROFILE"):
            print("%6.1f +%5.1f %s" % (time.time() - self.t0, time.time() - t0, what), file=sys.stderr)

    # ---------------------------------------------------------------- Go
    def hv(self, race=False):
        """Builds the harness against /repo's working tree."""
        with self._hvlock:
            return self._build(race)

    def _build(self, race):
        if race in self._hv:
            return self._hv[race]
        out = self.path("hv-race" if race else "hv")
        env = dict(os.environ, **GOENV)
        env.setdefault("GOCACHE", "/root/.cache/go-build")
        cmd = ["go", "build", "-mod=mod", "-o", out]
        if race:
            cmd.append("-race")
        r = subprocess.run(cmd + ["."], cwd=os.path.join(VERIF, "harness"), env=env, capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError("harness does not build:\n" + r.stderr[-4000:])
        self._hv[race] = out
        return out

    def harness(self, mode, items, procs=6, timeout=400, race=False, env=None):
        """Runs scenarios through the harness, in parallel processes; returns the output lines in order."""
        t0 = time.time()
        hv = self.hv(race)
        self.mark("build", t0)
        t0 = time.time()
        n = max(1, min(procs, len(items)))
        ps = []
        for i in range(n):
            inp, out = self.path("%s-in-%d" % (mode, i)), self.path("%s-out-%d" % (mode, i))
            with open(inp, "w") as f:
                for it in items[i::n]:
                    f.write(json.dumps(it, ensure_ascii=False) + "\n")
            e = dict(os.environ, TZ="UTC", **(env or {}))
            ps.append((subprocess.Popen([hv, mode, inp, out], env=e, stdout=subprocess.DEVNULL, stderr=open(out + ".err", "w"), cwd=self.dir), out, i))
        res = [None] * len(items)
        for p, out, i in ps:
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                for q, _, _ in ps:
                    q.kill()
                lines = [json.loads(l) for l in open(out) if l.endswith("}\n")] if os.path.exists(out) else []
                raise HarnessDied(mode, "timeout", "timed out", items[i::n], lines)
            err = open(out + ".err").read()
            lines = [json.loads(l) for l in open(out) if l.endswith("}\n")] if os.path.exists(out) else []
            want = len(items[i::n])
            if rc != 0 or len(lines) != want:
                raise HarnessDied(mode, rc, err[-3000:], items[i::n], lines)
            for k, l in enumerate(lines):
                res[i + k * n] = l
        self.mark("harness %s %d items" % (mode, len(items)), t0)
        return res

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=8, args=(), timeout=600, expect_violation=False, count=True, heap="6g", extra=""):
        t0 = time.time()
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.dir)
        for f in glob.glob(os.path.join(SPEC, "*.tla")):
            shutil.copy(f, d)
        if extra:  # definitions for "CONSTANT x <- y"
            f = os.path.join(d, module + ".tla")
            text = open(f).read()
            i = text.rindex("\n====")
            open(f, "w").write(text[:i] + "\n" + extra + text[i:])
        with open(os.path.join(d, "run.cfg"), "w") as f:
            f.write(cfg)
        e = dict(os.environ, **(env or {}))
        e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-Djava.io.tmpdir=" + d, "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-config", "run.cfg"] + list(args) + [module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC on %s timed out" % module)
        self.mark("tlc %s %s" % (module, cfg.split("CONSTANTS")[-1].strip()[:60] if "CONSTANTS" in cfg else ""), t0)
        out = r.stdout.decode("utf-8", "replace")
        shutil.rmtree(d, ignore_errors=True)
        res = TLCResult(out, r.returncode)
        if not res.ok and not expect_violation:
            raise CheckError("TLC failed on %s (rc %d):\n%s\n%s" % (module, r.returncode, out[-6000:], r.stderr.decode("utf-8", "replace")[-1000:]))
        if count:
            with self._lock:
                self.states += res.distinct
                self.transitions += res.generated
        return res

    def parallel(self, jobs):
        """Runs the functions side by side; results in order, the first error wins."""
        with ThreadPoolExecutor(max_workers=max(1, len(jobs))) as ex:
            return [f.result() for f in [ex.submit(j) for j in jobs]]

    # ---------------------------------------------------------------- verdicts
    def violate(self, why, replay):
        self.violations.append((why, replay))

    def sample(self, s, n=3):
        if len(self.samples) < n:
            self.samples.append(s)


class HarnessDied(CheckError):
    def __init__(self, mode, rc, err, items, lines):
        CheckError.__init__(self, "harness %s died (rc %s) after %d of %d items:\n%s" % (mode, rc, len(lines), len(items), err))
        self.mode, self.rc, self.err, self.items, self.lines = mode, rc, err, items, lines

    def culprit(self):
        """Was it the code under test? Not if the harness itself gave up, or the machine was too slow."""
        if self.rc == "timeout":
            return any(e.get("timeout") for l in self.lines for e in l.get("events", []))
        return self.rc != 3 or "no answer within" in self.err


class TLCResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        self.tags = {}
        for m in re.finditer(r'^"@@(\w+) (.*)"$', out, re.M):
            self.tags.setdefault(m.group(1), []).append(m.group(2))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        m = re.search(r"The number of states generated: (\d+)", out)
        if m:
            self.generated = int(m.group(1))
            self.distinct = self.generated
        self.ok = rc == 0 and "Error:" not in out

    def json(self, tag):
        return [json.loads(untla(s)) for s in self.tags.get(tag, [])]


def untla(s):
    """Undo the escaping PrintT applies to a string."""
    return json.loads('"%s"' % s, strict=False)


# -------------------------------------------------------------------- reporting
def known_findings():
    """known-findings.json: [{property, status: open|fixed, key, what, commit?}]"""
    p = os.path.join(VERIF, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def finish(ctx, level):
    prop = ctx.prop
    known = [k for k in known_findings() if k["property"] == prop and k["status"] == "open"]
    new, seen = [], {}
    for why, replay in ctx.violations:
        key = why + " | " + str(replay.get("key", ""))
        hit = [k for k in known if re.fullmatch(k["key"], key, re.S)]
        if hit:
            seen[hit[0]["key"]] = hit[0]
        else:
            new.append((why, replay))
    for k in known:
        if k["key"] in seen:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    cov = {"states": ctx.states, "transitions": ctx.transitions, "traces_validated_against_impl": ctx.traces, "samples": ctx.samples}
    cov.update(ctx.extra)
    ev = {"property": prop, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": cov, "assumptions": ctx.assumptions,
          "wall_s": round(time.time() - ctx.t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    shown = set()
    for why, replay in new:
        if why in shown or len(shown) > 12:
            continue
        shown.add(why)
        path = os.path.join(VERIF, "evidence", "replays", "%s-%d.json" % (prop, len(shown)))
        with open(path, "w") as f:
            json.dump({"property": prop, "why": why, "replay": replay}, f, indent=1, ensure_ascii=False)
        print("# %s" % why)
        print("VIOLATION property=%s replay=%s" % (prop, path))
    print("%s %s seed=%d: %d states, %d traces, %d new violations, %.1fs" % (prop, ctx.tier, ctx.seed, ctx.states, ctx.traces, len(new), time.time() - ctx.t0))
    return 1 if new else 0
