"""The command line client (C33): CliDesign (sequences of calls) + HbciDialog (what the bank answers) -> the real program -> CliTrace."""
import json, os, random, subprocess
from . import dialog
from .core import CheckError, GOENV, SPEC

OPS = ["accounts", "tx", "sepatx", "bal", "sepabal"]


def build(ctx):
    out = ctx.path("banking")
    env = dict(os.environ, **GOENV)
    env.setdefault("GOCACHE", "/root/.cache/go-build")
    r = subprocess.run(["go", "build", "-o", out, "./cmd/banking"], cwd="/repo", env=env, capture_output=True, text=True)
    if r.returncode:
        raise CheckError("the command line client does not build:\n" + r.stderr[-4000:])
    return out


def design(ctx, d, rand, calls, num=0, workers=4):
    c = 'SPECIFICATION Spec\nINVARIANT Good\nINVARIANT EmitState\nCHECK_DEADLOCK FALSE\nCONSTANTS Rand=%s Emit=TRUE Mut="" MaxCalls=%d Seed=%d\n' % (str(rand).upper(), calls, ctx.seed % 1000)
    args = ["-simulate", "num=%d" % (num // workers), "-depth", "20", "-seed", str(ctx.seed * 1009 + calls)] if rand else []
    items = ctx.tlc("CliDesign", c, env={"DIR": d}, workers=workers, args=args, timeout=900).json("IN")
    seen = {}
    for x in items:
        seen[json.dumps(x, sort_keys=True)] = x
    return [seen[k] for k in sorted(seen)]


def flags(c, rng):
    """The same call can be written in several ways."""
    def flag(name, v):
        return ["--%s=%s" % (name, v)] if rng.random() < .5 else ["--" + name, v]
    fl = [flag("hbci.url", "@URL@")]
    for name, v in (("userID", c["fu"]), ("blz", c["fb"]), ("pin", c["pin"])):
        if v:
            fl.append(flag(name, v))
    if c["cf"]:
        fl.append(flag("config", "@FILE@"))
    if c["debug"]:
        fl.append([rng.choice(["-d", "--debug"])])
    own = []
    if c["cmd"] != "accounts":
        if c["nosepa"]:
            own.append(["--disableSepa"])
        if c["acct"]:
            own.append(flag("accountID", c["acct"]))
        if c["cmd"] == "transactions" and c["days"] >= 0:
            own.append(flag("daysToFetch", str(c["days"])))
    rng.shuffle(fl)
    k = rng.randrange(len(fl) + 1)
    own = fl[k:] + own
    rng.shuffle(own)
    return sum(fl[:k], []) + [c["cmd"]] + sum(own, [])


def check(ctx):
    hv = ctx.hv()
    d = ctx.path("dir.json")
    r = subprocess.run([hv, "bankdir", os.path.join(SPEC, "banknumbers.txt"), d], capture_output=True, text=True)
    if r.returncode:
        raise CheckError("bank directory: " + r.stderr)
    # a few banks of each kind are enough here (C26 takes them all)
    with open(d) as f:
        banks = json.load(f)
    kinds = {}
    for b in sorted(banks, key=lambda b: b[5:] + b):
        if len(b) == 8 and len(banks[b]) == 1:
            kinds.setdefault((banks[b][0]["num"], banks[b][0]["name"]), []).append(b)
    keep = [b for l in kinds.values() for b in (random.Random(ctx.seed).sample(l, 4) if len(l) > 4 else l)]
    with open(d, "w") as f:
        json.dump({b: banks[b] for b in keep}, f)
    t = ctx.thorough
    n = 5000 if t else 280
    jobs = [lambda: build(ctx), lambda: dialog.menus(ctx), lambda: design(ctx, d, False, 1), lambda: design(ctx, d, True, 3, n)]
    for ver in (220, 300):
        jobs += [lambda ver=ver: dialog.emission(ctx, "client", ver, OPS, 1, 600 if t else 120)[1], lambda ver=ver: dialog.simulation(ctx, "client", ver, OPS, 1, 1200 if t else 160)[1]]
    bin_, menu, small, rand, *pools = ctx.parallel(jobs)
    rng = random.Random("cli %d" % ctx.seed)
    if t:
        small = small + design(ctx, d, False, 2)
    rng.shuffle(small)
    seqs = small[:6000 if t else 250] + rand
    pool = {}
    for k, scs in enumerate(pools):
        for s in scs:
            c = dialog.expand({"calls": [s["calls"][0]]}, menu)["calls"][0]
            pool.setdefault((220 if k < 2 else 300, c["op"]), []).append(c["bank"])
    for v in pool.values():
        rng.shuffle(v)
    used, items = {}, []
    for i, q in enumerate(seqs):
        calls = []
        for x in q["calls"]:
            c, w = x["call"], x["want"]
            args = dict(dialog.A0)
            if w["op"] != "accounts":
                args = dict(args, acct={"id": w["id"], "sub": "", "country": 280, "bank": w["blz"], "iban": "".join(map(chr, w["iban"])), "bic": w["bic"]}, all=w["op"] in ("bal", "sepabal"))
            bank = dialog.NOBANK
            if not w["local"]:
                key = (w["ver"], w["op"])
                used[key] = used.get(key, -1) + 1
                bank = pool[key][used[key] % len(pool[key])]
            calls.append({"argv": flags(c, rng), "env": {k: v for k, v in (("USERID", c["eu"]), ("BLZ", c["eb"])) if v}, "want": w, "days": w["days"],
                          "cfg": {"api": "client", "ver": w["ver"], "bank": w["blz"], "user": w["user"], "pin": c["pin"], "prod": "", "prodv": "", "url": "", "debug": c["debug"]},
                          "call": {"op": w["op"], "args": args, "bank": bank}})
        items.append({"id": "c%d" % i, "start": q["start"], "other": q["other"], "calls": calls})
    recs = ctx.harness("cli", items, env={"BANKING": bin_}, procs=8, timeout=800)
    traces, where = [], []
    for it, rec in zip(items, recs):
        for k, tr in enumerate(rec["traces"]):
            traces.append(tr)
            where.append((it, k))
    bad = dialog.validate(ctx, traces, "CliTrace")
    for i, bs in sorted(bad.items()):
        it, k = where[i]
        for at, lst in bs:
            for b in lst:
                ctx.violate(("" if b["p"] == "C33" else b["p"] + " ") + b["why"], {"key": "", "calls": dict(it, calls=it["calls"][:k + 1]), "at_event": at, "trace": traces[i]["events"][:at]})
    ctx.extra.update(call_sequences=len(items), program_runs=len(traces), runs_that_reach_the_bank=sum(1 for x in traces if not x["want"]["local"]),
                     runs_that_succeed=sum(1 for x in traces if x["events"][-1]["ok"]), rows_printed=sum(len(x["events"][-1]["rows"]) for x in traces))
    for x in traces[:: max(1, len(traces) // 3)][:3]:
        ctx.sample({"argv": x["argv"], "events": [dialog.brief(e) for e in x["events"]], "rows": x["events"][-1]["rows"]})
    ctx.assumptions += ["what a call without PIN, user or bank leaves in the configuration file is open", "a query of transactions may or may not carry the BIC", "tables are compared row by row, without blanks"]


check.tech = ("TLA+ design of repeated calls of the program (CliDesign: flags, environment, configuration file, home directory), bank replies from HbciDialog; the real program is run against a bank over HTTP on the loopback "
              "interface and TLC steps the dialog monitor over what it sent, and compares what it printed, stored and returned (CliTrace)")
check.note = "precedence of flags, environment and file exhaustively for one call (thorough: two), random sequences of three calls; replies are named and random ones of the dialog design"
CHECKS = {"C33": (check, "model_checking")}
