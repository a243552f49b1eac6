"""Several clients at the same time (C13): Conc, Interleave -> scheduled and free executions -> PairTrace."""
import copy, glob, itertools, json
from . import dialog, pair
from .core import CheckError
from .dialog import CLIENT_OPS, DIALOG_OPS, tla_set

DESIGN = "SPECIFICATION Spec\nINVARIANT Good\n%sCHECK_DEADLOCK FALSE\nCONSTANTS Api1=\"%s\" Ver1=%d Ops1=%s Api2=\"%s\" Ver2=%d Ops2=%s MaxCalls=%d Rand=%s Emit=%s Shared=\"%s\"\n"


def ccfg(one, two, calls, rand, shared=""):
    return DESIGN % ("" if rand else "VIEW View\n", one[0], one[1], tla_set(one[2]), two[0], two[1], tla_set(two[2]), calls, str(rand).upper(), str(rand).upper(), shared)


def conversations(ctx, num):
    """Pairs of random conversations with a schedule, from the design of two clients."""
    confs = [(("dialog", 300, ["accounts", "sync", "sendkif", "setsys"]), ("dialog", 300, ["accounts", "sync", "sendkif", "setpin"]), 4),
             (("client", 300, CLIENT_OPS), ("dialog", 220, DIALOG_OPS), 3),
             (("client", 220, ["accounts", "sepatx", "bal", "status"]), ("client", 300, ["accounts", "tx", "sepabal", "acctinfo", "commaccess"]), 3),
             (("dialog", 220, ["anonkom", "accounts", "setfn"]), ("client", 220, ["commaccess", "accounts", "acctinfo"]), 3)]
    def go(k, c):
        r = ctx.tlc("Conc", ccfg(*c, rand=True), workers=2, args=["-simulate", "num=%d" % (num // 2), "-depth", "300", "-seed", str(ctx.seed * 1009 + k)])
        return sorted(r.json("SC"), key=lambda s: json.dumps(s, sort_keys=True))
    return [lambda k=k, c=c: go(k, c) for k, c in enumerate(confs)]


def alike(ctx, a, b):
    """How similar the two clients are: state kept per bank, user or URL would mix them up."""
    k = ctx.rng.randrange(4)
    if k == 1:
        b["bank"], b["url"] = a["bank"], a["url"]
    elif k == 2:
        for f in ("bank", "url", "user", "prod", "prodv"):
            b[f] = a[f]
    elif k == 3:
        for f in ("bank", "url", "user", "prod", "prodv", "pin"):
            b[f] = a[f]


def determinate(calls):
    return all(pair.one_function(r) for c in calls for q in c["bank"].values() for r in q)


def scenario(id, cfg, calls, pre):
    return {"id": id, "tags": [], "cfg": cfg, "calls": calls, "pre": pre}


def cases(ctx):
    t = ctx.thorough
    num = 600 if t else 60
    jobs = conversations(ctx, num)
    sims = [lambda k=k, v=v, api=api, ops=ops: dialog.simulation(ctx, api, v, ops, 7, 400 if t else 60)[1]
            for k, (api, v, ops) in enumerate([("client", 300, CLIENT_OPS), ("client", 220, CLIENT_OPS), ("dialog", 300, DIALOG_OPS), ("dialog", 220, DIALOG_OPS)])]
    exh = [(("dialog", 300, ["setfn", "sync"]), ("dialog", 220, ["setsys", "sync"]), 1)]
    if t:
        exh += [(("dialog", 300, ["sync", "setsys"]), ("dialog", 300, ["sync", "setpin"]), 2), (("client", 300, ["acctinfo"]), ("dialog", 220, ["sync"]), 1)]
    res = ctx.parallel([lambda: ctx.hv(), lambda: dialog.menus(ctx), lambda: ctx.tlc("Unknown", pair.ucfg(False, 1, 1, True), workers=1)]
                       + [lambda c=c: ctx.tlc("Conc", ccfg(*c, rand=False), workers=8 if t else 2, timeout=3000) for c in exh] + jobs + sims)
    menu, bases = res[1], res[2].json("BASE")
    res = res[3 + len(exh):]
    out = []
    # random pairs, on the schedule the specification has chosen, and with replies that overtake each other
    for part in res[:len(jobs)]:
        for s in part:
            cl = []
            for x in (s["a"], s["b"]):
                cl.append({"id": "", "tags": [], "cfg": x["cfg"], "calls": x["calls"]})
                dialog.expand(cl[-1], menu)
            if not all(determinate(c["calls"]) for c in cl):
                continue
            alike(ctx, cl[0]["cfg"], cl[1]["cfg"])
            mode = ("strict", "split")[len(out) % 2]
            sched = s["sched"]
            if mode == "split":
                sched = [i for i in sched for _ in (0, 1)]
                for i in range(len(sched) - 1):
                    if ctx.rng.random() < 0.5:
                        sched[i], sched[i + 1] = sched[i + 1], sched[i]
            out.append({"mode": mode, "clients": cl, "sched": sched})
    n_random = len(out)
    # all interleavings of pairs of simple conversations
    cfg = lambda api, ver, k: {"api": api, "ver": ver, "bank": "1000000%d" % k, "user": "benutzer%d" % k, "pin": "geheimPIN%d" % k, "prod": "PRODUKT%d" % k, "prodv": "1.%d" % k,
                               "url": "https://bank%d.example/fints" % k, "debug": False}
    def conv(b, k):
        return {"id": "", "tags": [], "cfg": cfg(b["api"], b["ver"], k), "calls": [{"op": b["op"], "args": b["args"], "bank": copy.deepcopy(b["bank"])}]}
    bases = [b for b in sorted(bases, key=lambda b: b["base"]) if determinate([b])]
    ctx.extra["base_conversations"] = len(bases)
    singles = [conv(b, 1) for b in bases]
    for i, s in enumerate(singles):
        s["id"] = "b%d" % i
    solo = ctx.harness("dialog", singles)
    sends = [sum(e["ev"] == "send" for e in x["events"]) for x in solo]
    pairs = list(itertools.combinations_with_replacement(range(len(bases)), 2))
    ctx.rng.shuffle(pairs)
    if not t:
        pairs = pairs[:40]
    small = [p for p in pairs if sum(sends[i] for i in p) <= (9 if t else 7)][:(60 if t else 12)]
    big = [p for p in pairs if p not in small]
    def turns(ps, mode):
        return "<<%s>>" % ", ".join("<<%s>>" % ", ".join(str(1 + sends[i] * (2 if mode == "split" else 1)) for i in p) for p in ps)
    def inter(ps, mode, sim):
        args = ["-simulate", "num=%d" % sim, "-depth", "100", "-seed", str(ctx.seed * 1013)] if sim else []
        r = ctx.tlc("Interleave", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Turns <- T\n", workers=2, args=args, extra=("T == " + turns(ps, mode)))
        return [(ps[x["k"] - 1], mode, x["s"]) for x in sorted(r.json("SC"), key=lambda x: json.dumps(x))]
    trips = [tuple(ctx.rng.randrange(len(bases)) for _ in range(3)) for _ in range(100 if t else 20)]
    got = ctx.parallel([lambda: inter(small, "strict", 0), lambda: inter(small, "split", 2000 if t else 150), lambda: inter(big, "strict", 3000 if t else 150),
                        lambda: inter(big, "split", 3000 if t else 150), lambda: inter(trips, "split", 2000 if t else 150)])
    ctx.extra["interleavings_exhaustive"] = len(got[0])
    cap = 20000 if t else 500
    if len(got[0]) > cap:
        ctx.rng.shuffle(got[0])
        got[0] = got[0][:cap]
    ctx.extra["interleavings_replayed"] = sum(map(len, got))
    for part in got:
        for p, mode, s in part:
            out.append({"mode": mode, "clients": [conv(bases[i], k + 1) for k, i in enumerate(p)], "sched": s})
    ctx.extra["random_pairs"] = n_random
    # free running, watched by the race detector
    pool = [s for part in res[len(jobs):] for s in part]
    for s in pool:
        dialog.expand(s, menu)
    pool = [s for s in pool if determinate(s["calls"])]
    ctx.rng.shuffle(pool)
    free = []
    w = 6
    for i in range(0, len(pool) - w + 1, w):
        cl = [{"id": "", "tags": [], "cfg": s["cfg"], "calls": s["calls"]} for s in pool[i:i + w]]
        for c in cl[1:]:
            alike(ctx, cl[0]["cfg"], c["cfg"])
        free.append({"mode": "free", "clients": cl, "sched": []})
    ctx.extra["free_cases"] = len(free)
    for i, c in enumerate(out + free):
        c["id"] = "c%d" % i
        for k, s in enumerate(c["clients"]):
            s["id"] = "c%d.%d" % (i, k)
            s["pre"] = "K%d" % (k + 1)
            s["tags"] = [c["mode"], str(k)]
    return out, free


def races(ctx):
    """What the race detector wrote, by the first place inside the repository."""
    out = {}
    for f in glob.glob(ctx.path("race.*")):
        for rep in open(f, errors="replace").read().split("==================\n"):
            if "DATA RACE" in rep:
                where = [l.strip().split(" ")[0].replace("/repo/", "") for l in rep.split("\n") if l.strip().startswith("/repo/")]
                if where:
                    out.setdefault(where[0], rep)
    return out


def check(ctx):
    jobs = ctx.parallel([lambda: cases(ctx), lambda: ctx.hv(race=True)])
    sched, free = jobs[0]
    # alone, each in a process of its own
    index, solo = {}, []
    def key(s):
        return json.dumps([s["cfg"], s["calls"], s["pre"]], sort_keys=True)
    for c in sched + free:
        for s in c["clients"]:
            if key(s) not in index:
                index[key(s)] = len(solo)
                solo.append(dict(s, id="solo%d" % len(solo)))
    res = ctx.parallel([lambda: ctx.harness("solo", solo, procs=8, timeout=1500), lambda: ctx.harness("conc", sched, procs=4, timeout=1500)])
    alone, together = res
    tf = ctx.harness("conc", free, procs=2, timeout=1500, race=True, env={"GORACE": "exitcode=0 halt_on_error=0 log_path=" + ctx.path("race")})
    scs, a, b = [], [], []
    off = 0
    for c, r in zip(sched + free, together + tf):
        if r["skipped"]:
            continue
        off += r["extra"] + r["unused"] if c["mode"] == "strict" else 0
        for s, x in zip(c["clients"], r["clients"]):
            scs.append(dict(s, others=[o for o in c["clients"] if o is not s], sched=c["sched"]))
            a.append(alone[index[key(s)]])
            b.append(x)
    ctx.extra["turns_off_schedule"] = off
    ctx.extra["executions_compared"] = len(scs)
    bad = pair.compare(ctx, scs, a, b, lambda why, s: "beside other clients (%s) a client does not do what it does alone: %s" % (s["tags"][0], why))
    if not bad:
        # one more look with the monitor: the properties hold for each client in the company of others
        ctx.extra["solo_runs"] = len(solo)
    for where, rep in sorted(races(ctx).items()):
        ctx.violate("independent clients access the same memory without synchronization (%s)" % where, {"key": "race " + where, "report": rep[:6000]})
    ctx.assumptions += ["the switch for debug logging is process-wide by design and left out",
                        "scheduled runs interleave the clients at calls, requests and replies; finer interleavings are left to the free runs under the race detector"]


check.tech = ("TLA+ design of two clients (Conc: product of two instances of HbciDialog, each with its monitor) and all interleavings of conversations (Interleave); TLC's schedules are imposed on "
              "real clients in one process, and TLC requires each recorded execution to equal the one of the same client alone in a process of its own (PairTrace); free parallel runs under the race detector")
check.note = "all interleavings of calls and exchanges for pairs of short conversations, sampled for longer ones, for three clients and for replies that overtake each other; memory-level interleavings are only sampled (race detector)"
CHECKS = {"C13": (check, "model_checking")}
