"""Dialog layer: HbciDialog (design) -> scenarios -> real client -> DialogTrace (monitor)."""
import json, os, random
from .core import CheckError

CLIENT_OPS = ["accounts", "tx", "sepatx", "bal", "sepabal", "status", "acctinfo", "commaccess"]
DIALOG_OPS = ["accounts", "sync", "setpin", "setsys", "setfn", "sendkif", "anonkom"]


def tla_set(xs):
    return "{" + ", ".join('"%s"' % x for x in xs) + "}"


def cfg(api, ver, ops, calls, rand=False, emit=False, mut="", view="View", inv=True, spec="Spec"):
    return """SPECIFICATION %s
%s
%s
CHECK_DEADLOCK FALSE
CONSTANTS Api="%s" Ver=%d Ops=%s MaxCalls=%d Rand=%s Emit=%s Mut="%s"
""" % (spec, "INVARIANT Good" if inv else "", "VIEW " + view if view else "", api, ver, tla_set(ops), calls, str(rand).upper(), str(emit).upper(), mut)


def menus(ctx):
    r = ctx.tlc("DumpMenu", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n", workers=1, count=False)
    m = {}
    for d in r.json("MENU"):
        m[d["name"]] = d["r"]
    return m


def expand(sc, menu):
    for c in sc["calls"]:
        for q, names in c["bank"].items():
            c["bank"][q] = [menu[n] if isinstance(n, str) else n for n in names]
    return sc


def sig(c):
    return (c["op"], json.dumps(c["args"], sort_keys=True), tuple((q, tuple(json.dumps(x, sort_keys=True) for x in v)) for q, v in sorted(c["bank"].items())))


def drop_prefixes(scs):
    """Of the scenarios of one emission keep those that are not a prefix of another one."""
    def key(c, bank):
        return (c["op"], json.dumps(c["args"], sort_keys=True), *(tuple(bank[q]) for q in ("sync", "init", "biz", "end")))
    steps = [tuple(key(c, c["bank"]) for c in s["calls"]) for s in scs]
    keys = set()
    for s, st in zip(scs, steps):
        # all strict predecessors: the last call with one reply less in one of the queues
        last = s["calls"][-1]
        for q, v in last["bank"].items():
            if v:
                keys.add(st[:-1] + (key(last, dict(last["bank"], **{q: v[:-1]})),))
        keys.add(st[:-1])
    return [s for s, st in zip(scs, steps) if st not in keys]


A0 = {"acct": {"id": "", "sub": "", "country": 0, "bank": "", "iban": "", "bic": ""}, "all": False, "from": "", "to": "", "tz": 0, "max": 0, "cont": "", "pin": "", "sysid": "", "fn": ""}
NOBANK = {"sync": [], "init": [], "biz": [], "end": []}


def probe(api, k):
    """A benign follow-up call that shows the state a scenario left behind."""
    acct = {"id": "4711", "sub": "", "country": 280, "bank": "10000000", "iban": "DE89370400440532013000", "bic": "COBADEFFXXX"}
    def call(op, **a):
        return {"op": op, "args": dict(A0, **a), "bank": NOBANK}
    if api == "client":
        alts = [[call("accounts")], [call("tx", acct=acct)], [call("accounts"), call("sepatx", acct=acct, **{"from": "20150101", "to": "20150102"})], [call("accounts"), call("acctinfo", acct=acct)]]
    else:
        alts = [[call("accounts")], [call("setpin", pin="probePIN66"), call("sendkif", acct=acct)], [call("sync"), call("accounts")], [call("anonkom", acct=dict(acct, bank="1", id="2")), call("accounts")]]
    return alts[k % len(alts)]


def design(ctx, confs, workers=8):
    """Exhaustive check of the design. confs: [(api, ver, ops, calls)]"""
    for api, ver, ops, calls in confs:
        ctx.tlc("HbciDialog", cfg(api, ver, ops, calls), workers=workers, timeout=ctx.pick(600, 3000))


def features(s):
    """What a scenario exercises: every reply at its place, and every pair of successive replies."""
    out, prev = set(), ""
    for k, c in enumerate(s["calls"]):
        first = k == 0
        for q in ("sync", "init", "biz", "end"):
            for j, x in enumerate(c["bank"][q]):
                x = x if isinstance(x, str) else x["k"]
                out.add((c["op"], first, q, min(j, 2), x))
                out.add((c["op"], q, prev, x))
                prev = x
        out.add((c["op"], json.dumps(c["args"], sort_keys=True)))
    return out


def cover(scs, cap, rng):
    """A sample that keeps as many features as possible: first one scenario per unseen feature, then arbitrary ones."""
    scs = list(scs)
    rng.shuffle(scs)
    seen, first, rest = set(), [], []
    for s in scs:
        f = features(s)
        if not f <= seen:
            seen |= f
            first.append(s)
        else:
            rest.append(s)
    return (first + rest)[:cap]


def emission(ctx, api, ver, ops, calls, cap):
    r = ctx.tlc("HbciDialog", cfg(api, ver, ops, calls, emit=True, view="EmitView"), workers=1)
    scs = drop_prefixes(r.json("SC"))
    n = len(scs)
    rng = random.Random("%d %s %s %s %s" % (ctx.seed, api, ver, ops, calls))
    if cap and n > cap:
        scs = cover(scs, cap, rng)
    for s in scs:
        s["calls"] = s["calls"] + probe(api, rng.randrange(4))
    return n, scs


def simulation(ctx, api, ver, ops, calls, num):
    w = 4
    r = ctx.tlc("HbciDialog", cfg(api, ver, ops, calls, rand=True, emit=True, view="", inv=True), workers=w,
                args=["-simulate", "num=%d" % max(1, num // w), "-depth", "2500", "-seed", str(ctx.seed * 1009 + ver + calls)])
    scs = r.json("SC")
    scs.sort(key=lambda s: json.dumps(s, sort_keys=True))
    return len(scs), scs


def scenarios(ctx, emit, rand, confs=()):
    """emit: [(api, ver, ops, calls, cap)] transition covering; rand: [(api, ver, ops, calls, num)] simulation;
    confs: configurations of the design to check exhaustively meanwhile."""
    w = 8 if ctx.thorough else 3
    jobs = [lambda: menus(ctx), lambda: ctx.hv()] + [lambda e=e: emission(ctx, *e) for e in emit] + [lambda r=r: simulation(ctx, *r) for r in rand]
    if not ctx.thorough:
        jobs += [lambda c=c: design(ctx, [c], w) for c in confs]
    res = ctx.parallel(jobs)
    if ctx.thorough:
        design(ctx, confs)
    menu, out = res[0], []
    for i, (n, scs) in enumerate(res[2:2 + len(emit) + len(rand)]):
        k = "transition_scenarios" if i < len(emit) else "random_scenarios"
        ctx.extra[k] = ctx.extra.get(k, 0) + n
        out += [expand(s, menu) for s in scs]
    for i, s in enumerate(out):
        s["id"] = "s%d" % i
        s["tags"] = []
    return out


def validate(ctx, traces, module="DialogTrace"):
    """TLC steps the monitor over the traces; returns {trace index: [(event index, [bad])]}."""
    f = ctx.path("traces.nd")
    res = {}
    chunk = 2500
    for o in range(0, len(traces), chunk):
        part = traces[o:o + chunk]
        with open(f, "w") as fh:
            for t in part:
                fh.write(json.dumps(t, ensure_ascii=False) + "\n")
        r = ctx.tlc(module, "SPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\n", env={"TRACES": f}, timeout=800, heap="10g")
        ends = {int(x) for x in r.tags.get("END", [])}
        if ends != set(range(1, len(part) + 1)):
            raise CheckError("%d of %d traces were not consumed completely" % (len(part) - len(ends), len(part)))
        byid = {t["id"]: o + i for i, t in enumerate(part)}
        seen = set()
        for b in r.json("BAD"):
            k = json.dumps(b, sort_keys=True)
            if k not in seen:
                seen.add(k)
                res.setdefault(byid[b["id"]], []).append((b["at"], b["bad"]))
        ctx.traces += len(part)
    return res


def report(ctx, props, scs, traces, bad, keyf=None):
    for i, bs in sorted(bad.items()):
        for at, lst in bs:
            for b in lst:
                if b["p"] in props:
                    ctx.violate(b["why"], {"key": keyf(scs[i], traces[i], at) if keyf else "", "scenario": scs[i], "at_event": at, "event": traces[i]["events"][at - 1],
                                           "trace": traces[i]["events"][:at]})


def run(ctx, confs, emit, rand):
    scs = scenarios(ctx, emit, rand, confs)
    traces = ctx.harness("dialog", scs)
    bad = validate(ctx, traces)
    report(ctx, {ctx.prop}, scs, traces, bad)
    for t in traces[:2]:
        ctx.sample({"cfg": t["cfg"], "events": [brief(e) for e in t["events"]]})
    return scs, traces, bad


def brief(e):
    if e["ev"] == "send":
        return "send %s dlg=%s num=%s ids=%s" % (e["kind"], e["dlg"], e["num"], ",".join(e["ids"]))
    if e["ev"] == "recv":
        return "recv %s %s acks=%s" % (e["kind"], e["r"]["k"], [a["code"] for a in e["r"]["acks"]])
    if e["ev"] == "ret":
        return "ret %s ok=%s %s" % (e["op"], e["ok"], e["err"][:80])
    return "%s %s" % (e["ev"], e.get("op", e.get("err", "")))
