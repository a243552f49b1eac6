"""C18: one damaged reply in an otherwise correct conversation, and what comes after it."""
import copy, json
from . import dialog
from .core import untla
from .dialog import A0, NOBANK

UNITS = {"seg": 18, "el": 70, "ge": 150, "byte": 900, "body": 1500}


# replies that together have every kind of element (quick runs)
GROUPS = {("known", "sync"), ("accounts", "sync"), ("accounts", "init"), ("daccounts", "init"), ("bal6", "biz"), ("sepabal8", "biz"), ("sepatx", "biz"), ("status4", "biz")}


def cfg(rand, unit="seg", maxat=0, small=False, maxd=1):
    return 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Rand=%s Unit="%s" MaxAt=%d Small=%s MaxD=%d\n' % (str(rand).upper(), unit, maxat, str(small).upper(), maxd)


def after(api, op, menu, args):
    """The calls that follow: the bank conforms and tells everything anew."""
    full = dict(menu["Smin"], bpd=menu["SbpdB"]["bpd"], upd=menu["SbpdB"]["upd"], accts=menu["SbpdB"]["accts"], sysid=[])
    def call(op, args, **bank):
        return {"op": op, "args": args, "bank": dict(NOBANK, **bank)}
    calls = [call("accounts", A0, init=[full])]
    if op != "accounts":
        calls.append(call(op, args))
    calls.append(call("commaccess" if api == "client" else "anonkom", dict(A0, acct=dict(A0["acct"], id="20", bank="10", country=280))))
    return calls


def scenarios(ctx, jobs):
    res = ctx.parallel([lambda: dialog.menus(ctx), lambda: ctx.hv()] + [lambda j=j: ctx.tlc("Damage", j[0], timeout=2000, **j[1]) for j in jobs])
    menu, parts, seen = res[0], [], set()
    for r, (c, o, cap) in zip(res[2:], jobs):
        out = []
        bases = {b["base"]: b for b in r.json("BASE")}
        lines = sorted(set(r.tags.get("SC", [])))
        ctx.extra["damage_generated"] = ctx.extra.get("damage_generated", 0) + len(lines)
        if cap and len(lines) > cap:
            ctx.rng.shuffle(lines)
            lines = lines[:cap]
        for s in (json.loads(untla(l)) for l in lines):
            b = bases[s["base"]]
            if s["dmg"][0]["unit"] == "grp" and not ctx.thorough and (s["base"][:-3], s["q"]) not in GROUPS:
                continue
            # the same reply in several conversations
            k = json.dumps([s["q"], s["dmg"], b["bank"][s["q"]][s["i"] - 1]] if s["dmg"][0]["unit"] == "grp" else s, sort_keys=True)
            if k in seen:
                continue
            seen.add(k)
            bank = copy.deepcopy(b["bank"])
            rep = bank[s["q"]][s["i"] - 1]
            rep["k"], rep["dmg"] = "raw", s["dmg"]
            out.append({"id": "", "tags": [s["base"], s["q"], json.dumps(s["dmg"])],
                        "cfg": {"api": b["api"], "ver": b["ver"], "bank": "10000000", "user": "benutzer1", "pin": "geheimPIN7", "prod": "PRODUKT", "prodv": "1.0",
                                "url": "https://bank.example/fints", "debug": False},
                        "calls": [{"op": b["op"], "args": b["args"], "bank": bank}] + after(b["api"], b["op"], menu, b["args"])})
        parts.append(out)
    return parts


def run(ctx, jobs):
    """jobs: [(cfg, tlc options, cap)]"""
    scs = [s for part in scenarios(ctx, jobs) for s in part]
    for i, s in enumerate(scs):
        s["id"] = "d%d" % i
    traces = ctx.harness("dialog", scs, procs=8, timeout=1500)
    keep = [i for i, t in enumerate(traces) if not t.get("missed")]
    ctx.extra["damage_hit"] = len(keep)
    scs, traces = [scs[i] for i in keep], [traces[i] for i in keep]
    bad = dialog.validate(ctx, traces)
    dialog.report(ctx, {ctx.prop}, scs, traces, bad, keyf=lambda sc, t, at: " ".join(sc["tags"]))
    for t in traces[:: max(1, len(traces) // 2)][:2]:
        ctx.sample({"damage": scs[traces.index(t)]["tags"], "events": [dialog.brief(e) for e in t["events"]]})
    return scs, traces, bad


def jobs(ctx):
    def sim(n, seed, maxd):
        return (cfg(True, maxd=maxd), {"workers": 4, "args": ["-simulate", "num=%d" % (n // 4), "-depth", "10", "-seed", str(ctx.seed * 1009 + seed)]}, n)
    if ctx.thorough:
        return [(cfg(False, "head", 4, False), {"workers": 1}, 0), (cfg(False, "grp", 130, False), {"workers": 1}, 0), (cfg(False, "seg", 12, False), {"workers": 1}, 12000), (cfg(False, "el", 40, False), {"workers": 1}, 6000), (cfg(False, "ge", 90, True), {"workers": 1}, 4000),
                (cfg(False, "byte", 400, True), {"workers": 1}, 3000), (cfg(False, "body", 300, True), {"workers": 1}, 500), sim(24000, 1, 1), sim(12000, 2, 3)]
    return [(cfg(False, "head", 4, True), {"workers": 1}, 400), (cfg(False, "grp", 90, True), {"workers": 1}, 0), (cfg(False, "seg", 12, True), {"workers": 1}, 900), sim(2800, 1, 1), sim(800, 2, 3)]


def check_containment(ctx):
    dialog.run(ctx, [], [("client", 300, dialog.CLIENT_OPS, 1, 150), ("dialog", 220, dialog.DIALOG_OPS, 2, 150)], [("client", 220, dialog.CLIENT_OPS, 6, 60)])
    run(ctx, jobs(ctx))
    ctx.assumptions += ["a reply is hit before its transport encoding (segment, element, group element, byte) or after it (body); damages are taken from a fixed vocabulary",
                        "what the client makes of the damaged reply itself is left open: only panics, hangs and corrupted later calls count"]


check_containment.tech = ("TLA+ generator of damaged replies (Damage) around correct conversations (Bases); every damaged conversation and the correct calls after it are replayed into the real client, "
                          "and TLC validates the recorded traces with the monitor (HbciMonitor: no panic, no hang, later calls as if nothing had happened)")
check_containment.note = "all single damages of the vocabulary are enumerated by TLC and sampled for replay (quick: about 2,500, thorough: about 40,000, with up to three damages in one reply); arbitrary bytes are not exhausted"
CHECKS = {"C18": (check_containment, "model_checking")}
