"""Pairs of executions that must be observationally equal (PairTrace): C19, C13, C27."""
import copy, json
from . import dialog, func
from .core import CheckError
from .damage import after


def strip(e):
    """What PairTrace looks at, without the bank's descriptors."""
    return {"ev": "recv", "kind": e["kind"]} if e["ev"] == "recv" else e


def compare(ctx, scs, a, b, say):
    """say(why, scenario) -> text of the violation"""
    recs = [{"a": [strip(e) for e in x["events"]], "b": [strip(e) for e in y["events"]]} for x, y in zip(a, b)]
    bad = func.compare(ctx, "PairTrace", recs)
    for i in sorted(bad):
        for why in bad[i]:
            ctx.violate(say(why, scs[i]), {"key": " ".join(scs[i]["tags"]), "scenario": scs[i], "first": a[i]["events"], "second": b[i]["events"]})
    for i in range(0, len(scs), max(1, len(scs) // 3)):
        ctx.sample({"scenario": scs[i]["tags"], "events": [dialog.brief(e) for e in b[i]["events"]]})
    return bad


# ------------------------------------------------------------------ C19
def ucfg(rand, maxat=0, maxins=1, small=False):
    return "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Rand=%s MaxAt=%d MaxIns=%d Small=%s\n" % (str(rand).upper(), maxat, maxins, str(small).upper())


def plain(sc):
    sc = copy.deepcopy(sc)
    for c in sc["calls"]:
        for q in c["bank"].values():
            for r in q:
                r["unk"], r["ins"], r["perm"] = [], [], 0
    return sc


def one_function(r):
    """The choice among several common functions is the client's: it may differ between executions."""
    p = [x for a in r["acks"] if a["code"] == 3920 for x in a["params"]]
    return len(set(p) & set(r["tans"])) <= 1


def unknown_scenarios(ctx):
    t = ctx.thorough
    def sim(n, k, m):
        return lambda: ctx.tlc("Unknown", ucfg(True, 0, m), workers=4, args=["-simulate", "num=%d" % (n // 4), "-depth", "20", "-seed", str(ctx.seed * 1009 + k)])
    exh, ns = (9000, 8000) if t else (700, 400)
    res = ctx.parallel([lambda: dialog.menus(ctx), lambda: ctx.hv(), lambda: ctx.tlc("Unknown", ucfg(False, 14 if t else 9), workers=1), sim(ns, 1, 1), sim(ns, 2, 4)]
                       + [lambda v=v: dialog.simulation(ctx, "client", v, dialog.CLIENT_OPS, 5, 800 if t else 80) for v in (300, 220)]
                       + [lambda v=v: dialog.simulation(ctx, "dialog", v, dialog.DIALOG_OPS, 6, 800 if t else 60) for v in (300, 220)])
    menu, out, variations = res[0], [], []
    for k, r in enumerate(res[2:5]):
        bases = {b["base"]: b for b in r.json("BASE")}
        lines = sorted(set(r.tags.get("SC", [])))
        ctx.extra["variations_generated"] = ctx.extra.get("variations_generated", 0) + len(lines)
        ctx.rng.shuffle(lines)
        scs = [json.loads(json.loads('"%s"' % l, strict=False)) for l in (lines[:exh] if k == 0 else lines)]
        for s in scs:
            b = bases[s["base"]]
            bank = copy.deepcopy(b["bank"])
            for q in bank.values():
                for rep in q:
                    rep["unk"] = []
            for v in s["var"]:
                rep = bank[v["q"]][v["i"] - 1]
                rep["ins"], rep["perm"], rep["unk"] = v["ins"], v["perm"], []
                if k:
                    variations.append(v)
            out.append({"id": "", "tags": [s["base"], json.dumps(s["var"], ensure_ascii=False)],
                        "cfg": {"api": b["api"], "ver": b["ver"], "bank": "10000000", "user": "benutzer1", "pin": "geheimPIN7", "prod": "PRODUKT", "prodv": "1.0",
                                "url": "https://bank.example/fints", "debug": False},
                        "calls": [{"op": b["op"], "args": b["args"], "bank": bank}] + after(b["api"], b["op"], menu, b["args"])})
    # longer random conversations, varied with the variations TLC has drawn
    n = 0
    for _, scs in res[5:]:
        for s in scs:
            dialog.expand(s, menu)
            reps = [r for c in s["calls"] for q in c["bank"].values() for r in q]
            if not all(map(one_function, reps)):
                continue
            for r in reps:
                if r["k"] == "ok" and variations:
                    v = variations[ctx.rng.randrange(len(variations))]
                    r["ins"], r["perm"], r["unk"] = v["ins"], v["perm"], []
            s["tags"] = ["random", str(n)]
            n += 1
            out.append(s)
    ctx.extra["random_conversations"] = n
    for i, s in enumerate(out):
        s["id"] = "u%d" % i
    return out


def check_unknown(ctx):
    scs = unknown_scenarios(ctx)
    base, where = [], []
    index = {}
    for s in scs:
        p = plain(s)
        k = json.dumps([p["cfg"], p["calls"]], sort_keys=True)
        if k not in index:
            index[k] = len(base)
            base.append(dict(p, id="p%d" % len(base)))
        where.append(index[k])
    a = ctx.harness("dialog", base, procs=8, timeout=1500)
    b = ctx.harness("dialog", scs, procs=8, timeout=1500)
    compare(ctx, scs, [a[w] for w in where], b, lambda why, s: "segments without meaning, or another order of the segments, change what the client does: " + why)
    ctx.extra["pairs"] = len(scs)
    ctx.assumptions += ["the order of the acknowledgements among themselves, of the accounts and of the data segments of one reply is kept: they carry meaning"]


check_unknown.tech = ("TLA+ generator of meaningless segments and of segment orders (Unknown) for correct and random conversations (Bases, HbciDialog); both the plain and the varied conversation are "
                      "replayed into the real client, and TLC requires the two recorded executions to be observationally equal (PairTrace)")
check_unknown.note = "one insertion at every position of every reply of the base conversations, sampled for replay, plus random insertions into all replies; the inserted segments come from a vocabulary of about 35"
CHECKS = {"C19": (check_unknown, "model_checking")}
