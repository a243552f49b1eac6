"""The layers between client and bank server (C27): TransportDesign -> real layers and HTTP -> TransportTrace, PairTrace."""
import json
from . import dialog, func, pair
from .dialog import CLIENT_OPS, DIALOG_OPS


def layers(ctx):
    def job(level, emit=True, heap="6g"):
        return ("TransportDesign", func.cfg(dict(Level=level, Emit=emit, Mut="", Seed=ctx.seed % 100), ["Good", "EmitState"]), {"workers": 6, "timeout": 1500})
    items = func.run(ctx, [job("small")] + ([job("big"), job("deep")] if ctx.thorough else []), "TransportTrace", show=brief)[0]
    return items


def brief(r):
    return {k: (func.readable(v) if k in ("served", "got", "msg", "wire") and r["op"] != "bulk" else v) for k, v in r.items() if k in ("chain", "status", "fault", "rchunk", "served", "got", "err", "wire", "msg")}


def conversations(ctx):
    t = ctx.thorough
    v, w = (300, 220) if ctx.seed % 2 else (220, 300)
    emit = [("client", v, CLIENT_OPS, 1, 3000 if t else 300), ("dialog", w, DIALOG_OPS, 2, 2000 if t else 150)]
    rand = [("client", w, CLIENT_OPS, 6, 1200 if t else 80), ("dialog", v, DIALOG_OPS, 7, 1200 if t else 80)]
    scs = dialog.scenarios(ctx, emit, rand)
    return [s for s in scs if all(pair.one_function(r) for c in s["calls"] for q in c["bank"].values() for r in q)]


def check(ctx):
    layers(ctx)
    scs = conversations(ctx)
    ctx.extra["conversations"] = len(scs)
    off, on = ctx.parallel([lambda: ctx.harness("http", scs, procs=4, timeout=1500), lambda: ctx.harness("httpdebug", scs, procs=4, timeout=1500)])
    base = [x["direct"] for x in off]
    for what, other in (("over HTTP", [x["http"] for x in off]), ("with debug logging", [x["direct"] for x in on]), ("over HTTP with debug logging", [x["http"] for x in on])):
        for s in scs:
            s["tags"] = [what]
        pair.compare(ctx, scs, base, other, lambda why, s: "%s the client does not do what it does over a custom transport without logging: %s" % (what, why))
    recs = [{"op": "posts", "panic": "", "posts": x["http"]["posts"]} for x in (off[::2] + on[1::2] if ctx.thorough else off[::6] + on[3::6])]
    bad = func.compare(ctx, "TransportTrace", recs)
    for i in sorted(bad):
        for why in bad[i]:
            ctx.violate(why, {"key": "posts", "posts": [{k: func.readable(v) for k, v in p.items()} for p in recs[i]["posts"]]})
    ctx.assumptions += ["the server sends no redirects", "of HTTPSBase64Transport, which no client uses by itself and which is documented to hand through other statuses, only replies with status 200 are judged",
                        "a body with line breaks, or with a success status other than 200, may be decoded or refused"]


check.tech = ("TLA+ reference of base64 and the character sets (Transport) and a design of one exchange through the layers with its faults (TransportDesign) checked by TLC; every generated exchange runs through the real "
              "layers against a loopback HTTP server, and whole conversations of the dialog design run over HTTP and with logging; TLC compares (TransportTrace, PairTrace)")
check.note = "all short bodies over five bytes, patterns of many lengths, all listed faults and statuses for every stack of layers; TLS itself is not exercised (plain HTTP on the loopback)"
CHECKS = {"C27": (check, "model_checking")}
