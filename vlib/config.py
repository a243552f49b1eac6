"""Resolving the configuration (C26): Config, ConfigDesign over the real bank directory -> client.New and its requests -> ConfigTrace."""
import json, os, subprocess
from . import func
from .core import CheckError, SPEC

# texts of user and product, with what they look like once read back
TEXTS = [("benutzer1", "PRODUKT", "1.0"), ("0012345678", "go-hbci", "0.3.2"), ("A", "B", "C"), ("user name 30 characters long xx", "Produkt 25 Zeichen langes", "5.555")]


def check(ctx):
    hv = ctx.hv()
    d = ctx.path("dir.json")
    r = subprocess.run([hv, "bankdir", os.path.join(SPEC, "banknumbers.txt"), d], capture_output=True, text=True)
    if r.returncode:
        raise CheckError("bank directory: " + r.stderr)
    n = len(json.load(open(d)))
    if n < 100:
        raise CheckError("only %d banks in the directory" % n)
    ctx.extra["directory_numbers"] = n
    c = func.cfg(dict(Emit=True, Mut="", Every=1 if ctx.thorough else 11, Seed=ctx.seed % 100), ["Good", "EmitState"])
    items = func.dedup(ctx.tlc("ConfigDesign", c, env={"DIR": d}, workers=8, timeout=1500).json("IN"))
    for i, it in enumerate(items):
        it["user"], it["prod"], it["prodv"] = TEXTS[i % len(TEXTS)]
        it["call"] = ["sepatx", "tx", "acctinfo", "bal", "sepabal", "status", "accounts"][i % 7]
        # without a bank number there is nothing to compare
        it["tbank"], it["tuser"], it["plain"] = it["bank"], it["user"], it["bank"] != ""
    recs = ctx.harness("func", items)
    bad = func.compare(ctx, "ConfigTrace", recs, env={"DIR": d})
    for i in sorted(bad):
        for why in bad[i]:
            ctx.violate(why, {"key": json.dumps(items[i], sort_keys=True), "config": items[i], "output": recs[i]})
    ctx.extra["configurations"] = len(items)
    ctx.extra["clients_made"] = sum(1 for x in recs if not x["err"])
    for x in recs[:: len(recs) // 3][:3]:
        ctx.sample({k: x[k] for k in ("bank", "url", "ver", "err", "sends")})
    ctx.assumptions += ["where several entries of the directory have the same number, any of them may be used", "an entry naming two protocol versions stands for the newer one"]


check.tech = ("TLA+ reference of how a configuration is resolved against the bank directory (Config) and a step-by-step design (ConfigDesign), checked by TLC over all entries of the real directory; every configuration "
              "is given to the real client.New, and TLC compares outcome and requests sent (ConfigTrace)")
check.note = "every bank number of the directory with nothing explicit; combinations of explicit values and near-miss numbers for a part of them (thorough: all)"
CHECKS = {"C26": (check, "model_checking")}
