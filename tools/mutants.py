#!/usr/bin/env python3
"""Plants defects into the specifications (Mut) and into recorded traces, and requires that they are noticed.

mutants.py [substring]: shows which mutants violate the invariants of the design, and that corrupted recordings of
the real code are rejected by the monitor.
"""
import copy, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
os.environ.setdefault("VERIF_TIER", "quick")
from vlib import core, dialog, func

want = sys.argv[1] if len(sys.argv) > 1 else ""
ctx = core.Ctx("mutants")
fails = []


def tell(name, ok, how):
    print("%-34s %s %s" % (name, "noticed" if ok else "MISSED", how), flush=True)
    if not ok:
        fails.append(name)


def reason(out):
    m = re.findall(r'why \|-> "([^"]*)"', out)
    i = re.search(r"Invariant (\w+) is violated", out)
    return "; ".join(sorted(set(m)))[:150] if m else (i.group(0) if i else out[-300:])


def design(mut):
    for api, ver, ops, calls in (("client", 300, ["accounts", "sepatx", "bal"], 1), ("dialog", 300, ["sync", "accounts", "setpin", "sendkif"], 2), ("client", 220, ["tx", "commaccess", "accounts"], 2), ("dialog", 220, ["anonkom", "setpin", "setfn", "accounts"], 3)):
        r = ctx.tlc("HbciDialog", dialog.cfg(api, ver, ops, calls, mut=mut), workers=8, timeout=600, expect_violation=True)
        if "is violated" in r.out:
            return True, reason(r.out)
        if not r.ok:
            return False, r.out[-500:]
    return False, ""


spec = open(os.path.join(core.SPEC, "HbciDialog.tla")).read()
for mut in sorted(set(re.findall(r'Mutated\("(\w+)"\)', spec))):
    if want in "HbciDialog " + mut:
        tell("HbciDialog " + mut, *design(mut))

D = {"IbanDesign": dict(MaxErr=1, Full=False, Seed=1), "WireDesign": dict(Rand=False, Small=True, Big=False, MaxTok=3), "TransportDesign": dict(Level="small", Seed=1),
     "Mt940Design": dict(Full=False, Seed=1, Damaged=False, MaxSt=1, MaxTx=1, MaxF=1, Mode="money"), "ValuesDesign": dict(Dev=1, ListDev=1, AltDev=0, Rand=False, Seed=1),
     "TimesDesign": dict(), "BankCsvDesign": dict(Dev=1, Rand=False, MaxRows=2), "ConfigDesign": dict(Every=11, Seed=1)}
for mod, consts in D.items():
    text = open(os.path.join(core.SPEC, mod + ".tla")).read()
    for mut in sorted(set(re.findall(r'Mut = "(\w+)"', text)) | set(re.findall(r'Mut # "(\w+)"', text))):
        if want not in mod + " " + mut:
            continue
        c = func.cfg(dict(consts, Emit=False, Mut=mut), ["Good"])
        env = {}
        if mod == "TimesDesign":
            c += "CONSTANT Years = {2023, 2024}\n"
        if mod == "ConfigDesign":
            import subprocess
            d = ctx.path("dir.json")
            subprocess.run([ctx.hv(), "bankdir", os.path.join(core.SPEC, "banknumbers.txt"), d], check=True)
            env = {"DIR": d}
        how = []
        for mode in (("money", "struct", "details") if mod == "Mt940Design" else ("",)):
            r = ctx.tlc(mod, c.replace('Mode="money"', 'Mode="%s"' % mode), env=env, workers=8, timeout=600, expect_violation=True)
            how.append(reason(r.out))
            if "is violated" in r.out:
                break
        tell(mod + " " + mut, "is violated" in r.out, how[-1])

# a variable shared by two clients
if want in "Conc shared":
    from vlib import conc
    t = open(os.path.join(core.SPEC, "Conc.tla")).read()
    for sh in sorted(set(re.findall(r'Shared = "(\w+)"', t))):
        c = conc.DESIGN % ("", "dialog", 300, dialog.tla_set(["accounts", "sync"]), "dialog", 300, dialog.tla_set(["accounts", "sync"]), 1, "FALSE", "FALSE", sh)
        r = ctx.tlc("Conc", c, workers=8, timeout=900, expect_violation=True)
        tell("Conc shared " + sh, "is violated" in r.out, reason(r.out))

# recordings of the real code, each corrupted in one place
if want in "trace":
    scs = dialog.scenarios(ctx, [("client", 300, ["accounts", "sepatx", "bal", "status"], 1, 60), ("dialog", 220, ["sync", "accounts", "sendkif"], 2, 40)], [])
    traces = ctx.harness("dialog", scs)
    assert not dialog.validate(ctx, traces)

    def corrupt(ev, path, value):
        n = 0
        out = []
        for t in traces:
            for i, e in enumerate(t["events"]):
                if e["ev"] != ev:
                    continue
                c = copy.deepcopy(t)
                x = c["events"][i]
                try:
                    for p in path[:-1]:
                        x = x[p]
                    old = x[path[-1]]
                except (KeyError, IndexError, TypeError):
                    continue
                new = value(old) if callable(value) else value
                if new == old:
                    continue
                x[path[-1]] = new
                c["id"] = "x%d" % len(out)
                out.append(c)
                break
            if len(out) >= 25:
                break
        bad = dialog.validate(ctx, out)
        got = sorted({b["p"] for v in bad.values() for _, l in v for b in l})
        tell("trace %s %s" % (ev, ".".join(map(str, path))), len(bad) == len(out) and out, "%d of %d rejected: %s" % (len(bad), len(out), " ".join(got)))

    bump = lambda s: str(int(s) + 1)
    corrupt("send", ["dlg"], "OTHER")
    corrupt("send", ["num"], bump)
    corrupt("send", ["tnum"], bump)
    corrupt("send", ["size"], bump)
    corrupt("send", ["pins"], 2)
    corrupt("send", ["pos"], lambda p: p[:-1] + [p[-1] + 1])
    corrupt("send", ["enc"], lambda b: not b)
    corrupt("send", ["idn", 0, "user"], "x")
    corrupt("send", ["idn", 0, "sysid"], "x")
    corrupt("send", ["prep", 0, "bpdv"], "99")
    corrupt("send", ["sig", 0, "fn"], "123")
    corrupt("send", ["ench", 0, "profv"], "7")
    corrupt("send", ["endd"], lambda l: ["x"] if l else l)
    corrupt("send", ["biz", 0, "ver"], 99)
    corrupt("send", ["biz", 0, "els"], lambda l: l + [["x"]])
    corrupt("send", ["overlap"], True)
    corrupt("send", ["url"], "https://x")
    corrupt("ret", ["ok"], lambda b: not b)
    corrupt("ret", ["leak"], ["err"])
    corrupt("ret", ["panic"], "boom")
    corrupt("ret", ["res", "accts", 0, "id"], "x")
    corrupt("ret", ["res", "tx", 0], "x")
    corrupt("ret", ["res", "bals", 0, "cur"], "x")
    corrupt("ret", ["res", "stats", 0, "code"], 1)
    corrupt("ret", ["snap", 0, "bpdv"], 99)
    corrupt("ret", ["snap", 0, "segs"], lambda l: l + [{"id": "HIXXXS", "ver": 1}])

ctx.close()
print("%d missed: %s" % (len(fails), ", ".join(fails)))
sys.exit(1 if fails else 0)
