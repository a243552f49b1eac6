"""Which part of the pipeline decides which property, with what focus."""
from . import conc, config, bankcsv, cli, damage, dialog, func, orders, pair, pure, wrap
from .dialog import CLIENT_OPS as C, DIALOG_OPS as D

# property -> (client operations, dialog operations, share of random scenarios)
DIALOG = {
    "C01": (C, D, 1),
    "C02": (C, D, 1),
    "C03": (["accounts", "bal", "commaccess"], ["sync", "accounts", "setpin", "setsys", "sendkif", "anonkom"], 1),
    "C04": (C, ["accounts", "sync", "sendkif", "anonkom"], 1),
    "C05": (["accounts", "commaccess", "sepatx"], ["accounts", "sync", "sendkif", "anonkom", "setsys"], 2),
    "C06": (["accounts", "bal"], ["accounts", "sync", "sendkif", "anonkom"], 3),
    "C07": (["accounts", "tx"], ["sync", "accounts", "setpin", "setfn", "sendkif"], 2),
    "C08": (C, D, 1),
    "C09": (["commaccess", "accounts"], ["anonkom", "sync", "sendkif", "accounts"], 1),
    "C10": (["tx", "sepatx", "sepabal"], [], 3),
    "C11": (["tx", "sepatx", "bal", "sepabal", "status"], [], 2),
    "C12": (C, D, 1),
    "C14": (C, ["sendkif", "anonkom", "setpin", "setsys", "accounts"], 3),
    "C15": (C, ["sendkif", "anonkom", "setpin", "setsys", "accounts"], 4),
    "C16": (["accounts", "status", "acctinfo", "bal"], ["sendkif", "anonkom", "accounts", "sync"], 4),
    "C23": (["bal", "sepabal"], [], 4),
    "C24": (["status"], [], 4),
    "C29": (["accounts"], ["accounts", "sync", "sendkif", "anonkom"], 3),
    "C30": (C, ["sendkif", "anonkom", "accounts"], 3),
}
# operations whose exhaustive exploration is cheap even for several calls
HEAVY = {"tx", "sepatx", "sepabal"}


def check_dialog(ctx):
    cops, dops, rnd = DIALOG[ctx.prop]
    light = [o for o in cops if o not in HEAVY]
    heavy = [o for o in cops if o in HEAVY]
    confs, emit, rand = [], [], []
    if ctx.thorough:
        if light:
            confs.append(("client", 300, light, 2))
        if heavy:
            confs.append(("client", 220, cops, 1))
        if dops:
            confs.append(("dialog", 300, dops, 3))
        emit = [("client", v, cops, 1, 6000) for v in (300, 220)]
        if light:
            emit.append(("client", 300, light, 2, 3000))
        if dops:
            emit += [("dialog", 300, dops, 2, 4000), ("dialog", 220, dops, 2, 2000)]
        for i, v in enumerate((300, 220)):
            rand.append(("client", v, cops, 6, 1200 * rnd))
            if dops:
                rand.append(("dialog", v, dops, 8, 800 * rnd))
    else:
        v, w = (300, 220) if ctx.seed % 2 else (220, 300)
        if heavy:
            confs.append(("client", v, ["sepabal"], 1))
        if light:
            confs.append(("client", v, light[:3], 1))
        if dops:
            confs.append(("dialog", v, dops, 2))
        n = 300 if dops else 450
        if heavy and light:
            emit += [("client", v, heavy, 1, n * 2 // 3), ("client", v, light, 1, n // 2)]
        else:
            emit.append(("client", v, cops, 1, n))
        if dops:
            emit.append(("dialog", w, dops, 2, 350))
        rand.append(("client", w, cops, 6, 60 * rnd))
        if dops:
            rand.append(("dialog", v, dops, 8, 60 * rnd))
    dialog.run(ctx, confs, emit, rand)
    ctx.assumptions += ["the bank's replies conform to FinTS except where the specification makes them fail",
                        "the transport hands over each request and reply as one unit"]


# what the elements themselves do with texts and binary data, beyond those that travel in dialogs
WIRE_REASONS = {"C14": ("binary data is",), "C15": ("text is not escaped", "panic"), "C16": ("text read back", "panic")}


def check_texts(ctx):
    check_dialog(ctx)
    func.run(ctx, [j for j in pure.wire_jobs(ctx, False)], "WireTrace", show=func.readable, pick=lambda w: w if w.startswith(WIRE_REASONS[ctx.prop]) else None,
             keep=lambda items: [i for i in items if i["op"] != "split"])


# reasons that say which version of an order is chosen; the others say what the order contains
CHOICE = ("not the highest", "an order is made", "an announced order", "the caller's list")


def check_orders(ctx):
    check_dialog(ctx)
    orders.run(ctx, versions=ctx.prop == "C11", args=ctx.prop == "C30", pick=lambda w: w if w.startswith("panic") or w.startswith(CHOICE) == (ctx.prop == "C11") else None)


CHECKS = {p: (check_texts if p in WIRE_REASONS else check_orders if p in ("C11", "C30") else check_dialog, "model_checking") for p in DIALOG}
CHECKS.update(pure.CHECKS)
CHECKS.update(damage.CHECKS)
CHECKS.update(pair.CHECKS)
CHECKS.update(conc.CHECKS)
CHECKS.update(wrap.CHECKS)
CHECKS.update(config.CHECKS)
CHECKS.update(bankcsv.CHECKS)
CHECKS.update(cli.CHECKS)
NOT_APPLICABLE = {}


def describe(p):
    fn = CHECKS[p][0]
    return fn.tech, fn.note


check_dialog.tech = "TLA+ design and monitor (HbciDialog/HbciMonitor), TLC; behaviours replayed into the real client, recorded traces validated against the monitor by TLC"
check_dialog.note = ("the design is explored exhaustively within bounds (named reply menu, few calls); the code is bound to it by replaying transition-covering and random "
                     "scenarios and validating every recorded trace with the same monitor; behaviours outside the menus and longer histories are sampled, not exhausted")
check_texts.tech = check_dialog.tech + "; element texts and binary data compared by TLC with a TLA+ reference of the wire syntax"
check_texts.note = check_dialog.note
check_orders.tech = check_dialog.tech + "; announcements and orders enumerated by OrdersDesign go through the real builders, TLC compares the written segments with the reference (OrdersTrace)"
check_orders.note = check_dialog.note + "; all sets of announced versions out of ten (quick: of up to four versions) in three orders, one unusual argument at a time, random combinations"
