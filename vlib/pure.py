"""Checks of parts that are functions: IBANs, wire syntax, statements."""
from . import func


def check_iban(ctx):
    base = dict(Emit=True, Mut="", Seed=ctx.seed)
    jobs = [("IbanDesign", func.cfg(dict(base, MaxErr=1, Full=ctx.thorough), ["Good", "EmitState"]), {"workers": 6})]
    if ctx.thorough:
        jobs.append(("IbanDesign", func.cfg(dict(base, MaxErr=2, Full=False), ["Good", "EmitState"]), {"workers": 8, "timeout": 1500}))
    func.run(ctx, jobs, "IbanTrace", show=func.readable)
    ctx.assumptions += ["the registered length of each country is as in the IBAN registry; the inner structure of a country's account numbers is not part of the property"]


check_iban.tech = "TLA+ reference of ISO 13616/7064 (Iban) and a design of typing errors (IbanDesign) checked by TLC; every generated text is run through the real functions and TLC compares"
check_iban.note = "all countries, all single errors of a set of IBANs over a fixed alphabet (thorough: more letters, pairs of errors); arbitrary other texts are not exhausted"

def wire_jobs(ctx, deep):
    base = dict(Emit=True, Mut="", Rand=False, Small=True, Big=False)
    def rnd(n, tok):
        return ("WireDesign", func.cfg(dict(base, Rand=True, Small=False, MaxTok=tok), ["Good", "EmitState"]),
                {"workers": 4, "args": ["-simulate", "num=%d" % (n // 4), "-depth", "200", "-seed", str(ctx.seed * 1013 + tok)], "timeout": 1500})
    big = [("WireDesign", func.cfg(dict(base, MaxTok=4 if ctx.thorough else 3, Big=True), ["Good", "EmitState"]), {"workers": 4})] if deep else []
    if ctx.thorough:
        return big + [("WireDesign", func.cfg(dict(base, MaxTok=4 if deep else 3), ["Good", "EmitState"]), {"workers": 6, "timeout": 1500}),
                ("WireDesign", func.cfg(dict(base, MaxTok=3, Small=False), ["Good", "EmitState"]), {"workers": 6, "timeout": 1500}), rnd(12000, 12), rnd(6000, 40)]
    return big + [("WireDesign", func.cfg(dict(base, MaxTok=3), ["Good", "EmitState"]), {"workers": 4}), rnd(600, 10), rnd(240, 40)]


# the generated messages leave such texts out: see known-findings.json
LEADING_ZEROS = {"op": "split", "msg": [ord(c) for c in "HIRMS:1:3+01,23'"], "ids": [[ord(c) for c in "HIRMS"]]}


def check_wire(ctx):
    func.run(ctx, wire_jobs(ctx, True), "WireTrace", show=func.readable, extra=[LEADING_ZEROS])
    ctx.assumptions += ["messages consist of characters of the HBCI character set (no NUL in text); of the texts that look like a decimal number with superfluous leading zeros "
                        "(known finding) only one is tried"]


check_wire.tech = "TLA+ reader and writer of the wire syntax (Wire), messages grown token by token (WireDesign) and round trip checked by TLC; every message is split by the real code and TLC compares with the reference reader"
check_wire.note = "all messages of up to 3 (thorough: 4) tokens of a small alphabet containing every reserved character and binary data full of them, plus random longer ones"



def mt940_jobs(ctx):
    base = dict(Emit=True, Mut="", Full=ctx.thorough, Seed=ctx.seed % 1000, Damaged=False, MaxSt=1, MaxTx=1, MaxF=1)
    def job(workers=3, args=None, **kw):
        return ("Mt940Design", func.cfg(dict(base, **kw), ["Good", "EmitState"]), {"workers": workers, "timeout": 1500, "args": args or []})
    def rnd(n, seed, **kw):
        return job(4, ["-simulate", "num=%d" % (n // 4), "-depth", "400", "-seed", str(ctx.seed * 1009 + seed)], Mode="rand", **kw)
    t = ctx.thorough
    struct = [job(Mode="struct", MaxSt=2, MaxTx=2 if t else 1)] + ([job(Mode="struct", MaxSt=3, MaxTx=1)] if t else []) + [job(Mode="struct", MaxTx=4, MaxSt=1)]
    damaged = [job(Mode="struct", MaxSt=1, MaxTx=2, Damaged=True)]
    rand = [rnd(4000 if t else 200, 1, MaxSt=3, MaxTx=4, MaxF=4), rnd(2000 if t else 80, 2, MaxSt=1, MaxTx=1, MaxF=21)]
    return {"C20": struct + damaged + rand, "C21": [job(6, Mode="money")] + rand[:1], "C22": [job(6, Mode="details", MaxF=3 if t else 2)] + rand}[ctx.prop]


def check_mt940(ctx):
    p = ctx.prop
    def pick(why):
        return why if why.startswith("panic") or why[:3] == p or "rejected" in why else None
    func.run(ctx, mt940_jobs(ctx), "Mt940Trace", show=func.readable, pick=pick)
    ctx.assumptions += ["statements begin with a line break before :20: and end with a line break and a dash; booking keys begin with N; a transaction has at most one :86:; "
                        "sub-fields have the keys 00, 10, 20-34, 60-63, each at most once; years are 2000 to 2099"]


check_mt940.tech = "TLA+ reference of statements (Mt940: writer, meaning and an independent reader), composed step by step (Mt940Design; TLC checks that reading inverts writing); every statement is read by the real code and TLC compares"
check_mt940.note = "all structures up to the bounds, all pairs of the chosen value dates and booking days, all pairs (thorough: triples) of sub-fields in any order with line breaks anywhere, damaged texts, plus random larger ones"


def check_values(ctx):
    base = dict(Dev=1, ListDev=1, AltDev=0, Rand=False, Emit=True, Mut="", Seed=ctx.seed % 1000)
    t = ctx.thorough
    n = 40000 if t else 4000
    jobs = [("ValuesDesign", func.cfg(dict(base, Dev=3 if t else 2, ListDev=2 if t else 1, AltDev=1 if t else 0), ["Good", "EmitState"]), {"workers": 6, "timeout": 1500}),
            ("ValuesDesign", func.cfg(dict(base, Rand=True), ["Good", "EmitState"]), {"workers": 4, "args": ["-simulate", "num=%d" % (n // 4), "-depth", "24", "-seed", str(ctx.seed * 1021)], "timeout": 1500})]
    func.run(ctx, jobs, "ValuesTrace", show=func.readable)
    ctx.assumptions += ["amounts have at most 15 digits; texts are of the characters of ISO 8859-1; texts that look like a decimal number with superfluous leading zeros are left out (known finding of C17)",
                        "what a number with a sign, a blank or an exponent means is left open"]


check_values.tech = "TLA+ table of the kinds of data elements with a writer and an independent reader (Values), values composed and altered field by field (ValuesDesign); TLC checks that reading inverts writing and compares what the real elements write and read (ValuesTrace)"
check_values.note = "all values with up to 2 (thorough: 3) unusual fields out of a vocabulary per type, each field of a usual value written in other and in impossible ways, plus random values"


def check_times(ctx):
    years = list(range(1899, 2105)) + [1, 4, 100, 400, 9996, 9999] if ctx.thorough else [1, 4, 1900, 1999, 2000, 2023, 2024, 2100, 9999, 2001 + ctx.seed % 90]
    c = func.cfg(dict(Emit=True, Mut=""), ["Good", "Sound", "EmitState"]) + "CONSTANT Years = {%s}\n" % ", ".join(map(str, sorted(set(years))))
    func.run(ctx, [("TimesDesign", c, {"workers": 6, "timeout": 1500})], "TimesTrace", show=func.readable)
    ctx.assumptions += ["a JSON time frame that is none may be refused or taken for the empty one"]


check_times.tech = "TLA+ calendar with writers and readers of dates and time frames (Times), a walk through all days of some years and texts altered in one place (TimesDesign) checked by TLC; every case is run through the real functions and TLC compares (TimesTrace)"
check_times.note = "all days of ten years (thorough: all of 1899 to 2104), pairs of chosen days, and all one-character changes of their texts over a small alphabet"

CHECKS = {"C31": (check_times, "model_checking"), "C28": (check_values, "model_checking"), "C20": (check_mt940, "model_checking"), "C21": (check_mt940, "model_checking"), "C22": (check_mt940, "model_checking"), "C25": (check_iban, "model_checking"), "C17": (check_wire, "model_checking")}
