"""Importing the published bank directory (C32): BankCsv, BankCsvDesign -> bankinfo.Parse... and the generator -> BankCsvTrace."""
import os, subprocess
from . import func
from .core import CheckError, GOENV


def check(ctx):
    t = ctx.thorough
    tool = ctx.path("bankdata_parser")
    r = subprocess.run(["go", "build", "-o", tool, "./cmd/bankdata_parser"], cwd="/repo", env=dict(os.environ, **dict(GOENV, GOFLAGS="-mod=readonly")), capture_output=True, text=True)
    if r.returncode:
        raise CheckError("the generator does not build: " + r.stderr)
    base = dict(Dev=2 if t else 1, Rand=False, Emit=True, Mut="", MaxRows=2)
    n = 8000 if t else 800
    jobs = [("BankCsvDesign", func.cfg(base, ["Good", "EmitState"]), {"workers": 6, "timeout": 1500}),
            ("BankCsvDesign", func.cfg(dict(base, Rand=True, MaxRows=4), ["Good", "EmitState"]), {"workers": 4, "args": ["-simulate", "num=%d" % (n // 4), "-depth", "60", "-seed", str(ctx.seed * 1031)], "timeout": 1500})]
    every = 5 if t else 9
    k = [0]

    def keep(items):
        for it in items:
            k[0] += 1
            # the generator reads entries, not BICs alone; its run takes a process
            it["tool"] = it["fields"][0] == "blz" and (k[0] + ctx.seed) % every == 0
        return items
    os.environ["HV_TOOL"] = tool
    func.run(ctx, jobs, "BankCsvTrace", show=func.readable, keep=keep)
    ctx.assumptions += ["the first row names the columns, each at most once; fields are separated by semicolons"]


check.tech = "TLA+ reader of such tables and what they say (BankCsv), tables composed cell by cell (BankCsvDesign; TLC checks that reading inverts writing); the real import and the generator of the built-in directory run on each, and TLC compares (BankCsvTrace)"
check.note = "all tables of up to 2 rows with one (thorough: two) unusual cells or rows in nine layouts and three kinds of line ends, malformed quotes, random tables of up to 4 rows; the generator on every 9th (thorough: 5th)"
CHECKS = {"C32": (check, "model_checking")}
