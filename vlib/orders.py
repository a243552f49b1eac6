"""The versions of orders and what they say (part of C11 and C30): OrdersDesign -> real builders -> OrdersTrace."""
from . import func


def jobs(ctx, versions, args):
    base = dict(Emit=True, Mut="", MaxSeg=10, MaxAsk=1)
    t = ctx.thorough
    n = 12000 if t else 1200
    out = []
    if versions:
        out.append(("OrdersDesign", func.cfg(dict(base, Mode="versions", MaxSeg=10 if t else 4), ["Good", "EmitState"]), {"workers": 4, "timeout": 1500}))
    if args:
        out.append(("OrdersDesign", func.cfg(dict(base, Mode="args"), ["Good", "EmitState"]), {"workers": 4, "timeout": 1500}))
    out.append(("OrdersDesign", func.cfg(dict(base, Mode="rand", MaxSeg=12, MaxAsk=4), ["Good", "EmitState"]),
                {"workers": 4, "args": ["-simulate", "num=%d" % (n // 4), "-depth", "40", "-seed", str(ctx.seed * 1031 + 7)], "timeout": 1500}))
    return out


def run(ctx, versions=True, args=True, pick=lambda why: why):
    func.run(ctx, jobs(ctx, versions, args), "OrdersTrace", pick=pick)
