"""Functions of the library that can be called on their own: design (TLC) -> inputs -> real function -> TLC compares with the reference."""
import json
from .core import CheckError


def cfg(consts, invs, spec="Spec", view=""):
    c = " ".join("%s=%s" % (k, ('"%s"' % v) if isinstance(v, str) else str(v).upper()) for k, v in consts.items())
    return "SPECIFICATION %s\n%s\n%s\nCHECK_DEADLOCK FALSE\n%s\n" % (spec, "\n".join("INVARIANT " + i for i in invs), "VIEW " + view if view else "", "CONSTANTS " + c if c else "")


def dedup(items):
    seen, out = set(), []
    for it in items:
        k = json.dumps(it, sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append(it)
    return out


def compare(ctx, module, recs, block=100, timeout=800, env=None):
    """TLC evaluates the reference of the module on the recorded inputs and outputs; returns {index: [why]}."""
    bad, chunk = {}, 60000
    for o in range(0, len(recs), chunk):
        part = recs[o:o + chunk]
        f = ctx.path("%s.nd" % module)
        with open(f, "w") as fh:
            for r in part:
                fh.write(json.dumps(r, ensure_ascii=False) + "\n")
        r = ctx.tlc(module, "INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\nCONSTANTS Bad <- Verdict\n", env=dict(env or {}, TRACES=f), timeout=timeout, heap="10g")
        done = sum(int(x) for x in r.tags.get("END", []))
        # every block prints how many records it went through
        want = sum(min(block, len(part) - i) for i in range(0, len(part), block))
        if done != want:
            raise CheckError("%d of %d records were compared" % (done, want))
        for b in r.json("BAD"):
            bad.setdefault(o + b["i"] - 1, [])
            bad[o + b["i"] - 1] += [w for w in b["bad"] if w not in bad[o + b["i"] - 1]]
        ctx.traces += len(part)
    return bad


def run(ctx, jobs, trace_module, mode="func", keep=None, harness_args=None, show=lambda r: r, pick=lambda why: why, extra=()):
    """jobs: [(module, cfg, {tlc args})] whose TLC runs emit inputs (@@IN)."""
    res = ctx.parallel([lambda: ctx.hv()] + [lambda j=j: ctx.tlc(j[0], j[1], **(j[2] if len(j) > 2 else {})) for j in jobs])
    items = dedup([x for r in res[1:] for x in r.json("IN")] + list(extra))
    if keep:
        items = keep(items)
    if not items:
        raise CheckError("no inputs were generated")
    recs = ctx.harness(mode, items, **(harness_args or {}))
    bad = compare(ctx, trace_module, recs)
    for i in sorted(bad):
        for why in filter(None, map(pick, bad[i])):
            ctx.violate(why, {"key": json.dumps(items[i], sort_keys=True), "input": items[i], "readable": show(items[i]), "output": recs[i]})
    ctx.extra["inputs"] = ctx.extra.get("inputs", 0) + len(items)
    for r in recs[:: max(1, len(recs) // 3)][:3]:
        ctx.sample(show(r))
    return items, recs, bad


def readable(o):
    """Code arrays as text."""
    if isinstance(o, dict):
        return {k: readable(v) for k, v in o.items()}
    if isinstance(o, list) and o and all(isinstance(x, int) and 0 <= x < 256 for x in o):
        return "".join(chr(x) for x in o)
    if isinstance(o, list):
        return [readable(x) for x in o]
    return o
