#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property. Exit 0: held; 1: violated; 2: no verdict."""
import os, sys, traceback
from vlib import core, props


def main():
    prop = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    fn, level = props.CHECKS[prop]
    ctx = core.Ctx(prop)
    try:
        try:
            fn(ctx)
        except core.HarnessDied as e:
            # the code under test took the whole process down (or hangs) on one of the inputs
            if not e.culprit():
                raise
            k = len(e.lines)
            ctx.violate("the code under test crashes the process or never returns", {"key": e.mode, "stderr": e.err, "input": e.items[k] if k < len(e.items) else None})
        return core.finish(ctx, level)
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.close()


if __name__ == "__main__":
    sys.exit(main())
