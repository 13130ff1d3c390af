#!/usr/bin/env python3
"""Decide one property by static analysis of /repo's current source.

usage: check.py PROPERTY   (root of the analysed tree: $MAU_ROOT, default /repo)
exit 0 holds, 1 violated (VIOLATION line), 2 no verdict.
"""
import importlib
import os
import sys
import time
import traceback

sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from sa.loader import AnalysisBroken, Program  # noqa: E402
from sa.report import Ctx, finish  # noqa: E402


def violated(ctx):
    """A violation that was found before the analysis broke counts."""
    return ctx is not None and any(ob["bad"] for ob in ctx.obligations.values())


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    root = os.environ.get("MAU_ROOT", "/repo")
    t0 = time.time()
    mod = importlib.import_module(f"sa.rules.{pid.lower()}")
    ctx = None
    try:
        prog = Program(root)
        ctx = Ctx(prog, pid, tier)
        mod.check(ctx)
        if not ctx.obligations:
            raise AnalysisBroken("no obligation was generated")
    except AnalysisBroken as exc:
        print(f"ANALYSIS-BROKEN property={pid} {exc}")
        if not violated(ctx):
            return 2
    except Exception:
        traceback.print_exc(limit=-6)
        print(f"ANALYSIS-BROKEN property={pid} internal error")
        if not violated(ctx):
            return 2
    return finish(ctx, mod.EXPLANATION, getattr(mod, "ASSUMPTIONS", []), t0, seed)


if __name__ == "__main__":
    import threading

    threading.stack_size(512 * 1024 * 1024)
    res = []
    t = threading.Thread(target=lambda: res.append(main()))
    t.start()
    t.join()
    sys.exit(res[0] if res else 2)
