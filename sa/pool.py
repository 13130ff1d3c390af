"""Spread independent obligations over the processors."""

from __future__ import annotations

import os
import pickle
import sys
import traceback
import warnings

from .loader import AnalysisBroken
from .report import Ctx


def spread(ctx, items, work, workers=8):
    """Run work(ctx, item) for every item, in `workers` processes."""
    items = list(items)
    workers = min(int(os.environ.get("SA_WORKERS") or workers), len(items), os.cpu_count() or 1)
    if workers < 2:
        for i in items:
            work(ctx, i)
        return
    sys.stdout.flush()
    sys.stderr.flush()
    children = []
    for n in range(workers):
        r, w = os.pipe()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            pid = os.fork()
        if pid == 0:
            os.close(r)
            sub = Ctx(ctx.prog, ctx.pid, ctx.tier)
            try:
                for i in items[n::workers]:
                    work(sub, i)
                res = (None, sub.obligations, sub.functions, sub.paths, sub.notes)
            except AnalysisBroken as exc:
                res = (("broken", str(exc)), {}, set(), 0, [])
            except BaseException:
                res = (("error", traceback.format_exc(limit=-6)), {}, set(), 0, [])
            with os.fdopen(w, "wb") as f:
                pickle.dump(res, f)
            os._exit(0)
        os.close(w)
        children.append((pid, r))
    failed = None
    for pid, r in children:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        try:
            bad, obligations, functions, paths, notes = pickle.loads(data)
        except Exception:
            bad, obligations, functions, paths, notes = ("error", "a worker process ended"), {}, set(), 0, []
        failed = failed or bad
        for k, ob in obligations.items():
            mine = ctx.obligations.setdefault(k, ob)
            if mine is not ob:
                for f in ("evaluated", "undecided"):
                    mine[f] += ob[f]
                mine["bad"] = (mine["bad"] + ob["bad"])[:3]
        ctx.functions |= functions
        ctx.paths += paths
        ctx.notes.extend(notes)
    if failed and failed[0] == "broken":
        raise AnalysisBroken(failed[1])
    if failed:
        raise RuntimeError(failed[1])
