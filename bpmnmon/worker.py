"""One shard of a check: runs cases and writes what it observed as JSON."""
import argparse
import importlib
import os
import random
import resource
import sys
import time
import traceback

from . import core


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--shards", type=int, default=1)
    ap.add_argument("--count", type=int, default=None)
    ap.add_argument("--budget", type=float, default=600)
    ap.add_argument("--only", default=None)
    ap.add_argument("--out", required=True)
    a = ap.parse_args()
    sys.path.insert(0, core.REPO)
    sys.setrecursionlimit(1000)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    res = {"ok": False, "error": None, "violation": None}
    ctx = core.Ctx(a.prop, a.tier, a.seed)
    cover = core.Cover()
    t0 = time.monotonic()
    mod = None
    try:
        mod = importlib.import_module("bpmnmon.props." + a.prop)
        cover.start()
        n = a.count if a.count is not None else mod.COUNT[a.tier]
        fixed = list(getattr(mod, "FIXED", lambda: [])())
        todo = [("f", i) for i in range(len(fixed))] + [("r", i) for i in range(n)]
        todo = todo[a.shard::a.shards]
        if a.only is not None:
            todo = [(a.only[0], int(a.only[1:]))]
        if hasattr(mod, "setup"):
            mod.setup(ctx)
        dog = core.Watchdog(*getattr(mod, "WATCHDOG", ()))
        for kind, i in todo:
            if time.monotonic() - t0 > a.budget:
                ctx.count("cases_skipped_by_time_budget")
                continue
            ctx.inputs, ctx.trace, ctx.case_id = {}, [], "%s%d" % (kind, i)
            rng = random.Random("%s:%d:%s%d" % (a.prop, a.seed, kind, i))
            ctx.aux = random.Random("aux:%s:%d:%s%d" % (a.prop, a.seed, kind, i))
            dog.arm()
            try:
                if kind == "f":
                    mod.fixed_case(ctx, fixed[i], rng)
                else:
                    mod.case(ctx, i, rng)
            except core.NoTermination as ex:
                res["violation"] = {"case": ctx.case_id, "detail": "does not terminate: %s" % ex, "trace": ctx.trace,
                                    "inputs": ctx.inputs}
                break
            except core.Violation as ex:
                res["violation"] = {"case": ctx.case_id, "detail": str(ex), "trace": ctx.trace, "inputs": ctx.inputs}
                break
            except core.Inconclusive:
                raise
            except (Exception, RecursionError) as ex:
                absent = isinstance(ex, (FileNotFoundError, IsADirectoryError, NotADirectoryError)) and isinstance(ex.filename, str) \
                    and ex.filename.startswith(ctx.scratch)       # a file the library should have written
                if not absent and isinstance(ex, (OSError, MemoryError, ImportError, SyntaxError)) and not core.in_code_under_test(ex):
                    raise
                # the harness reads every well-formed result; if it stumbles, the result is not well-formed
                what = "unexpected" if core.in_code_under_test(ex) else "the monitor cannot interpret the result:"
                res["violation"] = {"case": ctx.case_id, "trace": ctx.trace, "inputs": ctx.inputs,
                                    "detail": "%s %s: %s\n%s" % (what, type(ex).__name__, core.short(str(ex)),
                                                                 core.tb_tail(ex))}
                break
            finally:
                dog.disarm()
                ctx.reset_scratch()
            ctx.count("cases")
            if time.monotonic() - t0 > a.budget:
                ctx.count("stopped_by_time_budget")
        if hasattr(mod, "finish"):
            mod.finish(ctx)
        res["ok"] = True
    except BaseException as ex:
        res["error"] = "%s in case %s: %s" % (type(ex).__name__, ctx.case_id,
                                              "".join(traceback.format_exception(type(ex), ex, ex.__traceback__))[-3000:])
        res["inputs"] = ctx.inputs
    finally:
        ctx.cleanup()
    res["counters"] = dict(ctx.counters)
    res["fps"] = sorted(ctx.fps)
    res["samples"] = ctx.samples
    try:
        res["lines"] = cover.report()
    except Exception:
        res["lines"] = {}
    core.dump_json(a.out, res)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
