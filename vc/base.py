"""Harness registration and the process that generates and discharges the obligations of one property."""
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import z3
from pyvc import core, sym, arr, load, npmodel, seq, loops
from pyvc.core import Unsupported

UNITS = {}


class Unit:
    def __init__(self, pid, name, fn, functions, bound, timeout, opts):
        self.pid, self.name, self.fn, self.functions, self.bound, self.timeout, self.opts = pid, name, fn, functions, bound, timeout, opts


def unit(pid, name, functions, bound=None, timeout=200, **opts):
    """Registers a proof harness.  functions: functions of /repo whose contract it discharges; bound: None for an
    unbounded proof, else the stated bound."""
    def deco(fn):
        UNITS.setdefault(pid, []).append(Unit(pid, name, fn, functions, bound, timeout, opts))
        return fn
    return deco


# exceptions that mean the harness or a library model does not fit the code, not that the code failed
UNFIT = (TypeError, AttributeError, NotImplementedError, NameError, ImportError, RecursionError, AssertionError, SyntaxError, MemoryError, z3.Z3Exception)


def in_repo(e):
    tb = traceback.extract_tb(e.__traceback__)
    return [x for x in tb if x.filename.startswith(load.REPO + "/")]


def run_unit(u, tier):
    c = core.Ctx(label=u.name + ": ")
    c.timeout = u.opts.get("solver_ms", 10000 if tier == "quick" else 60000)
    c.deadline = time.time() + u.timeout * (1 if tier == "quick" else 3)
    c.np_scalars = u.opts.get("np_scalars", False)
    c.partial_mode = u.opts.get("partial", "assume")
    out = dict(unit=u.name, functions=u.functions, bound=u.bound, unsupported=None, error=None)
    t0 = time.time()

    def h(ctx):
        try:
            u.fn(ctx)
        except Exception as e:
            where = in_repo(e)
            if isinstance(e, UNFIT) or not where:
                raise
            ctx.fail("no exception", "%s: %s at %s:%d" % (type(e).__name__, str(e)[:120], where[-1].filename, where[-1].lineno))
    try:
        c.explore(h, u.opts.get("max_paths", 4000))
    except Unsupported as e:
        out["unsupported"] = str(e)[:400]
    except Exception as e:
        out["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]
    s = c.stats
    out.update(obligations=[dict(name=o.name, instances=o.instances, proved=o.proved, failed=o.failed[:3], n_failed=len(o.failed), unknown=o.unknown[:3], n_unknown=len(o.unknown),
                                 backends=o.backends, seconds=round(o.time, 3)) for o in s.obligations.values()],
               paths=s.paths, infeasible=s.infeasible, assumed=sorted(s.assumed), covers=s.covers, doubtful=sorted(set(s.doubtful)), solver_s=round(s.solver_time, 2), queries=s.queries, wall_s=round(time.time() - t0, 2))
    n_ob = sum(o["instances"] for o in out["obligations"])
    if any(o["n_failed"] for o in out["obligations"]):
        out["status"] = "failed"
    elif out["unsupported"] or out["error"] or any(o["n_unknown"] for o in out["obligations"]):
        out["status"] = "undecided"
    elif not n_ob or not all(s.covers.values()):
        out["status"] = "undecided"
        out["unsupported"] = "vacuous: no obligation was generated or a vacuity guard was not reached %r" % [k for k, v in s.covers.items() if not v]
    else:
        out["status"] = "proved"
    return out


def worker(pid, name, tier, path):
    importlib.import_module("vc." + pid.lower())
    u = [x for x in UNITS[pid] if x.name == name][0]
    signal.alarm(int(u.timeout * (1 if tier == "quick" else 3) * 1.5) + 20)
    out = run_unit(u, tier)
    if out["status"] == "failed":
        # a failure counts if it is found again with more time for the queries that steer the exploration: on a loaded machine
        # one of those may time out, and a fact it would have established is then missing
        signal.alarm(int(u.timeout * (1 if tier == "quick" else 3) * 1.5) + 20)
        core.BRANCH_TIMEOUT_MS *= 8
        again = run_unit(u, tier)
        if again["status"] == "proved":
            again["retried"] = True
            out = again
    json.dump(out, open(path, "w"), default=str)


def run_all(pid, tier, jobs=8, only=None, save=None):
    importlib.import_module("vc." + pid.lower())
    units = [u for u in UNITS.get(pid, []) if (not only or u.name in only) and (tier == "thorough" or not u.opts.get("thorough"))]
    import tempfile
    d = tempfile.mkdtemp(prefix="vc")
    todo, running, done = list(units), [], []
    ctx = mp.get_context("fork")
    while todo or running:
        while todo and len(running) < jobs:
            u = todo.pop(0)
            path = os.path.join(d, "%d.json" % len(todo))
            p = ctx.Process(target=worker, args=(pid, u.name, tier, path))
            p.start()
            running.append((u, p, path, time.time()))
        time.sleep(.02)
        for r in list(running):
            u, p, path, t0 = r
            if not p.is_alive():
                p.join()
                running.remove(r)
                if os.path.exists(path):
                    try:
                        done.append(json.load(open(path)))
                    except ValueError:
                        done.append(dict(unit=u.name, functions=u.functions, bound=u.bound, status="undecided", error="no result", obligations=[], wall_s=time.time() - t0))
                    os.unlink(path)
                else:
                    done.append(dict(unit=u.name, functions=u.functions, bound=u.bound, status="undecided", unsupported="time limit or crash (exit %r)" % p.exitcode, obligations=[], wall_s=round(time.time() - t0, 1)))
                if save:
                    save(done + [dict(unit=u.name, functions=u.functions, bound=u.bound, status="undecided", unsupported="not finished", obligations=[], wall_s=0) for u in todo + [x[0] for x in running]])
    import shutil
    shutil.rmtree(d, ignore_errors=True)
    return done


def main():
    pid, tier, path = sys.argv[1:4]
    only = sys.argv[4:]
    def save(r):
        json.dump(r, open(path + ".part", "w"), default=str)
        os.replace(path + ".part", path)
    r = run_all(pid, tier, only=only, save=save if path != "-" else None)
    if path == "-":
        for x in r:
            print(x["status"].upper(), x["unit"], "| paths", x.get("paths"), "wall", x.get("wall_s"), "|", x.get("unsupported") or "", x.get("error") or "", ("doubtful: %s" % x["doubtful"]) if x.get("doubtful") else "")
            for o in x["obligations"]:
                mark = "ok" if o["instances"] == o["proved"] else "FAIL" if o["n_failed"] else "????"
                if mark != "ok" or os.environ.get("V"):
                    print("   ", mark, o["name"], o["proved"], "/", o["instances"], o["backends"], o["seconds"], (o["failed"] or o["unknown"])[:1] if mark != "ok" else "")
    else:
        save(r)


if __name__ == "__main__":
    from vc import base
    base.main()
