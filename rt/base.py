"""Runtime evaluation of the contracts on the real code (CPython, real numpy).

A property module defines RULE, cases(rng, tier) yielding JSON-able cases and
check(case), which runs the real code of /repo, raises Bad when the property
is violated, raises Skip when the case cannot be run, and returns a hashable
description of the behaviour exercised (None: trivial case)."""
import os
import importlib
import json
import math
import sys
import time
import traceback


class Bad(Exception):
    pass


class Skip(Exception):
    pass


def need(mod, *names):
    """Functions of the code under test that are reached by name."""
    try:
        m = importlib.import_module(mod)
    except ModuleNotFoundError:
        raise Skip("no module " + mod)
    out = []
    for n in names:
        o = m
        for part in n.split("."):
            if not hasattr(o, part):
                raise Skip("no %s in %s" % (n, mod))
            o = getattr(o, part)
        out.append(o)
    return out[0] if len(out) == 1 else out


def expect(cond, msg, *args):
    if not cond:
        raise Bad(msg % args if args else msg)


def close(a, b, rel=1e-9, abs_=0.0):
    return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))


def raises(exc, f, what):
    try:
        r = f()
    except exc:
        return
    except Exception as e:
        raise Bad("%s raised %s: %s instead of %s" % (what, type(e).__name__, str(e)[:100], exc.__name__))
    raise Bad("%s returned %s instead of raising %s" % (what, repr(r)[:100], exc.__name__))


def call(what, f, *a, **k):
    """A call the property promises to succeed."""
    try:
        return f(*a, **k)
    except (Bad, Skip):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inside = [x for x in tb if "/celest/" in x.filename]
        if not inside:
            # the harness could not even make the call (changed signature): not an answer
            raise Skip("%s: %s: %s" % (what, type(e).__name__, e))
        raise Bad("%s raised %s: %s (at %s:%d)" % (what, type(e).__name__, str(e)[:150], inside[-1].filename, inside[-1].lineno))


def failure(e):
    """The code under test failed by itself on a valid input (it did not trip over one of the harness's stand-ins)."""
    tb = traceback.extract_tb(e.__traceback__)
    mine = os.path.dirname(os.path.abspath(__file__))
    own = [i for i, x in enumerate(tb) if x.filename.startswith(mine)]
    inside = [x for x in tb[(own[-1] + 1 if own else 0):] if "/celest/" in x.filename]
    at = " (at %s:%d)" % (inside[-1].filename, inside[-1].lineno) if inside else ""
    text = "%s: %s" % (type(e).__name__, str(e)[:150])
    if isinstance(e, AttributeError):
        o = getattr(e, "obj", None)
        if o is NotImplemented:
            return "NotImplemented was returned as a result" + at
        if inside and str(type(o).__module__).startswith("celest."):
            return "a valid call raised " + text + at
        return None
    if inside and isinstance(e, (NameError, ValueError, ArithmeticError, LookupError)):
        return "a valid call raised " + text + at
    return None


def finite(x):
    try:
        return math.isfinite(x)
    except TypeError:
        return False


def run(pid, seed, tier, budget, case=None):
    import random
    mod = importlib.import_module("rt." + pid.lower())
    t0 = time.time()
    out = dict(property=pid, evaluations=0, distinct=0, skipped=0, skip_reasons={}, samples=[], violation=None,
               rule=getattr(mod, "RULE", ""))
    seen = set()
    it = [case] if case is not None else mod.cases(random.Random(seed), tier)
    try:
        for c in it:
            if time.time() - t0 > budget:
                out["stopped"] = "time budget"
                break
            out["evaluations"] += 1
            try:
                key = mod.check(c)
            except Skip as e:
                out["skipped"] += 1
                out["skip_reasons"][str(e)[:100]] = out["skip_reasons"].get(str(e)[:100], 0) + 1
                continue
            except Bad as e:
                out["violation"] = dict(case=c, message=str(e))
                break
            except (ImportError, SyntaxError):
                raise
            except Exception as e:
                msg = failure(e)
                if msg:
                    out["violation"] = dict(case=c, message=msg)
                    break
                why = "harness: %s: %s" % (type(e).__name__, str(e)[:100])
                out["skipped"] += 1
                out["skip_reasons"][why] = out["skip_reasons"].get(why, 0) + 1
                out.setdefault("trace", traceback.format_exc()[-1500:])
                continue
            if key is not None and key not in seen:
                seen.add(key)
                if len(out["samples"]) < 3:
                    out["samples"].append(dict(case=c, behaviour=repr(key)[:200]))
    except (ImportError, SyntaxError) as e:
        out["error"] = "%s: %s" % (type(e).__name__, e)
    out["distinct"] = len(seen)
    out["wall_s"] = round(time.time() - t0, 2)
    return out


def main():
    pid, seed, tier, budget, path = sys.argv[1:6]
    case = json.load(open(sys.argv[6]))["case"] if len(sys.argv) > 6 else None
    try:
        out = run(pid, int(seed), tier, float(budget), case)
    except Exception:
        out = dict(property=pid, crash=traceback.format_exc())
    text = json.dumps(out, indent=1, default=str)
    if path == "-":
        print(text)
    else:
        open(path, "w").write(text)


if __name__ == "__main__":
    import os
    os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
    import warnings
    warnings.filterwarnings("ignore")
    from rt import base
    base.main()
