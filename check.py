#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decides one property against /repo's working tree.

1. vc layer: the verification conditions of the property's contracts are generated from the current source (the real
   functions, executed symbolically) and discharged by the deductive back ends.
2. rt layer: the same contracts evaluated on the real code (CPython, numpy); it supplies the concrete failing input
   for a failed obligation, and is the bounded stand-in for functions no proof reaches.
Exit 0: held.  Exit 1 and a VIOLATION line: broken.  Other exit codes: the check itself failed."""
import json
import os
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
TRUSTED = [
    "pyvc, the verification-condition generator (/verif/pyvc): the AST rewrite, the models of the Python built-ins and of the numpy functions the code calls",
    "z3 4.x, cvc5 1.1.2, and the polynomial-identity normaliser pyvc/poly.py",
    "floating-point arithmetic treated as exact real arithmetic; numpy int64 treated as unbounded",
]


def tool(name):
    for d in os.environ.get("PATH", "").split(":") + ["/usr/local/bin", "/usr/bin", "/opt/veriftools/bin"]:
        if d and os.path.exists(os.path.join(d, name)):
            return os.path.join(d, name)
    return "/opt/veriftools/pyvenv/bin/python"


def spawn(cmd, env=None):
    f = tempfile.NamedTemporaryFile(prefix="checkerr", delete=False)
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=f, env=env, cwd=HERE, start_new_session=True)
    f.close()
    p.errfile = f.name
    ERR.append(f.name)
    return p


ERR = []


def end(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (OSError, ProcessLookupError):
        pass
    p.wait()


def load(path):
    try:
        return json.load(open(path))
    except (OSError, ValueError):
        return None


def rt_cmd(pid, seed, tier, budget, out, replay=None):
    return [os.path.join(HERE, "rt.sh"), pid, str(seed), tier, str(budget), out] + ([replay] if replay else [])


def known(pid):
    """Entries 'known: property=<id> unit=<unit>/<obligation>' or 'known: property=<id> case=<json>'."""
    res = []
    try:
        for l in open(os.path.join(HERE, "known_findings.txt")):
            if l.startswith("known: property=%s " % pid):
                res.append(l[len("known: property=%s " % pid):].strip())
    except OSError:
        pass
    return res


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    for d in ("evidence", "out"):
        os.makedirs(d, exist_ok=True)
    manifest = load("MANIFEST.json") or {}
    entry = [c for c in manifest.get("checks", []) if c["property"] == pid]
    level = entry[0]["level"] if entry else "exploration"
    has_vc = os.path.exists("vc/%s.py" % pid.lower())
    limit = 840 if tier == "quick" else 3000
    rt_budget = 120 if tier == "quick" else 1200
    tmp = tempfile.mkdtemp(prefix="check%s" % pid)
    rt_out, vc_out = os.path.join(tmp, "rt.json"), os.path.join(tmp, "vc.json")
    procs = {"rt": spawn(rt_cmd(pid, seed, tier, rt_budget, rt_out))}
    vc_cmd = [tool("python3-vt"), "-m", "vc.base", pid, tier, vc_out]
    if has_vc:
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=HERE)
        procs["vc"] = spawn(vc_cmd, env)
    errs = {}
    grace = 60                       # once a failing input is known, the proofs get this long
    stop_vc = t0 + limit
    while any(p.poll() is None for p in procs.values()) and time.time() < t0 + limit:
        if "vc" in procs and procs["vc"].poll() is None:
            if procs["rt"].poll() is not None and stop_vc == t0 + limit and (load(rt_out) or {}).get("violation"):
                stop_vc = time.time() + grace
            if time.time() > stop_vc:
                break
        time.sleep(.05)
    for k, p in procs.items():
        if p.poll() is None:
            end(p)
            errs[k] = "time limit"
        else:
            errs[k] = open(p.errfile, "rb").read().decode(errors="replace")
    rt = load(rt_out) or dict(crash=errs["rt"][-1500:] or "no result")
    units = (load(vc_out) or []) if has_vc else []
    failed = [u for u in units if u["status"] == "failed"]
    undecided = [u for u in units if u["status"] == "undecided"]
    proved = [u for u in units if u["status"] == "proved"]

    violation, how = rt.get("violation"), None
    if failed and not violation and not rt.get("crash"):
        # look for a concrete failing input for the failed obligation: other seeds, more cases
        stop = time.time() + min(240, limit - (time.time() - t0) - 20)
        jobs = []
        for k in range(6):
            o = os.path.join(tmp, "deep%d.json" % k)
            jobs.append((spawn(rt_cmd(pid, seed + 1 + k, "thorough" if k % 2 else "quick", max(10, stop - time.time()), o)), o))
        while jobs and time.time() < stop + 15:
            for p, o in list(jobs):
                if p.poll() is not None:
                    jobs.remove((p, o))
                    d = load(o) or {}
                    if d.get("violation") and not violation:
                        violation = d["violation"]
            if violation:
                break
            time.sleep(.2)
        for p, o in jobs:
            end(p)
    code, lines = 0, []
    kn = known(pid)
    for k in kn:
        lines.append("KNOWN-FINDING: property=%s %s" % (pid, k))
    replay = os.path.join(HERE, "out", "%s.replay.json" % pid)
    if violation:
        with open(replay, "w") as f:
            json.dump(dict(property=pid, case=violation["case"], message=violation["message"],
                           how="./rt.sh %s %d %s 120 - %s   # runs this input on the real code in /repo" % (pid, seed, tier, replay),
                           failed_obligations=[dict(unit=u["unit"], obligations=[o for o in u["obligations"] if o["n_failed"]]) for u in failed]), f, indent=1, default=str)
        lines.append("%s: %s" % (pid, violation["message"]))
        lines.append("VIOLATION property=%s replay=%s" % (pid, replay))
        code = 1
    elif failed:
        names = ["%s / %s" % (u["unit"], o["name"]) for u in failed for o in u["obligations"] if o["n_failed"]]
        with open(replay, "w") as f:
            json.dump(dict(property=pid, failed_obligations=names,
                           verifier_output=[dict(unit=u["unit"], functions=u["functions"], bound=u["bound"], obligations=[o for o in u["obligations"] if o["n_failed"]]) for u in failed],
                           how="%s -m vc.base %s %s -   # regenerates and re-discharges the obligations" % (vc_cmd[0], pid, tier)), f, indent=1, default=str)
        for n in names:
            lines.append("%s: failed obligation %s" % (pid, n))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, replay))
        code = 1
    elif rt.get("crash") or rt.get("error"):
        sys.stderr.write("%s: runtime layer failed: %s\n" % (pid, rt.get("crash") or rt.get("error")))
        code = 2

    obs = [o for u in units for o in u["obligations"]]
    backends = {}
    for o in obs:
        for b, k in (o.get("backends") or {}).items():
            backends[b] = backends.get(b, 0) + k
    assumed = sorted({a for u in units for a in u.get("assumed", [])})
    cov = dict(evaluations=rt.get("evaluations", 0), distinct_nontrivial=rt.get("distinct", 0), rule=rt.get("rule", "") or "see rt/%s.py" % pid.lower(),
               samples=rt.get("samples") or [], runtime_layer=dict(skipped=rt.get("skipped"), skip_reasons=rt.get("skip_reasons"), wall_s=rt.get("wall_s"), label="bounded: contracts evaluated on generated inputs, never counted as proved"))
    if has_vc:
        cov.update(obligations=sum(o["instances"] for o in obs), discharged=sum(o["proved"] for o in obs),
                   checker_cmd="python3-vt -m vc.base %s %s -" % (pid, tier), trusted_base=TRUSTED,
                   functions_under_contract=sorted({f for u in units for f in u["functions"]}),
                   units=[dict(unit=u["unit"], status=u["status"], bound=u["bound"] or "none (all inputs, all iterations)", functions=u["functions"], paths=u.get("paths"),
                               obligations=sum(o["instances"] for o in u["obligations"]), discharged=sum(o["proved"] for o in u["obligations"]),
                               wall_s=u.get("wall_s"), solver_s=u.get("solver_s"), why=(u.get("unsupported") or u.get("error") or "")[-300:] or None) for u in units],
                   units_proved_unbounded=len([u for u in proved if not u["bound"]]), units_proved_bounded=len([u for u in proved if u["bound"]]),
                   units_undecided=len(undecided), obligation_names=sorted({o["name"] for o in obs})[:200], backends=backends,
                   solver_s=round(sum(u.get("solver_s") or 0 for u in units), 2))
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=TRUSTED[2:] + assumed, wall_s=round(time.time() - t0, 2), violations=1 if code == 1 else 0)
    if undecided:
        ev["assumptions"].append("undecided in this run, stood in for by the bounded runtime layer: " + "; ".join(u["unit"] for u in undecided))
    with open("evidence/%s.json" % pid, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    import shutil
    shutil.rmtree(tmp, ignore_errors=True)
    for f in ERR:
        if os.path.exists(f):
            os.unlink(f)
    lines.append("%s %s: %d/%d units proved, %d failed, %d undecided; %d runtime evaluations, %d distinct; %.1f s" % (
        pid, tier, len(proved), len(units), len(failed), len(undecided), cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
    print("\n".join(lines))
    sys.exit(code)


main()
