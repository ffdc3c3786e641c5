"""Checks of the command-line tool (P16-P25, P28): Hypothesis drives generated plans
through the real `hotswap build`, in parallel worker processes."""
import importlib
import json
import os
import subprocess
import sys

from . import common
from .common import HarnessError

WORKERS = 8


def have_hypothesis():
    try:
        import hypothesis  # noqa: F401
        return True
    except ImportError:
        return False


def mod(pid):
    return importlib.import_module("hsv.cli." + pid.lower())


def prepare(pids, tmp, env):
    from .cli import core
    cli = core.build_cli(tmp, env)
    for p in pids:
        m = mod(p)
        if hasattr(m, "prepare"):
            m.prepare(tmp, env)
    return cli


def setup(env):
    """Fills the build cache: the command, the host, and one real build."""
    if not have_hypothesis():
        return
    with common.Scratch(mem=True) as tmp:
        from .cli import core, p22
        cli = prepare(["P22"], tmp, env)
        ctx = core.Ctx(os.path.join(tmp, "w"), cli, tmp)
        p22.run(ctx, {"plugins": [{"name": "plug", "sub": True, "live": True}], "groups": [
            {"builds": [{"plugin": 0, "edit": "none"}], "commit": False, "flags": []}], "order": "built", "static_before": True})


def worker(pid, seed, cases, budget, base, cli, shared, tier):
    """One worker; writes base/result.json."""
    import hashlib
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from .cli import core
    m = mod(pid)
    ctx = core.Ctx(os.path.join(base, "x"), cli, shared)
    t0 = common.now()
    res = {"evaluations": 0, "nontrivial": 0, "hashes": {}, "labels": {}, "samples": [], "violation": None, "budget_hit": False, "error": None}
    state = {"failed_at": None, "best": None}
    shrink_s = 60 if tier == "quick" else 120

    def one(plan):
        if state["failed_at"] is not None:
            if ctx.no_shrink or common.now() - state["failed_at"] > shrink_s:
                return
        elif common.now() - t0 > budget:
            res["budget_hit"] = True
            return
        try:
            labels, nontrivial = m.run(ctx, plan)
        except core.Violation as e:
            if state["failed_at"] is None:
                state["failed_at"] = common.now()
            size = len(core.dumps(plan))
            if state["best"] is None or size <= state["best"][0]:
                state["best"] = (size, plan, str(e))
            raise
        if state["failed_at"] is not None:
            return
        res["evaluations"] += 1
        for lb in labels:
            res["labels"][lb] = res["labels"].get(lb, 0) + 1
        if nontrivial:
            res["nontrivial"] += 1
            h = hashlib.sha1(core.dumps(plan).encode()).hexdigest()[:16]
            if h not in res["hashes"]:
                res["hashes"][h] = 1
                if len(res["samples"]) < 2:
                    res["samples"].append(plan)

    rounds = 0
    while True:
        # thorough runs are a series of searches with fresh seeds, until the budget is used
        test = hypothesis.seed(seed + rounds * 7919)(settings(
            max_examples=cases, database=None, deadline=None, suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
            phases=(Phase.generate, Phase.shrink), print_blob=False)(given(m.plans())(one)))
        try:
            test()
        except Exception as e:  # noqa: BLE001
            if state["best"] is None:
                import traceback
                res["error"] = "".join(traceback.format_exception(e))[-6000:]
        rounds += 1
        if tier == "quick" or state["best"] or res["error"] or common.now() - t0 > budget:
            break
    if state["best"]:
        _, plan, msg = state["best"]
        res["violation"] = {"Property": pid, "Harness": "cli", "Message": msg, "Case": plan}
    res["hashes"] = sorted(res["hashes"])
    with open(os.path.join(base, "result.json.tmp"), "w") as f:
        json.dump(res, f)
    os.replace(os.path.join(base, "result.json.tmp"), os.path.join(base, "result.json"))


def check(pid, tier, seed):
    t0 = common.now()
    env = common.go_env()
    m = mod(pid)
    nw = getattr(m, "WORKERS", WORKERS)
    with common.Scratch(mem=True) as tmp:
        cli = prepare([pid], tmp, env)
        tb = common.now() - t0
        budget = m.BUDGET[tier]
        cases = m.CASES["quick"] if tier == "quick" else max(m.CASES["quick"], 200)
        procs = []
        for i in range(nw):
            base = os.path.join(tmp, "w%d" % i)
            os.makedirs(base)
            arg = {"pid": pid, "seed": (seed * 1000003 + i * 7919 + 17) & ((1 << 62) - 1), "cases": cases, "budget": budget, "base": base, "cli": cli,
                   "shared": tmp, "tier": tier}
            log = open(os.path.join(base, "log"), "wb")
            procs.append((base, subprocess.Popen([sys.executable, os.path.abspath(__file__).replace("clicheck.py", "cliworker.py"), json.dumps(arg)],
                                                 stdin=subprocess.DEVNULL, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)))
            log.close()
        tot = {"evaluations": 0, "nontrivial": 0}
        hashes, labels, samples, viols, errors, hits = set(), {}, [], [], [], 0
        end = common.now() + budget + 420
        for base, p in procs:
            try:
                rc = p.wait(timeout=max(1, end - common.now()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.wait()
                rc = None
            try:
                r = json.load(open(os.path.join(base, "result.json")))
            except (OSError, ValueError):
                errors.append("a worker ended with %s:\n%s" % (rc, open(os.path.join(base, "log"), errors="replace").read()[-4000:]))
                continue
            for k in tot:
                tot[k] += r[k]
            hashes.update(r["hashes"])
            for k, v in r["labels"].items():
                labels[k] = labels.get(k, 0) + v
            samples += r["samples"][:1]
            hits += 1 if r["budget_hit"] else 0
            if r["violation"]:
                viols.append(r["violation"])
            elif r["error"]:
                errors.append(r["error"])
        wall = common.now() - t0
        cov = {"evaluations": tot["evaluations"], "distinct_nontrivial": len(hashes), "nontrivial_with_repeats": tot["nontrivial"],
               "rule": m.RULE + ". Distinct: by a hash of the generated plan.", "samples": samples[:3], "labels": dict(sorted(labels.items())),
               "workers": nw, "build_s": round(tb, 1), "workers_stopped_by_budget": hits, "worker_errors": len(errors)}
        common.write_evidence(pid, tier, seed, "exploration", cov, len(viols), wall)
        print("%s: %d cases, %d distinct non-trivial, %d workers, %.0fs" % (pid, tot["evaluations"], len(hashes), nw, wall))
        if viols:
            viols.sort(key=lambda v: len(json.dumps(v["Case"])))
            p = common.save_replay(pid, viols[0])
            print(viols[0]["Message"][:3000])
            print("VIOLATION property=%s replay=%s" % (pid, p))
            return 1
        if errors:
            raise HarnessError("\n".join(errors)[:8000])
        if tot["evaluations"] == 0:
            raise HarnessError("no case was run")
        return 0


def replay(path):
    from .cli import core
    f = json.load(open(path))
    pid = f["Property"]
    m = mod(pid)
    env = common.go_env()
    with common.Scratch(mem=True) as tmp:
        cli = prepare([pid], tmp, env)
        ctx = core.Ctx(os.path.join(tmp, "w"), cli, tmp)
        for _ in range(getattr(m, "REPLAYS", 3)):
            try:
                m.run(ctx, f["Case"])
            except core.Violation as e:
                print(e)
                print("VIOLATION property=%s replay=%s" % (pid, path))
                return 1
    print("%s: the replay does not fail" % pid)
    return 0
