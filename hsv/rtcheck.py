"""Checks of the runtime properties: Go harness in harness/rt, driven by rapid."""
import glob
import json
import os
import re
import shutil
import signal
import subprocess
import sys

from . import common
from .common import HarnessError

W = 8  # worker processes

# harness, test, race build, number of workers, cases per worker (quick), procs per worker
SCEN = lambda n: [("scenario", "TestScenario", False, 8, n, 2)]
PLAN = {
    "P01": SCEN(6000), "P02": SCEN(6000), "P03": SCEN(4500), "P04": SCEN(7000), "P05": SCEN(6000), "P06": SCEN(3000),
    "P07": SCEN(6000), "P08": SCEN(6000), "P09": SCEN(6000), "P11": SCEN(6000), "P12": SCEN(2000), "P15": SCEN(5000),
    "P13": SCEN(9000),
    "P14": [("lookup", "TestLookup", False, 8, 60000, 2)],
    "P26": [("block", "TestBlock", False, 8, 10000, 2)],
    "P27": [("leak", "TestLeak", False, 8, 4000, 2)],
    "P10": [("conc", "TestConc", True, 6, 1500, 4), ("scenario", "TestScenario", False, 2, 5000, 2)],
}
SOFT = {"quick": 150, "thorough": 600}

RULES = {
    "P01": "generated histories of file edits, loads, reloads and injected failures on one swapper; non-trivial: at least one load of the history fails and at least one succeeds",
    "P02": "generated histories; non-trivial: a load of two or more plugins succeeds and the history has a failed load or a carried-over plugin",
    "P03": "generated histories over dependency graphs; non-trivial: a successful load has a dependency chain of length two or more",
    "P04": "generated import structs and exports; non-trivial: at least one field is wired to an export",
    "P05": "generated valid and invalid dependency declarations; non-trivial: a load is refused for one of the listed declaration mistakes, or one with a plugin of two or more dependencies is accepted",
    "P06": "generated edits between reloads; non-trivial: two or more loads succeed and at least one plugin is carried over",
    "P07": "generated histories with failures and advances of the clock; non-trivial: a plugin is freed after the delay, and the history has a carried-over plugin or a failed load that freed plugins",
    "P08": "generated live tables; non-trivial: two or more plugins and two or more live names in a successful load",
    "P09": "generated invocations with failing plugins; non-trivial: at least one InvokeFunc fails or panics",
    "P10": "generated programs of 2-6 goroutines that load, reload, read and replace files in parallel under the race detector, and sequential histories for the counter; non-trivial: two calls overlap in time and two loads succeed (concurrent), a load succeeds (sequential)",
    "P11": "generated directories and whitelists; non-trivial: two or more loads, of which at least one is accepted",
    "P12": "generated file contents and edits; non-trivial: two or more loads succeed",
    "P26": "generated histories in which a plugin function, callback, invocation or OnFree is held up while other calls are made; non-trivial: a load is held up while two or more calls are made, or a load is made while a call of a plugin is held up",
    "P27": "generated histories of loads, failed loads, edits and advances of the clock; non-trivial: two or more loads succeed and at least one object of a replaced or failed manager is examined",
    "P13": "generated plugin sets loaded both from a static table and from files; non-trivial: a plugin has a dependency or a load is refused",
    "P14": "generated symbols and Lookup targets; non-trivial: a case meets two or more of the outcomes (function, variable pointer, variable value, type mismatch, missing symbol, invalid argument)",
    "P15": "generated histories whose managers are all kept; non-trivial: two or more managers are kept and re-examined after every step",
}
ASSUME = ["the dynamic linker is replaced by a stand-in for plugin.Open that identifies code by file bytes and caches by real path; real plugins are exercised by P16-P22",
          "time is the virtual clock of testing/synctest"]


def build(tmp, env, race):
    src = os.path.join(common.VERIF, "harness", "rt")
    d = os.path.join(tmp, "race" if race else "rt")
    os.makedirs(d)
    for f in glob.glob(os.path.join(src, "*.go")):
        shutil.copy(f, d)
    with open(os.path.join(d, "go.mod"), "w") as f:
        f.write(common.go_mod_text("hsverif", "\tpgregory.net/rapid v1.3.0"))
    with open(os.path.join(d, "go.sum"), "w") as f:
        f.write(open(os.path.join(common.REPO, "go.sum")).read().rstrip("\n") + "\n" + common.RAPID)
    ov = os.path.join(d, "overlay.json")
    with open(ov, "w") as f:
        json.dump({"Replace": {env["GOROOT"] + "/src/plugin/plugin_dlopen.go":
                               os.path.join(common.VERIF, "harness", "overlay", "plugin_dlopen.go.txt")}}, f)
    out = os.path.join(d, "rt.test")
    cmd = ["go", "test", "-c", "-vet=off", "-overlay", ov, "-o", out] + (["-race"] if race else []) + ["."]
    p = common.run(cmd, cwd=d, env=env)
    if p.returncode != 0 or not os.path.exists(out):
        raise HarnessError("cannot build the harness against %s:\n%s" % (common.REPO, p.stdout.decode(errors="replace")[-6000:]))
    return out


def spawn(binary, tmp, env, name, prop, harness, test, seed, cases, budget, procs, race, replay=None, tries=0):
    base = os.path.join(tmp, "w-" + name)
    os.makedirs(base)
    e = dict(env)
    e.update(HS_HARNESS=harness, HS_PROP=prop, HS_OUT=base + ".json", HS_CUR=base + ".cur", HS_BASE=base,
             HS_BUDGET=str(budget), GOMAXPROCS=str(procs), TMPDIR=base)
    if race:
        e.update(HS_RACELOG=base + ".race", GORACE="log_path=%s.race exitcode=0 halt_on_error=0" % base)
    if replay:
        e.update(HS_REPLAY=replay, HS_TRIES=str(tries))
        test = "TestReplay"
    cmd = [binary, "-test.run", "^%s$" % test, "-test.timeout", "0", "-rapid.checks=%d" % cases, "-rapid.seed=%d" % seed,
           "-rapid.nofailfile", "-rapid.shrinktime=%s" % ("10s" if race else "25s")]
    log = open(base + ".log", "wb")
    p = subprocess.Popen(cmd, cwd=base, env=e, stdin=subprocess.DEVNULL, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
    log.close()
    return {"p": p, "base": base, "name": name}


def collect(wk, timeout):
    try:
        rc = wk["p"].wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        kill(wk)
        rc = None
    out = None
    try:
        out = json.load(open(wk["base"] + ".json"))
    except (OSError, ValueError):
        pass
    log = ""
    try:
        with open(wk["base"] + ".log", errors="replace") as f:
            f.seek(0, 2)
            n = f.tell()
            f.seek(max(0, n - 400000))
            log = f.read()
    except OSError:
        pass
    return rc, out, log


def kill(wk):
    try:
        os.killpg(wk["p"].pid, signal.SIGKILL)
    except OSError:
        pass
    wk["p"].wait()


def crashed_in_hotswap(log):
    """The crash trace of a worker that died inside hotswap's code, or None."""
    if "HARNESS:" in log or "no verdict" in log:
        return None
    m = re.search(r"^(panic: |fatal error: |runtime: goroutine stack exceeds|SIGSEGV|unexpected fault)", log, re.M)
    if not m:
        return None
    tail = log[m.start():]
    if "blocked goroutines remain" in tail[:400] or "out of memory" in tail[:400] or "cannot allocate" in tail[:400]:
        return None
    # the goroutine that crashed comes first
    parts = tail.split("\n\n")
    for g in parts[1:3]:
        if g.startswith("goroutine ") and "github.com/edwingeng/hotswap." in g:
            return tail[:6000]
    return None


def check(pid, tier, seed):
    t0 = common.now()
    env = common.go_env()
    plan = PLAN[pid]
    soft = SOFT[tier]
    with common.Scratch(mem=True) as tmp:
        bins = {}
        for (_, _, race, _, _, _) in plan:
            if race not in bins:
                bins[race] = build(tmp, env, race)
        tb = common.now() - t0
        workers = []
        i = 0
        for harness, test, race, n, cases, procs in plan:
            for _ in range(n):
                s = (seed * 1000003 + i * 7919 + 17) & ((1 << 62) - 1) or 1
                c = cases if tier == "quick" else 1 << 40
                workers.append((spawn(bins[race], tmp, env, "%d" % i, pid, harness, test, s, c, soft, procs, race), harness, race, procs))
                i += 1
        stats = {"Evaluations": 0, "NonTrivial": 0}
        hashes, labels, samples, viols, errors = set(), {}, [], [], []
        budget_hit = 0
        end = common.now() + soft + 420
        for wk, harness, race, procs in workers:
            rc, out, log = collect(wk, max(1, end - common.now()))
            if out:
                stats["Evaluations"] += out["Evaluations"]
                stats["NonTrivial"] += out["NonTrivial"]
                hashes.update((harness, h) for h in out["Hashes"] or [])
                for k, v in (out["Labels"] or {}).items():
                    labels[k] = labels.get(k, 0) + v
                samples += (out["Samples"] or [])[:1]
                budget_hit += 1 if out["BudgetHit"] else 0
            if out and out.get("Violation"):
                v = out["Violation"]
                viols.append(v)
            elif rc == 0 and out:
                pass
            else:
                trace = crashed_in_hotswap(log) if rc is not None else None
                cur = None
                try:
                    cur = json.load(open(wk["base"] + ".cur"))
                except (OSError, ValueError):
                    pass
                if trace and cur is not None:
                    f = {"Property": pid, "Harness": harness, "Message": "the process crashed inside hotswap:\n" + trace, "Case": cur}
                    if confirm(bins[race], tmp, env, pid, f, race, procs, wk["name"]):
                        viols.append(f)
                    else:
                        errors.append("worker %s crashed in hotswap, but not again on replay:\n%s" % (wk["name"], trace))
                else:
                    errors.append("worker %s ended with %s:\n%s" % (wk["name"], rc, log[-3000:]))
        wall = common.now() - t0
        cov = {"evaluations": stats["Evaluations"], "distinct_nontrivial": len(hashes), "nontrivial_with_repeats": stats["NonTrivial"],
               "rule": RULES[pid] + ". Distinct: by a hash of the generated case.", "samples": samples[:3],
               "labels": dict(sorted(labels.items())), "workers": len(workers), "build_s": round(tb, 1), "workers_stopped_by_budget": budget_hit,
               "worker_errors": len(errors)}
        common.write_evidence(pid, tier, seed, "exploration", cov, len(viols), wall, ASSUME)
        print("%s: %d cases, %d distinct non-trivial, %d workers, %.0fs" % (pid, stats["Evaluations"], len(hashes), len(workers), wall))
        if viols:
            viols.sort(key=lambda v: len(json.dumps(v.get("Case"))))
            p = common.save_replay(pid, viols[0])
            print(viols[0]["Message"][:3000])
            print("VIOLATION property=%s replay=%s" % (pid, p))
            return 1
        if errors:
            raise HarnessError("\n".join(errors)[:8000])
        if stats["Evaluations"] == 0:
            raise HarnessError("no case was run")
        return 0


def confirm(binary, tmp, env, pid, failure, race, procs, name):
    rp = os.path.join(tmp, "confirm-%s.json" % name)
    with open(rp, "w") as f:
        json.dump(failure, f)
    for k in range(3):
        wk = spawn(binary, tmp, env, "c%s-%d" % (name, k), pid, failure["Harness"], "TestReplay", 1, 1, 100, procs, race, rp, 40)
        rc, out, log = collect(wk, 120)
        if rc == 1 and out and out.get("Violation"):
            return True
        if rc not in (0, None) and crashed_in_hotswap(log):
            return True
    return False


def replay(path):
    f = json.load(open(path))
    env = common.go_env()
    race = f["Harness"] == "conc"
    with common.Scratch(mem=True) as tmp:
        b = build(tmp, env, race)
        for k in range(5):
            wk = spawn(b, tmp, env, "r%d" % k, f["Property"], f["Harness"], "TestReplay", 1, 1, 600, 4, race, os.path.abspath(path), 60)
            rc, out, log = collect(wk, 700)
            if rc in (1, 7) and out and out.get("Violation"):
                print(out["Violation"]["Message"])
                print("VIOLATION property=%s replay=%s" % (f["Property"], path))
                return 1
            t = crashed_in_hotswap(log) if rc not in (0, None) else None
            if t:
                print(t)
                print("VIOLATION property=%s replay=%s" % (f["Property"], path))
                return 1
            if rc != 0:
                raise HarnessError("replay ended with %s:\n%s" % (rc, log[-3000:]))
    print("%s: the replay does not fail" % f["Property"])
    return 0
