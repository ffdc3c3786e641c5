"""P19: a build never harms what it was not asked to produce."""
import os
import signal
import subprocess
import threading
import time

from hypothesis import strategies as st

from . import core
from .core import Violation

RULE = ("generated builds with generated faults (broken source, failing or missing tools, unreadable files) and SIGINT/SIGTERM delivered at generated points; whole-tree "
        "snapshots before and after, exit status against what was produced; non-trivial: a fault or a signal is injected")
CASES = {"quick": 300}
BUDGET = {"quick": 130, "thorough": 560}
REPLAYS = 40

SOURCES = ["ok", "ok", "ok", "ok", "missing", "syntax", "subsyntax", "dup", "nonstruct", "dangling", "typeerr", "importmissing"]
COMPILERS = ["fake", "fake", "fake", "fake", "fakefail", "fakecrash", "fakeslow", "real"]
TOOLS = [None] * 10 + ["nogo", "nogofmt", "nogit", "listfail", "gitfail"]


@st.composite
def plans(draw):
    source = draw(st.sampled_from(SOURCES))
    compiler = draw(st.sampled_from(COMPILERS))
    if source in ("typeerr", "importmissing"):
        compiler = "real"
    sig = None
    k = draw(st.integers(0, 9))
    if k < 4:
        sig = {"sig": draw(st.sampled_from(["INT", "TERM"])), "event": draw(st.integers(0, 5)), "when": draw(st.sampled_from(["before", "after"])),
               "sleep": draw(st.sampled_from([0, 0, 5, 30, 120])), "die": draw(st.booleans())}
    elif k < 6:
        sig = {"sig": draw(st.sampled_from(["INT", "TERM"])), "ms": draw(st.integers(0, 140))}
    return {"source": source, "compiler": compiler, "signal": sig, "tool": draw(st.sampled_from(TOOLS)) if sig is None else None,
            "old": draw(st.sampled_from([None, "old", "dirlike"])), "out": draw(st.sampled_from(["bin", "bin", "new/out", "plug/zout", "."])),
            "leave": draw(st.integers(0, 5)) == 0, "verbose": draw(st.booleans()), "files": draw(st.sampled_from([0, 3, 3, 60, 400])),
            "name": draw(st.sampled_from(["plug", "a-b"])), "dangling": draw(st.integers(1, 60)), "include": draw(st.booleans()),
            "abs": draw(st.booleans()), "nobuild": draw(st.integers(0, 9)) == 0}


SHIM = r'''#!/bin/bash
# Stands in for a tool the command calls; counts calls and sends the planned signal.
me=${0##*/}
S=%(state)s
n=$(cat $S/n); echo $((n+1)) > $S/n
hook() {
    if [ "$1" = "%(when)s" ] && [ $n = "%(event)s" ]; then
        kill -%(sig)s $PPID
        echo "signal at call $n ($me $1 $2)" >> $S/log
        sleep %(sleep)s
        if [ "%(die)s" = 1 ] && [ $1 = before ]; then exit 130; fi
    fi
}
hook before "$1"
rc=0
mode="%(mode)s"
case "$me $1" in
"go build")
    out=
    prev=
    for a in "$@"; do if [ "$prev" = -o ]; then out=$a; fi; prev=$a; done
    case $mode in
    real) "%(go)s" "$@"; rc=$? ;;
    fakefail) echo "compile error" >&2; rc=1 ;;
    fakecrash) kill -9 $$ ;;
    *)  [ $mode = fakeslow ] && sleep 0.15
        if m=$(cat main.go | grep MARK); then printf '\177ELF fake %%s\n' "$m" > $S/so && mv $S/so "$out"; rc=$?; else rc=1; fi ;;
    esac
    echo "build $rc" >> $S/log ;;
"go list")
    if [ "%(tool)s" = listfail ]; then echo "list failed" >&2; rc=1; else "%(go)s" "$@"; rc=$?; fi ;;
go\ *) "%(go)s" "$@"; rc=$? ;;
git\ *)
    if [ "%(tool)s" = gitfail ]; then echo "fatal: no git" >&2; rc=128; else "%(git)s" "$@"; rc=$?; fi ;;
*) "%(gofmt)s" "$@"; rc=$? ;;
esac
hook after "$1"
exit $rc
'''


def which(name, env):
    for d in env["PATH"].split(":"):
        p = os.path.join(d, name)
        if os.access(p, os.X_OK):
            return p
    raise core.NoVerdict("no " + name)


def run(ctx, plan):
    case = ctx.case_dir()
    state = case + ".state"
    os.makedirs(os.path.join(state, "bin"))
    try:
        return run_in(ctx, plan, case, state)
    finally:
        ctx.drop(case)
        ctx.drop(state)


def make_source(ctx, plan, case):
    name, source = plan["name"], plan["source"]
    root = os.path.join(case, name)
    mark = "MARK-%s-%d" % (name, len(core.dumps(plan)))
    text = "package plug\n\nimport _ \"vm/%s/sub\"\n\nfunc mark() string { return \"%s\" }\n\n" % (name, mark)
    text += core.gosrc_funcs(skip=("InvokeFunc", "OnInit") if source == "missing" else ("InvokeFunc",))
    if source != "missing":
        text += "func InvokeFunc(name string, params ...interface{}) (interface{}, error) { return mark(), nil }\n"
    sub = "package sub\n\nvar X = 1\n\nfunc live_sub() {}\n"
    if source == "syntax":
        text += "func broken( {\n"
    elif source == "subsyntax":
        sub += "func broken( {\n"
    elif source == "dup":
        text += "func live_sub() {}\n"
    elif source == "nonstruct":
        text += "type Live_N int\n"
    elif source == "typeerr":
        text += "var q int = \"x\"\n"
    elif source == "importmissing":
        sub = "package sub\n\nimport _ \"vm/nowhere\"\n"
    core.write(os.path.join(root, "main.go"), text)
    core.write(os.path.join(root, "sub", "sub.go"), sub)
    core.write(os.path.join(root, "sub", "sub_test.go"), "package sub\n")
    core.write(os.path.join(root, "data.txt"), "data")
    for i in range(plan["files"]):
        core.write(os.path.join(root, "many/d%d/f%d.go" % (i % 17, i)), "package d%d\n\nvar V%d = \"%s\"\n" % (i % 17, i, "x" * (i * 37 % 4000)))
    if source == "dangling":
        for i in range(plan["dangling"]):
            os.makedirs(os.path.join(root, "sub/l%d" % (i % 7)), exist_ok=True)
            os.symlink("nowhere", os.path.join(root, "sub/l%d/f%d.go" % (i % 7, i)))
    core.write(os.path.join(case, "sibling", "s.go"), "package sibling\n")
    core.write(os.path.join(case, name + "-20210101000000-deadbeef-01000000", "keep.txt"), "user data")
    return mark


def run_in(ctx, plan, case, state):
    ctx.plain_mod(case)
    name = plan["name"]
    mark = make_source(ctx, plan, case)
    out = plan["out"].replace("plug", name) if plan["out"].startswith("plug") else plan["out"]
    outdir = os.path.join(case, out)
    so = os.path.join(outdir, name + ".so")
    if plan["old"]:
        core.write(so, b"\x7fELF the previous plugin")
        core.write(os.path.join(outdir, "other.so"), b"another plugin")
    core.write(os.path.join(state, "n"), "0")
    core.write(os.path.join(state, "log"), "")
    sig = plan["signal"] or {}
    conf = {"state": state, "go": which("go", ctx.env), "git": which("git", ctx.env), "gofmt": which("gofmt", ctx.env), "tool": plan["tool"] or "",
            "mode": plan["compiler"], "when": sig.get("when", ""), "event": sig.get("event", -1), "sig": sig.get("sig", "TERM"),
            "sleep": sig.get("sleep", 0) / 1000.0, "die": 1 if sig.get("die") else 0}
    for t in ("go", "git", "gofmt"):
        if plan["tool"] == "no" + t:
            continue
        p = os.path.join(state, "bin", t)
        core.write(p, SHIM % conf)
        os.chmod(p, 0o755)
    env = dict(ctx.env)
    if plan["tool"] in ("nogo", "nogofmt", "nogit"):
        os.makedirs(os.path.join(state, "base"))
        for t in ("bash", "cat", "grep", "mv", "sleep", "sh", "env", "gcc"):
            os.symlink(which(t, ctx.env), os.path.join(state, "base", t))
        env["PATH"] = os.path.join(state, "bin") + ":" + os.path.join(state, "base")
    else:
        env["PATH"] = os.path.join(state, "bin") + ":" + env["PATH"]
    args = ["build"]
    if plan["leave"]:
        args.append("--leaveTemps")
    if plan["verbose"]:
        args.append("-v")
    if plan["include"]:
        args.append("--include=txt$")
    if plan["nobuild"]:
        args.append("--goBuild=false")
    args += [os.path.join(case, name) if plan["abs"] else name, out]
    before = core.snapshot(case)
    p = subprocess.Popen([ctx.cli] + args, cwd=case, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    timer = None
    if "ms" in sig:
        def fire():
            if p.poll() is None:
                try:
                    os.kill(p.pid, signal.SIGINT if sig["sig"] == "INT" else signal.SIGTERM)
                except OSError:
                    pass
        timer = threading.Timer(sig["ms"] / 1000.0, fire)
        timer.start()
    timed = False
    try:
        o, _ = p.communicate(timeout=240)
    except subprocess.TimeoutExpired:
        timed = True
        os.killpg(p.pid, signal.SIGKILL)
        o, _ = p.communicate()
    finally:
        if timer:
            timer.cancel()
            timer.join()
    rc = p.returncode
    log = open(os.path.join(state, "log")).read()
    text = "exit status %s\n%s\ncalls:\n%s" % (rc, o.decode(errors="replace")[:3000], log)
    if timed:
        ctx.no_shrink = True
        raise Violation("the command did not end\n" + text)
    after = core.snapshot(case)
    diff, paths = core.tree_diff(before, after)
    compiled = "build 0" in log
    rel_so = os.path.relpath(so, case)
    keep = plan["leave"] or plan["nobuild"]
    newdirs = core.tmp_dirs(case, name, {x for x in before if os.sep not in x} | {out.split("/")[0]})
    bad = []
    for line, q in zip(diff, paths):
        if q == rel_so:
            if not compiled or plan["nobuild"]:
                bad.append("%s, without a successful compilation" % line)
            continue
        if line.startswith("created") and (q == out or out.startswith(q + os.sep)):
            continue
        top = q.split(os.sep)[0]
        if keep and top in newdirs and len(newdirs) == 1:
            continue
        bad.append(line)
    if bad:
        raise Violation("the build changed what it was not asked to produce:\n%s\n%s" % ("\n".join(bad[:20]), text))
    faulty = plan["source"] != "ok" or plan["compiler"] in ("fakefail", "fakecrash")
    if plan["nobuild"]:
        faulty = plan["source"] in ("missing", "syntax", "dup", "nonstruct", "dangling")
        if plan["source"] in ("subsyntax",):
            faulty = None
    elif plan["source"] == "subsyntax" and plan["compiler"] in ("fake", "fakeslow"):
        faulty = None  # the stand-in compiles anything
    if plan["tool"] and not faulty:
        faulty = None  # whether the build needs the tool is its own affair: it only has to be consistent
    if rc == 0 and not plan["nobuild"]:
        ok = False
        if os.path.exists(so):
            data = open(so, "rb").read()
            ok = data.startswith(b"\x7fELF") and mark.encode() in data
        if not ok or not compiled:
            raise Violation("the command reported success and produced no plugin\n" + text)
    if faulty is True and rc == 0:
        raise Violation("a build that cannot succeed exited with zero\n" + text)
    if faulty is False and not sig and rc != 0:
        raise Violation("a faultless build failed\n" + text)
    labels = ["source " + plan["source"], "compiler " + plan["compiler"], "exit %s" % ("zero" if rc == 0 else "killed" if rc < 0 else "non-zero")]
    if plan["tool"]:
        labels.append("tool " + plan["tool"])
    if "signal at call" in log:
        labels.append("signal at " + log.split("signal at ")[1].split("\n")[0])
    elif sig.get("ms") is not None:
        labels.append("signal by time")
    return labels, bool(faulty) or bool(sig) or bool(plan["tool"])
