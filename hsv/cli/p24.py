"""P24: build options and paths take effect exactly as given."""
import os

from hypothesis import strategies as st

from . import core
from .core import Violation
from .p19 import which

RULE = ("generated flags after --, options before, after and between the arguments, spellings of the directories and working directories; a recording stand-in for the "
        "compiler (sometimes the real one with build tags) shows what was asked of it; non-trivial: there is a flag after --, or a directory is not written plainly")
CASES = {"quick": 260}
BUDGET = {"quick": 120, "thorough": 560}

FLAGS = ["-race", "-v", "-tags=a,b", "-ldflags=-s -w", "-gcflags=all=-N -l", "--", "-x", "", " ", "a b", "$HOME", "*", "'q'", "\"", "\\", "ünï", "-k=\n", "-", "-v", "--leaveTemps",
         "--goBuild=false", "--clean", "-trimpath", "-mod=mod", "-p", "1", "%s", "{{.}}", "--staticLinking", "-h", "--help"]
DIRFORMS = ["rel", "rel", "dot", "slash", "slashes", "up", "abs", "abs", "absup", "absslash"]
CWDS = ["case", "case", "case", "plugin", "sub", "out", "other", "outside"]
OPTIONS = ["-v", "--verbose", "--leaveTemps", "--leaveTemps=true", "--leaveTemps=false", "--livePrefix=go_", "--livePrefix", "--include=txt$", "--goBuild=true", "--debug"]


@st.composite
def plans(draw):
    real = draw(st.integers(0, 24)) == 0
    flags = draw(st.lists(st.one_of(st.sampled_from(FLAGS), st.text(st.characters(blacklist_categories=["Cs"], blacklist_characters="\0"), max_size=6)), max_size=5))
    dashes = bool(flags) or draw(st.booleans())
    if real:
        flags, dashes = draw(st.sampled_from([["-tags=one"], ["-tags", "two"], ["-tags=one,two"], ["-v", "-tags=two"]])), True
    opts = draw(st.lists(st.sampled_from(OPTIONS), max_size=3))
    if not real and draw(st.integers(0, 4)) == 0:
        opts.append("--goBuild=false")
    return {"real": real, "flags": flags, "dashes": dashes, "opts": [[o, draw(st.integers(0, 2))] for o in opts], "name": draw(st.sampled_from(["plug", "a-b", "x.y", "Zed", "plug_1", "q.so"])),
            "depth": draw(st.integers(0, 2)), "dirform": draw(st.sampled_from(DIRFORMS)), "outform": draw(st.sampled_from(DIRFORMS)), "cwd": draw(st.sampled_from(CWDS)),
            "out": draw(st.sampled_from(["bin", "bin", "deep/er", "."])), "exists": draw(st.booleans()),
            "env": draw(st.dictionaries(st.sampled_from(["GOFLAGS", "CGO_CFLAGS", "HSVERIF_X"]), st.integers(0, 2), max_size=3))}


SHIM = r'''#!/bin/bash
# Records how the compiler is called.
if [ "$1" = build ]; then
    n=$(cat %(state)s/n); n=$((n+1)); echo $n > %(state)s/n
    printf '%%s\0' "$@" > %(state)s/args.$n
    pwd -P > %(state)s/cwd.$n
    printf '%%s\0' "$GOFLAGS" "$GOOS" "$CGO_CFLAGS" "$GOTMPDIR" "$HSVERIF_X" > %(state)s/env.$n
    find . -type f > %(state)s/files.$n
    if [ "%(real)s" = 1 ]; then exec "%(go)s" "$@"; fi
    out=; prev=
    for a in "$@"; do if [ "$prev" = -o ] && [ -z "$out" ]; then out=$a; fi; prev=$a; done
    printf 'compiled' > "$out"
    exit $?
fi
exec "%(go)s" "$@"
'''


def spell(target, form, cwd):
    rel = os.path.relpath(target, cwd)
    up = os.path.join(target, "..", os.path.basename(target))
    if form == "abs":
        return target
    if form == "absup":
        return up
    if form == "absslash":
        return target + "/"
    if form == "dot":
        return "./" + rel
    if form == "slash":
        return rel + "/"
    if form == "slashes":
        return rel.replace("/", "//") + "//"
    if form == "up":
        return os.path.join(rel, "..", os.path.basename(target))
    return rel


def run(ctx, plan):
    case = ctx.case_dir()
    state = case + ".state"
    try:
        return run_in(ctx, plan, case, state)
    finally:
        ctx.drop(case)
        ctx.drop(state)


def run_in(ctx, plan, case, state):
    ctx.plain_mod(case)
    name = plan["name"]
    parent = os.path.join(case, *["lvl%d" % i for i in range(plan["depth"])])
    root = os.path.join(parent, name)
    core.write(os.path.join(root, "main.go"), "package plug\n\nfunc mark() string { return mark1 + mark2 }\n\n"
               + core.gosrc_funcs(skip=("InvokeFunc",)) + "func InvokeFunc(name string, params ...interface{}) (interface{}, error) { return mark(), nil }\n")
    for t in ("1", "2"):
        tag = {"1": "one", "2": "two"}[t]
        core.write(os.path.join(root, "tag%s.go" % t), "//go:build %s\n\npackage plug\n\nconst mark%s = \"MARK-%s-on \"\n" % (tag, t, tag))
        core.write(os.path.join(root, "tag%sno.go" % t), "//go:build !%s\n\npackage plug\n\nconst mark%s = \"MARK-%s-off \"\n" % (tag, t, tag))
    core.write(os.path.join(root, "sub", "sub.go"), "package sub\n\nvar X = 1\n")
    core.write(os.path.join(root, "sub", "x.txt"), "text")
    core.write(os.path.join(case, "other", "o.go"), "package other\n")
    outdir = os.path.normpath(os.path.join(case, plan["out"]))
    if plan["exists"]:
        os.makedirs(outdir, exist_ok=True)
    cwd = {"case": case, "plugin": root, "sub": os.path.join(root, "sub"), "out": outdir if os.path.isdir(outdir) else case, "other": os.path.join(case, "other"),
           "outside": os.path.join(state, "away")}[plan["cwd"]]
    os.makedirs(os.path.join(state, "away"))
    os.makedirs(os.path.join(state, "bin"))
    core.write(os.path.join(state, "n"), "0")
    p = os.path.join(state, "bin", "go")
    core.write(p, SHIM % {"state": state, "go": which("go", ctx.env), "real": 1 if plan["real"] else 0})
    os.chmod(p, 0o755)
    env = dict(ctx.env, PATH=os.path.join(state, "bin") + ":" + ctx.env["PATH"], HOME=os.path.join(state, "away"), **{"GOCACHE": ctx.env["GOCACHE"]})
    for k, v in plan.get("env", {}).items():
        env[k] = {"GOFLAGS": ["-mod=mod -v", "-mod=readonly", "-mod=mod -ldflags=-w"], "CGO_CFLAGS": ["-O1 -g", "-DX=\"y\"", ""], "HSVERIF_X": ["a b", "$HOME", ""]}[k][v]
    a1, a2 = spell(root, plan["dirform"], cwd), spell(outdir, plan["outform"], cwd)
    parts = [[], [], []]
    leave = nobuild = False
    for o, at in plan["opts"]:
        parts[at] += [o] + (["live_"] if o == "--livePrefix" else [])
        if o == "--goBuild=false":
            nobuild = True
    # options are read from left to right: the last one decides
    for o in parts[0] + parts[1] + parts[2]:
        if o.startswith("--leaveTemps"):
            leave = o != "--leaveTemps=false"
        if o.startswith("--goBuild"):
            nobuild = o == "--goBuild=false"
    args = parts[0] + [a1] + parts[1] + [a2] + parts[2]
    if plan["dashes"]:
        args += ["--"] + plan["flags"]
    include = any(o == "--include=txt$" for o, _ in plan["opts"])
    before = core.snapshot(case)
    r = ctx.hs(args, cwd, env=env)
    after = core.snapshot(case)
    what = "hotswap build %r in %s\n%s" % (args, plan["cwd"], r.text())
    if r.timed_out:
        raise Violation("the command did not end\n" + what)
    if r.rc != 0:
        raise Violation("a faultless build failed\n" + what)
    n = int(open(os.path.join(state, "n")).read())
    if n != (0 if nobuild else 1):
        raise Violation("the compiler was called %d times\n%s" % (n, what))
    so = os.path.join(outdir, name + ".so")
    expect = {"main.go", "tag1.go", "tag1no.go", "tag2.go", "tag2no.go", "sub/sub.go"} | ({"sub/x.txt"} if include else set())
    if n:
        argv = open(os.path.join(state, "args.1"), encoding="utf-8", newline="").read().split("\0")[:-1]
        at = [i for i in range(len(argv)) if argv[i:i + len(plan["flags"])] == plan["flags"]]
        if plan["flags"] and not at:
            raise Violation("the compiler got %r, which does not hold the flags %r\n%s" % (argv, plan["flags"], what))
        envs = open(os.path.join(state, "env.1"), encoding="utf-8").read().split("\0")[:-1]
        for k, v in zip(["GOFLAGS", "GOOS", "CGO_CFLAGS", "GOTMPDIR", "HSVERIF_X"], envs):
            if v != env.get(k, ""):
                raise Violation("the compiler got %s=%r, set was %r\n%s" % (k, v, env.get(k, ""), what))
        where = open(os.path.join(state, "cwd.1")).read().rstrip("\n")
        if os.path.dirname(where) != os.path.realpath(parent) or os.path.basename(where) == name:
            raise Violation("the compiler ran in %s\n%s" % (where, what))
        have = {x[2:] for x in open(os.path.join(state, "files.1")).read().split("\n") if x}
        if not expect <= have or {x for x in have - expect if not x.endswith(".go")}:
            raise Violation("the compiled directory holds %s\n%s" % (sorted(have), what))
        # the options the build itself needs, without the user's own
        for i in at or [len(argv)]:
            own = argv[:i] + argv[i + len(plan["flags"]):]
            outs = [own[k + 1] for k in range(len(own) - 1) if own[k] == "-o"] + [x[3:] for x in own if x.startswith("-o=")]
            if "-buildmode=plugin" in own and [os.path.normpath(os.path.join(where, x)) for x in outs] in ([so], [os.path.realpath(so)]):
                break
        else:
            raise Violation("the compiler got %r\n%s" % (argv, what))
        if not os.path.isfile(so):
            raise Violation("there is no %s\n%s" % (so, what))
        data = open(so, "rb").read()
        if plan["real"]:
            tags = set(",".join(plan["flags"]).replace("-tags=", "").split(","))
            for t in ("one", "two"):
                if (b"MARK-%s-on" % t.encode() in data) != (t in tags):
                    raise Violation("the tag %s had the wrong effect\n%s" % (t, what))
    diff, paths = core.tree_diff(before, after)
    kept = []
    bad = []
    rel_parent, rel_out = os.path.relpath(parent, case), os.path.relpath(outdir, case)
    for line, q in zip(diff, paths):
        if n and q == os.path.relpath(so, case):
            continue
        if line.startswith("created") and (q == rel_out or rel_out.startswith(q + os.sep)):
            continue
        inside = os.path.relpath(q, rel_parent) if rel_parent != "." else q
        if line.startswith("created") and not inside.startswith(".."):
            kept.append(inside)
            continue
        bad.append(line)
    if bad:
        raise Violation("unexpected effects: %s\n%s" % (bad, what))
    tops = {x.split(os.sep)[0] for x in kept}
    if leave or nobuild:
        if len(tops) != 1 or not expect <= {x.split(os.sep, 1)[1] for x in kept if os.sep in x}:
            raise Violation("the prepared copy was to be kept, left are %s\n%s" % (sorted(kept), what))
    elif tops:
        raise Violation("left behind: %s\n%s" % (sorted(kept), what))
    if n:
        last = ([""] + [x for x in r.out.split("\n") if x.strip()])[-1].strip()
        if os.path.realpath(os.path.join(cwd, last)) != os.path.realpath(so):
            raise Violation("the last line printed is %r, which is not the plugin produced\n%s" % (last, what))
    if (leave or nobuild) and not any(t in r.out for t in tops):
        raise Violation("the kept copy %s is not named in the output\n%s" % (sorted(tops), what))
    labels = ["%d flags" % len(plan["flags"]), "cwd " + plan["cwd"], "dir " + plan["dirform"], "out " + plan["outform"], "real" if plan["real"] else "recorded"]
    if nobuild:
        labels.append("goBuild=false")
    return labels, bool(plan["flags"]) or plan["dirform"] not in ("rel", "abs") or plan["outform"] not in ("rel", "abs")
