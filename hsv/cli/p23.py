"""P23: impossible build requests are refused without side effects; layouts are understood."""
import os
import re
import time

from hypothesis import strategies as st

from . import core
from .core import Violation

RULE = ("generated impossible requests (exit status, message, time bound, tree snapshots) and generated valid module layouts (the own import paths of the prepared "
        "or generated code are compared with the true ones, and it compiles); non-trivial: every refused request, and layouts that are not a plain directory below go.mod")
CASES = {"quick": 150}
BUDGET = {"quick": 130, "thorough": 560}

BAD = ["argc", "argc", "plugmissing", "plugfile", "plugblank", "plugdangling", "prefix", "nomod", "nomod", "badmod", "clean", "outfile", "outbelowfile", "outblank",
       "regexp", "flag", "st-outmissing", "st-same", "st-same", "st-inside", "st-inside"]
MODLINES = ["module {M}", "module \"{M}\"", "// a comment\n\nmodule {M} // trailing", "module {M}\r", "module   {M}", "/**/module {M}", "module `{M}`"]
MODS = ["vm", "example.com/vm", "vm/v2", "a.b/c-d/e_f"]


@st.composite
def bad_plans(draw):
    return {"kind": "bad", "what": draw(st.sampled_from(BAD)), "static": draw(st.booleans()), "n": draw(st.integers(0, 9)),
            "opts": draw(st.lists(st.sampled_from(["-v", "--leaveTemps", "--goBuild=false", "--include=txt$", "--debug", "--livePrefix=hot_"]), max_size=3, unique=True)),
            "outexists": draw(st.booleans()), "depth": draw(st.integers(0, 2))}


@st.composite
def good_plans(draw):
    return {"kind": "good", "mod": draw(st.sampled_from(MODS)), "modline": draw(st.integers(0, len(MODLINES) - 3)),
            "up": draw(st.sampled_from(["", "", "x", "x/y", "cmd/a-b/c"])), "name": draw(st.sampled_from(["plug", "p-q", "P.x", "_u", "pl"])),
            "outer": draw(st.booleans()), "decoymod": draw(st.booleans()), "spell": draw(st.integers(0, 6)), "static": draw(st.integers(0, 2)) == 0,
            "out": draw(st.sampled_from(["out", "out-put", "o.u.t", "a/b/Out9", "x-", "x_", "_q"])),
            "outfile": draw(st.sampled_from([None, None, "doc", "test", "exttest", "both"])), "exttest": draw(st.booleans()),
            "pkg": draw(st.sampled_from(["plug", "other", "hotswap", "vault", "p_1"])), "gen": draw(st.sampled_from([None, None, "root", "out", "both", "sub"])), "outabs": draw(st.booleans())}


def plans():
    return st.one_of(bad_plans(), good_plans())


def run(ctx, plan):
    case = ctx.case_dir()
    try:
        return (run_bad if plan["kind"] == "bad" else run_good)(ctx, plan, case)
    finally:
        ctx.drop(case)


def run_bad(ctx, plan, case):
    what, n, static = plan["what"], plan["n"], plan["static"]
    depth = "/".join(["d", "e"][:plan["depth"]])
    plug = os.path.join(depth, "plug") if depth else "plug"
    if what == "badmod":
        core.write(os.path.join(case, "go.mod"), ["", "go 1.20\n", "module\n", "\x00\x01", "module a b c\n", "<html>", "moduleX vm\n", "module \"vm\n", "module \"\"\n",
                                                  "// module vm\n"][n])
    elif what != "nomod":
        ctx.plain_mod(case)
    core.write(os.path.join(case, plug, "main.go"), "package plug\n\n" + core.gosrc_funcs())
    core.write(os.path.join(case, plug, "sub", "s.go"), "package sub\n")
    core.write(os.path.join(case, plug, "hotswap.live.go"), "package plug\n")
    core.write(os.path.join(case, "afile"), "x")
    os.symlink("nowhere", os.path.join(case, "dangling"))
    opts = list(plan["opts"])
    if what.startswith("st-"):
        static = True
    if what in ("regexp", "clean"):
        static = False
    out = "out" if n % 2 else os.path.join(depth, "zout")
    exists = plan["outexists"] or static
    if what == "st-outmissing":
        exists = False
    if what == "st-inside":
        out = os.path.join(plug, ["sub", "sub/deep", "..out", "..x/y", "...", "o", "hotswapbureau", "..", ".z", "x/..y"][n])
        if out.endswith("/.."):
            out = os.path.join(plug, "q")
    if what == "st-same":
        out = [plug, plug + "/", "./" + plug, plug + "/sub/..", os.path.join(case, plug), plug + "/.", "./" + plug + "//", os.path.join(case, plug) + "/",
               os.path.join("..", os.path.basename(case), plug), plug + "/../plug"][n]
    elif what == "outfile":
        out = "afile"
    elif what == "outbelowfile":
        out = "afile/out"
    elif what == "outblank":
        out = ["", " ", "\t", "  "][n % 4]
    elif exists:
        os.makedirs(os.path.join(case, out), exist_ok=True)
        core.write(os.path.join(case, out, "keep.go"), "package zout\n")
    args = [plug, out]
    if what == "argc":
        args = [[], [plug], [plug, out, "x"], [plug, out, "x", "y"], [plug, "--", out], ["--", plug, out], [plug, "--"], [], [plug, out, out], [plug, out, ""]][n]
    elif what == "plugmissing":
        args[0] = ["nope", "plug/nope", "./no/pe", "plugg"][n % 4]
    elif what == "plugfile":
        args[0] = ["afile", plug + "/main.go"][n % 2]
    elif what == "plugblank":
        args[0] = ["", " ", "\t "][n % 3]
    elif what == "plugdangling":
        args[0] = "dangling"
    elif what == "prefix":
        opts = [o for o in opts if "livePrefix" not in o] + ["--livePrefix=" + ["", " ", "\t", "  \n"][n % 4]]
    elif what == "clean":
        opts.append("--clean")
    elif what == "regexp":
        opts = [o for o in opts if "include" not in o] + [["--include=(", "--exclude=[", "--include=a**", "--exclude=\\", "--include=(?P<"][n % 5]]
    elif what == "flag":
        opts.append(["--nope", "--goBuild=maybe", "--livePrefix", "-z", "--static"][n % 5])
        if opts[-1] == "--livePrefix":
            args = [plug]
    if static:
        opts.append("--staticLinking")
        if n % 3 == 0 and what in ("nomod", "plugmissing", "prefix", "st-same", "st-inside", "st-outmissing"):
            opts.append("--clean")
    before = core.snapshot(case)
    t0 = time.monotonic()
    r = ctx.hs(opts + args, case, timeout=60, mem=6 << 30)
    dt = time.monotonic() - t0
    after = core.snapshot(case)
    text = "hotswap build %s (%s, %.1fs)\n%s" % (opts + args, what, dt, r.text())
    if r.timed_out:
        ctx.no_shrink = True
        raise Violation("the command does not end: " + text)
    if r.rc == 0:
        raise Violation("an impossible request was accepted: " + text)
    if r.rc < 0 or re.search(r"^(fatal error: |goroutine \d+ \[running\])", r.err, re.M) and "--debug" not in opts:
        raise Violation("the command crashed: " + text)
    if not (r.err + r.out).strip():
        raise Violation("the request was refused without a message: " + text)
    diff, paths = core.tree_diff(before, after)
    allowed = set() if exists or not args else {os.path.normpath(args[-1])}
    if what == "argc" or static:
        allowed = set()
    elif allowed:
        a = next(iter(allowed))
        while os.path.dirname(a):
            a = os.path.dirname(a)
            allowed.add(a)
    bad = [d for d, p in zip(diff, paths) if not (d.startswith("created") and p in allowed and after[p][0] == "dir")]
    if bad:
        raise Violation("the refused request had side effects: %s\n%s" % (bad, text))
    return ["refused " + what, "static" if static else "dynamic"], True


def run_good(ctx, plan, case):
    mod = plan["mod"]
    line = MODLINES[plan["modline"]].replace("{M}", mod)
    if plan["outer"]:
        core.write(os.path.join(case, "go.mod"), "module outer.example/o\n\ngo 1.26\n")
        top = os.path.join(case, "inner")
    else:
        top = case
    os.makedirs(top, exist_ok=True)
    static = plan["static"]
    name = plan["name"] if not (static and plan["name"].startswith("_")) else "u"
    if static:
        ctx.full_mod(top, mod)
        text = open(os.path.join(top, "go.mod")).read()
        core.write(os.path.join(top, "go.mod"), text.replace("module " + mod, line, 1))
    else:
        core.write(os.path.join(top, "go.mod"), line + "\n\ngo 1.26\n")
    parent = os.path.join(top, plan["up"]) if plan["up"] else top
    root = os.path.join(parent, name)
    own = "/".join(x for x in (mod, plan["up"], name) if x)
    if static:
        src = "package %s\n\nimport (\n\tv \"%s/vault\"\n\t_ \"%s/sub\"\n)\n\n" % (plan["pkg"], ctx.hotswap, own) + \
            core.gosrc_funcs().replace("OnInit(v interface{})", "OnInit(_ *v.Vault)")
    else:
        src = "package %s\n\nimport _ \"%s/sub\"\n\n" % (plan["pkg"], own) + core.gosrc_funcs()
    core.write(os.path.join(root, "main.go"), src)
    core.write(os.path.join(root, "sub", "s.go"), "package sub\n\nfunc Live_s() {}\n")
    if plan["exttest"]:
        core.write(os.path.join(root, "x_test.go"), "package %s_test\n" % plan["pkg"])
    gen = plan.get("gen")
    # a generator is not part of the package it stands beside
    gen_src = "//go:build ignore\n\npackage main\n\nfunc main() {}\n"
    if gen in ("root", "both"):
        core.write(os.path.join(root, "gen.go"), gen_src)
    if gen == "sub":
        core.write(os.path.join(root, "sub", "gen.go"), gen_src)
    if plan["decoymod"]:
        core.write(os.path.join(top, "zzother", "go.mod"), "module wrong.example/w\n")
    cwd, arg = {0: (top, os.path.relpath(root, top)), 1: (top, "./" + os.path.relpath(root, top) + "/"), 2: (root, "."), 3: (parent, name),
                4: (ctx.base, root), 5: (os.path.join(root, "sub"), ".."), 6: (parent, "./" + name + "/sub/..")}[plan["spell"]]
    outname = plan["out"]
    outdir = os.path.join(top, outname)
    if static:
        os.makedirs(outdir, exist_ok=True)
        pk = "zpk"
        if plan["outfile"] in ("doc", "both"):
            core.write(os.path.join(outdir, "doc.go"), "package %s\n" % pk)
        if plan["outfile"] == "test":
            core.write(os.path.join(outdir, "d_test.go"), "package %s\n" % pk)
        if plan["outfile"] in ("doc", "test", "both") and gen in ("out", "both"):
            core.write(os.path.join(outdir, "gen.go"), gen_src)
        if plan["outfile"] == "both":
            core.write(os.path.join(outdir, "d_test.go"), "package %s_test\n" % pk)
    outarg = outdir if plan["outabs"] or outname.startswith("-") else os.path.relpath(outdir, cwd)
    before = set(os.listdir(parent))
    args = (["--staticLinking"] if static else ["--goBuild=false"]) + [arg, outarg]
    r = ctx.hs(args, cwd, timeout=120)
    if r.rc != 0:
        raise Violation("a valid layout was refused: hotswap build %s in %s\n%s" % (args, os.path.relpath(cwd, case), r.text()))
    if static:
        pkgdir = outname
        env = dict(ctx.env)
        b = ctx.run(["go", "build", "."], outdir, env=env)
        if b.rc != 0:
            raise Violation("the generated static code does not compile\n" + b.text())
        if plan["outfile"]:
            b = ctx.run(["go", "list", "-e", "-test", "-f", "{{.Name}}{{with .Error}} {{.}}{{end}}", "."], outdir, env=env)
            if "found packages" in b.text():
                raise Violation("the generated static code has another package name than its directory\n" + b.text())
        return ["static layout", "output directory " + pkgdir] + (["a generator"] if gen else []), True
    tmp = core.tmp_dirs(parent, name, before | {outname, outname.split("/")[0]})
    if len(tmp) != 1:
        raise Violation("--goBuild=false left %s\n%s" % (tmp, r.text()))
    t = os.path.join(parent, tmp[0])
    new = "/".join(x for x in (mod, plan["up"], tmp[0]) if x)
    got = open(os.path.join(t, "main.go")).read()
    if got != src.replace("package " + plan["pkg"], "package main", 1).replace('"' + own + "/", '"' + new + "/"):
        raise Violation("the package path is %s, but the copy is\n%s" % (own, got))
    core.write(os.path.join(t, "zz_main.go"), "package main\n\nfunc main() {\n\tif HotswapLiveFuncs()[\"Live_s\"] == nil {\n\t\tpanic(1)\n\t}\n}\n")
    if not name.startswith("_"):
        exe = os.path.join(ctx.base, "p23exe")
        b = ctx.run(["go", "build", "-o", exe, "."], t)
        if b.rc != 0:
            raise Violation("the prepared plugin does not compile\n" + b.text())
        b = ctx.run([exe], t)
        if b.rc != 0:
            raise Violation("the live function of a subpackage is missing\n" + b.text())
    return ["dynamic layout", "spelling %d" % plan["spell"]] + (["a generator"] if gen else []), plan["spell"] > 0 or bool(plan["up"]) or plan["outer"] or bool(gen)
