"""P28: what the command reports is what it did."""
import os
import re
import shutil

from hypothesis import strategies as st

from . import core, p16, p21
from .core import Violation

RULE = ("generated plugins prepared with --verbose, and histories of verbose static generation and cleaning; the lists printed (live functions, live types, generated files, "
        "removed files, commit) are compared with the names known by construction and with whole-tree snapshots; non-trivial: two or more live names, a refusal, or a "
        "history that removes files")
CASES = {"quick": 140}
BUDGET = {"quick": 120, "thorough": 560}


def plans():
    return st.one_of(p16.plans().map(lambda p: {"kind": "dynamic", "plan": p}), p16.plans().map(lambda p: {"kind": "dynamic", "plan": p}), static_plans())


@st.composite
def static_plans(draw):
    plan = draw(p21.plans())
    plan["ops"] = [op for op in plan["ops"] if op[0] in ("gen", "again", "clean", "edit", "user")][:6]
    plan["build"] = draw(st.integers(0, 3)) == 0
    return {"kind": "static", "plan": plan}


def sections(out):
    """heading (without the plugin's name) -> list of lists of entries"""
    res = {}
    cur = None
    prev = ""
    for line in out.split("\n"):
        if re.fullmatch("=+", line):
            m = re.fullmatch(r"(.*?)(?: \((.*)\))?:?", prev)
            cur = []
            res.setdefault((m.group(1), m.group(2)), []).append(cur)
        elif line.startswith("\t") and cur is not None:
            cur.append(line[1:])
        elif line.strip():
            prev = line
            cur = None
    return res


def one(secs, key, what):
    a = secs.get(key, [])
    if len(a) != 1:
        raise Violation("%d lists %s in the output\n%s" % (len(a), key, what))
    return a[0]


def same(kind, got, want, what):
    if sorted(got) != sorted(want):
        raise Violation("%s: reported %s, really %s\n%s" % (kind, sorted(got), sorted(want), what))


def run(ctx, plan):
    case = ctx.case_dir()
    try:
        return (run_static if plan["kind"] == "static" else run_dynamic)(ctx, plan["plan"], case)
    finally:
        ctx.drop(case)


def check_commit(ctx, r, what):
    p = ctx.run(["git", "log", "-1", "--format=%H", "HEAD"], ctx.root)
    if p.out.strip() not in r.out:
        raise Violation("the commit shown is not %s\n%s" % (p.out.strip(), what))


def run_dynamic(ctx, plan, case):
    ctx.plain_mod(case)
    files, funcs, types, refuse = p16.render(plan)
    root = os.path.join(case, plan["name"])
    for f, text in files.items():
        core.write(os.path.join(root, f), text)
    before = core.snapshot(case)
    args = ["--verbose" if plan["verbose"] else "-v", "--goBuild=false"]
    if plan["prefix"] is not None:
        args.append("--livePrefix=" + plan["prefix"])
    dashed = ["--"] + plan["tags"] if plan.get("tags") else []
    r = ctx.hs(args + [plan["name"], "bin"] + dashed, case)
    what = r.text()
    if refuse:
        b = plan["bad"]
        if r.rc == 0:
            # whether it has to be refused at once is decided elsewhere
            return ["accepted with a mistake"], False
        if b and b["kind"] != "dupcase" and p16.is_live(b["name"], plan["prefix"] or "live_") and not set(b["dirs"][:1 if b["kind"] != "dup" else 2]) & p16.IGNORED:
            if b["name"] not in r.err + r.out:
                raise Violation("the refusal does not name %s\n%s" % (b["name"], what))
            return ["refused " + b["kind"]], True
        return ["refused"], True
    if r.rc != 0:
        raise Violation("a faultless plugin was refused\n" + what)
    check_commit(ctx, r, what)
    after = core.snapshot(case)
    tops = {p.split(os.sep)[0] for p in after if p not in before} - {"bin"}
    if len(tops) != 1:
        raise Violation("--goBuild=false left %s\n%s" % (sorted(tops), what))
    top = tops.pop()
    if os.path.join(case, top) not in r.out:
        raise Violation("the copy %s is not named\n%s" % (top, what))
    secs = sections(r.out)
    same("live functions", one(secs, ("Live Functions", None), what), funcs, what)
    same("live types", one(secs, ("Live Types", None), what), types, what)
    made = [p[len(top) + 1:] for p in after if p.startswith(top + os.sep) and after[p][0] == "file"]
    made = [p for p in made if p not in files]
    same("generated files", one(secs, ("Generated Files", plan["name"]), what), made, what)
    if ("Generated Files", None) in secs or [k for k in secs if k[0].startswith("Removed")]:
        raise Violation("lists of files that were neither generated nor removed\n" + what)
    n = len(funcs) + len(types)
    return ["dynamic", "live names: %s" % ("none" if n == 0 else "one" if n == 1 else "several")], n >= 2


def run_static(ctx, plan, case):
    w = p21.World(ctx, plan, case)
    trace = []
    removed = 0
    for op in plan["ops"]:
        k, i = op[0], op[1]
        trace.append(" ".join(map(str, op)))
        if k == "user":
            f = os.path.join(w.outs[i], op[2])
            if os.path.isdir(os.path.join(case, w.outs[i])) and not os.path.exists(os.path.join(case, f)) and "sub/" not in f:
                text = "not go" if not f.endswith(".go") else "package %s\n" % p21.out_pkg(w.outs[i])
                core.write(os.path.join(case, f), text)
                w.user[f] = text
            continue
        if k == "edit":
            s = w.state[i]
            if op[2] in ("live", "sub"):
                s["lives"] += 1
            elif op[2] == "type":
                s["types"] += 1
            elif op[2] == "none":
                s["lives"], s["types"], s["subs"] = 0, 0, []
            elif op[2] == "unlive":
                s["lives"] = max(0, s["lives"] - 1)
            w.put(i)
            continue
        before = core.snapshot(case)
        clean = k == "clean"
        r = w.call(i, "-v", *(["--clean"] if clean else []))
        after = core.snapshot(case)
        what = "after " + "; ".join(trace) + "\n" + r.text()
        if r.rc != 0:
            raise Violation("static generation failed " + what)
        check_commit(ctx, r, what)
        name = plan["plugins"][i]["name"]
        ins, out = w.dir(i) + os.sep, w.out(i)
        secs = sections(r.out)

        def mine(snap):
            return [p[len(ins):] for p in snap if p.startswith(ins) and snap[p][0] == "file" and p not in w.user and os.path.dirname(p) != out]
        gone = one(secs, ("Removed Files", name), what)
        same("removed files", gone, mine(before), what)
        removed += len(gone)
        outer = (secs.get(("Removed Files", None), []) + [[]])[0]
        ofiles = {p: before[p] for p in before if os.path.dirname(p) == out and before[p][0] == "file"}
        for f in outer:
            if os.path.join(out, f) not in ofiles or os.path.join(out, f) in w.user or (clean and os.path.join(out, f) in after):
                raise Violation("%s is reported as removed, but was not %s" % (f, what))
        for p in ofiles:
            if p not in after and os.path.basename(p) not in outer:
                raise Violation("%s was removed without being reported %s" % (p, what))
        if clean:
            if [x for x in secs if x[0].startswith("Generated")]:
                raise Violation("cleaning reports generated files " + what)
            continue
        same("generated files", one(secs, ("Generated Files", name), what), mine(after), what)
        made = one(secs, ("Generated Files", None), what)
        for f in made:
            p = os.path.join(out, f)
            if after.get(p, ("",))[0] != "file" or p in w.user:
                raise Violation("%s is reported as generated, but was not %s" % (f, what))
        for p in after:
            if os.path.dirname(p) == out and after[p][0] == "file" and before.get(p) != after[p] and os.path.basename(p) not in made:
                raise Violation("%s was written without being reported %s" % (p, what))
        f, t = p21.lives(plan, i, w.state[i])
        same("live functions", one(secs, ("Live Functions", None), what), f, what)
        same("live types", one(secs, ("Live Types", None), what), t, what)
        for o in range(len(plan["plugins"])):
            oname = plan["plugins"][o]["name"]
            if o != i and ("Generated Files", oname) in secs:
                raise Violation("generated files of plugin %s are reported %s" % (oname, what))
    shutil.rmtree(os.path.join(case, "zprog"), ignore_errors=True)
    return ["static"] + (["removed files"] if removed else []), removed > 0
