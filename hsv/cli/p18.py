"""P18: a plugin is built exactly when it has all required functions."""
import os
import re

from hypothesis import strategies as st

from . import core
from .core import FUNCS, Violation

RULE = ("generated distributions of the required functions over files, with decoys (methods, variables, test files, subpackages, comments, other letter case) "
        "in place of missing ones; the reported names are compared with those really missing; non-trivial: a function is missing or stands outside the first file")
CASES = {"quick": 350}
BUDGET = {"quick": 120, "thorough": 560}

DECOYS = ["none", "none", "method", "ptrmethod", "var", "const", "type", "test", "exttest", "sub", "subsub", "comment", "string", "case", "local", "field", "longer",
          "iface"]
FILES = ["main.go", "a.go", "zz.go", "b_x.go", "funcs_linux.go"]


@st.composite
def plans(draw):
    funcs = {}
    n_missing = draw(st.sampled_from([0, 0, 1, 1, 1, 2, 3, 7]))
    missing = draw(st.lists(st.sampled_from(FUNCS), min_size=n_missing, max_size=n_missing, unique=True))
    for f in FUNCS:
        funcs[f] = {"in": None if f in missing else draw(st.integers(0, len(FILES) - 1)), "decoy": draw(st.sampled_from(DECOYS)),
                    "din": draw(st.sampled_from([0, 0, 1, 2, -1])), "first": draw(st.booleans()),
                    "grouped": draw(st.booleans())}
    return {"funcs": funcs, "static": draw(st.integers(0, 3)) == 0, "goBuild": draw(st.booleans()), "name": draw(st.sampled_from(["plug", "x-y", "Z"])),
            "livefuncs": draw(st.booleans()), "pkg": draw(st.sampled_from(["plug", "plug", "main", "test", "plug_test", "p_test"]))}


def render(plan):
    files = {"main.go": [], "f_test.go": [], "ext_test.go": [], "sub/s.go": [], "sub/sub/t.go": []}
    for i, f in enumerate(FUNCS):
        x = plan["funcs"][f]
        if x["in"] is not None:
            files.setdefault(FILES[x["in"]], []).append(core.SIMPLE[f])
        # where the decoy stands, and whether the real function comes after it
        dfile = FILES[x.get("din", 0)] if x.get("din", 0) >= 0 or x["in"] is None else FILES[x["in"]]
        decoys = files.setdefault(dfile, [])
        n = len(decoys)
        d = x["decoy"]
        if x["in"] is not None and d in ("var", "const", "type", "test"):
            d = "method"  # the name is taken in this package
        sig = core.SIMPLE[f][len("func "):]
        if d == "method":
            decoys.append("type T%d struct{}\n\nfunc (T%d) %s" % (i, i, sig))
        elif d == "ptrmethod":
            decoys.append("type P%d struct{}\n\nfunc (p *P%d) %s" % (i, i, sig))
        elif d == "var":
            decoys.append("var %s = func() {}" % f)
        elif d == "const":
            decoys.append("const %s = 1" % f)
        elif d == "type":
            decoys.append("type %s func()" % f)
        elif d == "test":
            files["f_test.go"].append(core.SIMPLE[f])
        elif d == "exttest":
            files["ext_test.go"].append(core.SIMPLE[f])
        elif d == "sub":
            files["sub/s.go"].append(core.SIMPLE[f])
        elif d == "subsub":
            files["sub/sub/t.go"].append(core.SIMPLE[f])
        elif d == "comment":
            decoys.append("// " + core.SIMPLE[f] + "\n\n/*\n" + core.SIMPLE[f] + "\n*/")
        elif d == "string":
            decoys.append("const s%d = `\n%s\n`" % (i, core.SIMPLE[f]))
        elif d == "case":
            decoys.append("func %s" % sig.replace(f, f.upper() if i % 2 else f.swapcase(), 1))
        elif d == "longer":
            decoys.append("func X%s\n\nfunc %sX%s" % (sig, f, sig[len(f):]))
        elif d == "local":
            decoys.append("func l%d() {\n\t%s := 1\n\t_ = %s\n}" % (i, f, f))
        elif d == "field":
            decoys.append("type F%d struct{ %s func() }" % (i, f))
        elif d == "iface":
            decoys.append("type I%d interface{ %s() }" % (i, f))
        if x.get("first"):
            mine = decoys[n:]
            del decoys[n:]
            decoys[0:0] = mine
    out = {}
    for f, parts in files.items():
        if not parts and f != "main.go":
            continue
        pkg = {"ext_test.go": plan.get("pkg", "plug") + "_test", "sub/s.go": "sub", "sub/sub/t.go": "sub"}.get(f, plan.get("pkg", "plug"))
        out[f] = "package %s\n\n" % pkg + "\n\n".join(parts) + "\n"
    return out


def run(ctx, plan):
    case = ctx.case_dir()
    try:
        ctx.plain_mod(case)
        root = os.path.join(case, plan["name"])
        for f, t in render(plan).items():
            core.write(os.path.join(root, f), t)
        core.write(os.path.join(case, "out", "keep.txt"), "x")
        missing = [f for f in FUNCS if plan["funcs"][f]["in"] is None]
        before = core.snapshot(case)
        args = []
        if plan["static"]:
            args.append("--staticLinking")
        elif not missing or not plan["goBuild"]:
            args.append("--goBuild=false")
        r = ctx.hs(args + [plan["name"], "out"], case)
        after = core.snapshot(case)
        diff, paths = core.tree_diff(before, after)
        named = [f for f in FUNCS if re.search(r"(?<![\w./-])%s(?![\w./-])" % f, r.err + r.out)]
        if missing:
            if r.rc == 0:
                raise Violation("a plugin without %s was accepted\n%s" % (missing, r.text()))
            if named != missing:
                raise Violation("missing are %s, reported as missing %s\n%s" % (missing, named, r.text()))
            left = [p for p in paths if p.startswith("out") or plan["goBuild"] or plan["static"]]
            if left:
                raise Violation("a refused build left something behind: %s\n%s" % (diff, r.text()))
        else:
            if r.rc != 0:
                raise Violation("a plugin with all required functions was refused\n" + r.text())
            if plan["static"] and not [p for p in paths if p.startswith("out" + os.sep)]:
                raise Violation("static generation registered nothing\n" + r.text())
    finally:
        ctx.drop(case)
    labels = ["static" if plan["static"] else "dynamic", "%d missing" % len(missing)]
    labels += sorted({"decoy " + plan["funcs"][f]["decoy"] for f in missing})
    return labels, bool(missing) or len({x["in"] for x in plan["funcs"].values()}) > 1
