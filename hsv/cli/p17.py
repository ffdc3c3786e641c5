"""P17: building changes nothing in the program but its package identity."""
import os

from hypothesis import strategies as st

from . import core
from .core import Violation

RULE = ("generated source trees (package clause forms, comments, raw strings, import styles, near-miss paths, CRLF, BOM), prepared by the real command "
        "and compared byte by byte with a reference rewrite known by construction; non-trivial: a file holds an own path and a near miss or a decoy package clause")
CASES = {"quick": 300}
BUDGET = {"quick": 120, "thorough": 560}

CLAUSES = ["package {n}", "package {n}", "package {n} // trailing", "package   {n}", "package\t{n}", "/* lead */ package {n}", "package {n} /* a */",
           "package/**/{n}", "package {n};", "package {n}; var _ = 1", "package\n\n{n}"]
HEADERS = ["// package other", "/*\npackage notreal\n*/", "// Package plug does things.", "", "//go:build !never\n", "/* package x */", "// \"fmt\""]
# {P} is the plugin's own import path as the plugin's author wrote it, {O} the same where it has to be rewritten
OWN = ["{O}", "{O}/sub", "{O}/sub/inner", "{O}/hotswapx", "{O}/a.b-c"]
NEAR = ["{P}x", "{P}x/sub", "{P}-v2", "{P}.v1/sub", "x/{P}", "x/{P}/sub", "{D}/plugother", "{D}", "fmt", "{P}_test", "{P}x/{P}", "example.com/{P}"]
ALIAS = ["", "_ ", "al%d ", ". "]
RAW = ["package foo", "package main // x", "  package foo", "{P}", "{P}/sub", "import \"{P}x\"", "package", "package main;", "// package y", "import 'x/{P}'", "\tpackage z", ""]
STR = ["{P}x", "x {P}", "{P} x {P}/sub", "package foo", "\\npackage foo\\n", "x/{P}", "'{P}'", "{P}-{P}"]
COMMENTS = ["// package foo", "/* \npackage foo\n*/", "// {P}/sub is ours", "// import {P}", "/* {P} */", "//package q", "/*\npackage main\npackage other\n*/"]
NAMES = ["plug", "my-plug", "p.l-u_g", "Plug", "x", "main", "plugplug"]
MODS = ["vm", "example.com/vm", "vm/v2", "a.b/c-d/e_f"]


@st.composite
def gofile(draw, k):
    imports = draw(st.lists(st.tuples(st.sampled_from(['"', "`"]), st.sampled_from(ALIAS), st.one_of(st.sampled_from(OWN), st.sampled_from(NEAR)), st.booleans()),
                            max_size=4))
    body = []
    for _ in range(draw(st.integers(0, 5))):
        what = draw(st.sampled_from(["raw", "raw", "str", "comment", "comment", "ownstr", "func", "semi"]))
        if what == "raw":
            body.append([what, draw(st.lists(st.sampled_from(RAW), min_size=1, max_size=4))])
        elif what == "str":
            body.append([what, draw(st.sampled_from(STR))])
        elif what == "comment":
            body.append([what, draw(st.sampled_from(COMMENTS))])
        elif what == "ownstr":
            body.append([what, draw(st.sampled_from(OWN[:3])), draw(st.sampled_from(['"', "`"]))])
        else:
            body.append([what])
    return {"header": draw(st.lists(st.sampled_from(HEADERS), max_size=3)), "clause": draw(st.sampled_from(CLAUSES)),
            "imports": [list(i) for i in imports], "group": draw(st.booleans()), "body": body,
            "crlf": draw(st.integers(0, 5)) == 0, "bom": draw(st.integers(0, 7)) == 0, "noeol": draw(st.booleans())}


@st.composite
def plans(draw):
    files = []
    for k in range(draw(st.integers(1, 6))):
        d = draw(st.sampled_from(["", "", "", "sub", "sub/inner", "main", "a/b/c/d", "package"]))
        files.append({"dir": d, "src": draw(gofile(k))})
    return {"name": draw(st.sampled_from(NAMES)), "mod": draw(st.sampled_from(MODS)), "parent": draw(st.sampled_from(["", "", "plugins", "a/b"])),
            "files": files, "pkg": draw(st.sampled_from(["plug", "main", "foo_bar", "p"])),
            "subpkg": draw(st.sampled_from(["plug", "main", "other"])), "text": draw(st.sampled_from([None, "a.txt", "sub/b.tpl", "c.go.txt"])),
            "abs": draw(st.booleans())}


def text(src, n, pkg, fill):
    def f(s):
        return fill(s)
    eol = "\r\n" if src["crlf"] else "\n"
    out = []
    # a build constraint stands first, followed by a blank line
    hs = [h for h in src["header"] if h.startswith("//go:build")][:1] + [h for h in src["header"] if not h.startswith("//go:build")]
    out += [f(h) for h in hs]
    out.append(src["clause"].replace("{n}", pkg))
    out.append("")
    late = ""
    imps = []
    for k, (q, alias, p, _) in enumerate(src["imports"]):
        imps.append("%s%s%s%s" % (alias % k if "%d" in alias else alias, q, f(p), q))
    if "var _" in src["clause"]:
        imps = []  # imports have to come first
    if src["group"] and imps:
        out.append("import (")
        out += ["\t" + i for i in imps]
        out.append(")")
    else:
        out += ["import " + i for i in imps]
    for k, b in enumerate(src["body"]):
        v = "v%d_%d" % (n, k)
        if b[0] == "raw":
            out.append("const %s = `x\n%s\n`" % (v, f("\n".join(b[1]))))
        elif b[0] == "str":
            out.append("const %s = \"%s\"" % (v, f(b[1])))
        elif b[0] == "comment":
            out.append(f(b[1]))
        elif b[0] == "ownstr":
            out.append("const %s = %s%s%s" % (v, b[2], f(b[1]), b[2]))
        elif b[0] == "func":
            out.append("func %s() {\n\tpackage_ := 1\n\t_ = package_\n}" % v)
        else:
            out.append("var %s = 1; var %sx = 2" % (v, v))
    s = "\n".join(out) + late
    if not src["noeol"]:
        s += "\n"
    s = s.replace("\n", eol)
    data = s.encode()
    return (b"\xef\xbb\xbf" if src["bom"] else b"") + data


def render(plan, own_new=None):
    """path -> bytes; with own_new, the expected result of the rewrite."""
    pkgpath = "/".join(x for x in (plan["mod"], plan["parent"], plan["name"]) if x)
    parent = pkgpath.rsplit("/", 1)[0]

    def fill(s):
        return s.replace("{O}", own_new or pkgpath).replace("{P}", pkgpath).replace("{D}", parent)
    out = {}
    for n, x in enumerate(plan["files"]):
        pkg = plan["subpkg"] if x["dir"] else plan["pkg"]
        if own_new and not x["dir"]:
            pkg = "main"
        out[os.path.join(x["dir"], "f%d.go" % n)] = text(x["src"], n, pkg, fill)
    if plan.get("text"):
        # a file that is not source stays as it is
        out[plan["text"]] = ("package plug\nimport \"%s\"\n`%s/sub`\r\n\"%s/x\" package foo" % ((pkgpath,) * 3)).encode()
    pkg = "main" if own_new else plan["pkg"]
    out["zfuncs.go"] = ("package %s\n\n" % pkg + core.gosrc_funcs()).encode()
    return out


def run(ctx, plan):
    case = ctx.case_dir()
    try:
        ctx.plain_mod(case, plan["mod"])
        parent = os.path.join(case, plan["parent"]) if plan["parent"] else case
        root = os.path.join(parent, plan["name"])
        src = render(plan)
        for f, data in src.items():
            core.write(os.path.join(root, f), data)
        os.makedirs(os.path.join(case, "zbin"))
        before = set(os.listdir(parent))
        arg = root if plan["abs"] else os.path.relpath(root, case)
        r = ctx.hs(["--goBuild=false"] + ([r"--include=\.(txt|tpl)$"] if plan.get("text") else []) + [arg, "zbin"], case)
        tmp = core.tmp_dirs(parent, plan["name"], before)
        if r.rc != 0:
            raise Violation("a valid plugin source was refused\n" + r.text())
        if len(tmp) != 1:
            raise Violation("--goBuild=false left %s\n%s" % (tmp, r.text()))
        new = "/".join(x for x in (plan["mod"], plan["parent"], tmp[0]) if x)
        want = render(plan, new)
        for f in sorted(want):
            p = os.path.join(parent, tmp[0], f)
            if not os.path.exists(p):
                raise Violation("%s was not copied" % f)
            got = open(p, "rb").read()
            if got != want[f]:
                raise Violation("%s: the copy is not the source with its package identity changed\n--- source\n%s\n--- expected\n%s\n--- got\n%s" % (
                    f, src[f].decode(), want[f].decode(), got.decode(errors="replace")))
            if open(os.path.join(root, f), "rb").read() != src[f]:
                raise Violation("%s: the plugin's own source was changed" % f)
    finally:
        ctx.drop(case)
    labels, nt = [], False
    for x in plan["files"]:
        s = core.dumps(x["src"])
        if "{O}" in s:
            labels.append("own path")
            if "{P}" in s or "package" in s.replace('"clause": "package', ""):
                nt = True
        if x["src"]["crlf"]:
            labels.append("CRLF")
        if x["src"]["bom"]:
            labels.append("BOM")
        if not x["dir"] and any(b[0] == "raw" for b in x["src"]["body"]):
            labels.append("raw strings in the root")
    return sorted(set(labels)), nt
