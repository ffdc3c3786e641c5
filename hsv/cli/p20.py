"""P20: exactly the selected files take part in the build."""
import hashlib
import os
import re

from hypothesis import strategies as st

from . import core
from .core import Violation

RULE = ("generated file trees and include/exclude expressions, prepared by the real command; the set and content of the copied files is compared with a reference "
        "selection; non-trivial: at least one non-Go file is selected and one left out, or the request is refused")
CASES = {"quick": 280}
BUDGET = {"quick": 120, "thorough": 560}

DIRS = ["", "", "sub", "sub/inner", "a.go", "data", "a/b/c/d", "x_test", "testdata", "_priv", ".hid", "hotswapbureau", "vendor/v", "txt"]
FILES = ["a.txt", "b.txt", "a.json", "b.tar.gz", "README", "x.s", "x.c", "data.bin", "a.go.txt", "agoo", "x.GO", "a.Txt", "a_test.txt", "hotswap.live.txt",
         ".hidden", "no ext.txt", "go", ".txt", "main.go~", "txt", "a.txt.bak", "é.txt", "a+b.txt",
         "a.go", "b.go", "z_linux.go", "c_windows.go", "a_test.go", "x_test.go", "testx.go", "_test.go", "hotswap.main.go", "hotswap.live.go",
         "hotswap.bureau.go", "hotswap.other.go", "hotswap.main.go.go", "xhotswap.main.go", "_u.go", ".dot.go", "test.go", "foo_test_.go", "a_Test.go"]
GENERATED = {"hotswap.main.go", "hotswap.live.go", "hotswap.bureau.go"}
ATOMS = [r"\.txt$", r"^a", "txt", r"\.json$", r"^README$", r"^[ab]\.", r"(json|gz)$", r".*", r"(?i)\.txt$", r"^sub", "sub/", r"\.go$", r"go", r"^$", r"^.{5}$",
         r"a.txt", r"\+", r"^[^.]+$", r"x\.[sc]$", r"_test", r"^\.", r"é", r"data", r"/", r"b+\.t", r"live", "x*", "^", "$", "(q|)", r"^(a|b)?"]
BADRX = ["(", "[a", "a**", "(?<", "\\", "(?P<n", "a{2,1}", "*x"]


@st.composite
def rx(draw):
    k = draw(st.integers(0, 5))
    a = draw(st.sampled_from(ATOMS))
    if k == 0:
        return "(%s)|(%s)" % (a.replace("(?i)", ""), draw(st.sampled_from(ATOMS)).replace("(?i)", ""))
    return a


@st.composite
def plans(draw):
    files = {}
    for _ in range(draw(st.integers(2, 16))):
        d = draw(st.sampled_from(DIRS))
        f = draw(st.sampled_from(FILES))
        files[os.path.join(d, f)] = ("@" if draw(st.integers(0, 9)) == 0 else "") + draw(st.sampled_from(["x", "", "bin", "path", "pkg", "big"]))
    # the name of a directory must not be the name of a file
    files = {p: c for p, c in files.items() if not any(q.startswith(p + "/") for q in files) and p not in DIRS}
    inc = draw(st.one_of(st.none(), rx(), rx(), rx()))
    exc = draw(st.one_of(st.none(), st.none(), rx(), rx()))
    bad = None
    if draw(st.integers(0, 7)) == 0:
        bad = draw(st.sampled_from(["include", "exclude"]))
        if bad == "include":
            inc = draw(st.sampled_from(BADRX))
        else:
            exc = draw(st.sampled_from(BADRX))
    return {"files": files, "include": inc, "exclude": exc, "bad": bad, "empty_dirs": draw(st.lists(st.sampled_from(["e1", "sub/e2", "x.go"]), max_size=1))}


def content(path, kind):
    kind = kind.strip("@")
    base = os.path.basename(path)
    if base.endswith(".go"):
        pkg = "plug" if os.path.dirname(path) == "" else "p"
        if base.endswith("_test.go") and kind == "pkg" and pkg == "plug":
            pkg = "plug_test"
        if base == "_test.go" or base.startswith("."):
            pkg = "plug" if os.path.dirname(path) == "" else "p"
        v = "v" + hashlib.sha1(path.encode()).hexdigest()[:8]
        body = {"path": "const %s = \"vm/plugx\"\n" % v, "big": "const %s = `%s`\n" % (v, "y" * 70000), "bin": "var %s = \"\\x00\"\n" % v}.get(kind, "")
        return ("package %s\n\n" % pkg + body).encode()
    return {"x": b"hello", "": b"", "bin": bytes(range(256)) * 3, "path": b'"vm/plug" "vm/plug/sub" `vm/plug`\n', "pkg": b"package foo\nfunc x() {}\r\n",
            "big": b"0123456789abcdef" * 9000}[kind]


def selected(path, plan):
    base = os.path.basename(path)
    if plan["bad"] or base.endswith("_test.go"):
        return False
    if base.endswith(".go"):
        return base not in GENERATED
    return bool(plan["include"] is not None and plan["include"] != "" and re.search(plan["include"], base) and
                not (plan["exclude"] and re.search(plan["exclude"], base)))


def run(ctx, plan):
    case = ctx.case_dir()
    try:
        ctx.plain_mod(case)
        root = os.path.join(case, "plug")
        want = {}
        for p, kind in plan["files"].items():
            data = content(p, kind)
            if kind.startswith("@"):
                # a link to a file that is elsewhere
                real = os.path.join(case, "shared", hashlib.sha1(p.encode()).hexdigest())
                core.write(real, data)
                os.makedirs(os.path.dirname(os.path.join(root, p)), exist_ok=True)
                os.symlink(os.path.relpath(real, os.path.dirname(os.path.join(root, p))), os.path.join(root, p))
            else:
                core.write(os.path.join(root, p), data)
            if selected(p, plan):
                if p.endswith(".go") and os.path.dirname(p) == "":
                    data = data.replace(b"package plug\n", b"package main\n", 1)
                want[p] = data
        core.write(os.path.join(root, "zfuncs.go"), "package plug\n\n" + core.gosrc_funcs())
        want["zfuncs.go"] = ("package main\n\n" + core.gosrc_funcs()).encode()
        for d in plan["empty_dirs"]:
            if not os.path.exists(os.path.join(root, d)):
                os.makedirs(os.path.join(root, d))
        before = core.snapshot(case)
        args = []
        if plan["include"] is not None:
            args.append("--include=" + plan["include"])
        if plan["exclude"] is not None:
            args.append("--exclude=" + plan["exclude"])
        r = ctx.hs(args + ["--goBuild=false", "plug", "bin"], case)
        after = core.snapshot(case)
        diff, paths = core.tree_diff(before, after)
        if plan["bad"]:
            if r.rc == 0:
                raise Violation("an expression that does not compile was accepted\n" + r.text())
            if not r.err.strip():
                raise Violation("an expression that does not compile was refused without a message")
            if [p for p in paths if p != "bin"]:
                raise Violation("a refused request changed something: %s" % diff)
            return ["refused expression"], True
        if r.rc != 0:
            raise Violation("the preparation failed\n" + r.text())
        tmp = core.tmp_dirs(case, "plug", {"plug", "bin", "shared"})
        if len(tmp) != 1:
            raise Violation("--goBuild=false left %s\n%s" % (tmp, r.text()))
        other = [p for p in paths if p != "bin" and p.split(os.sep)[0] != tmp[0]]
        if other:
            raise Violation("changed outside the temporary directory: %s" % other)
        t = os.path.join(case, tmp[0])
        have = {}
        for d, _, fs in os.walk(t):
            for f in fs:
                have[os.path.relpath(os.path.join(d, f), t)] = os.path.join(d, f)
        for g in ("hotswap.main.go", os.path.join("hotswapbureau", "hotswap.bureau.go")):
            have.pop(g, None)
        if set(have) != set(want):
            raise Violation("missing %s, unexpected %s" % (sorted(set(want) - set(have)), sorted(set(have) - set(want))))
        for p, data in want.items():
            with open(have[p], "rb") as f:
                if f.read() != data:
                    raise Violation("%s was copied with other content" % p)
    finally:
        ctx.drop(case)
    other = [p for p in plan["files"] if not p.endswith(".go")]
    sel = [p for p in other if selected(p, plan)]
    labels = [x for x, y in (("include", plan["include"]), ("exclude", plan["exclude"]), ("selected non-Go files", sel),
                             ("exclude alone", plan["exclude"] and not plan["include"]), ("tests", [p for p in plan["files"] if p.endswith("_test.go")]),
                             ("generated files left out", [p for p in plan["files"] if os.path.basename(p) in GENERATED])) if y]
    return labels, bool(sel) and len(sel) < len(other)
