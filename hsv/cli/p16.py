"""P16: exactly the live functions and types of the plugin are registered."""
import json
import os

from hypothesis import strategies as st

from . import core
from .core import Violation

RULE = ("generated multi-package plugins with live functions, live types and decoys under generated prefixes, prepared by the real command, "
        "compiled and run to read the registered tables; non-trivial: two or more live names, or a refusal for a duplicate name or a non-struct live type")
CASES = {"quick": 90}
BUDGET = {"quick": 120, "thorough": 560}

DIRS = ["", "sub", "util", "a/b", "internal/x", "live_pkg", "deep/er/still", "testdata/t", "_skip", "sub/inner", "a/util", "sub/util",
        "x-y", "go", "a/internal/x", "a/internal/x", "internal/y/internal"]
# what only the packages around it can import, and one of those
NESTED = {"a/internal/x": "a/b", "internal/y/internal": "internal/y"}
IGNORED = {"testdata/t", "_skip"}
PREFIXES = [None, None, None, "live_", "Hot", "on_x", "x", "LIVE", "  srv_ ", "é", "live"]
KINDS = ["func", "func", "func", "struct", "struct", "gstruct", "gstruct", "aliasstruct", "method", "var", "const", "testfunc", "teststruct", "exttest",
         "ignored", "windows", "local", "comment", "funcvar", "tagged", "tagged"]
# spellings of the same selection of build tags after --
TAGS = [["-tags=%s"], ["-tags", "%s"], ["--tags=%s"], ["--tags", "%s"], ["-v", "-tags=%s"], ["-ldflags", "-s", "-tags", "%s"], ["-tags=%s", "-ldflags=-s -w"]]
BAD = ["dup", "dup", "dup", "dup", "dup", "dupcase", "int", "iface", "ptr", "map", "functype", "slice"]


@st.composite
def ident_case(draw, prefix):
    m = draw(st.integers(0, 3))
    p = prefix
    if m == 1:
        p = prefix.upper()
    elif m == 2:
        p = prefix.capitalize()
    elif m == 3:
        p = "".join(c.upper() if draw(st.booleans()) else c.lower() for c in prefix)
    return p


@st.composite
def plans(draw):
    prefix = draw(st.sampled_from(PREFIXES))
    eff = (prefix or "live_").strip()
    dirs = [""] + draw(st.lists(st.sampled_from(DIRS[1:]), max_size=4, unique=True))
    dirs += [NESTED[d] for d in dirs if d in NESTED and NESTED[d] not in dirs]
    pkgs = [draw(st.sampled_from([None, None, "util", "plug", "vault", "os", "fmt", "X", "tests", "v_test", "testing"])) for _ in dirs]
    decls = []
    used = set()
    k = 0
    for _ in range(draw(st.integers(0, 9))):
        d = draw(st.sampled_from(dirs))
        kind = draw(st.sampled_from(KINDS))
        form = draw(st.integers(0, 9))
        k += 1
        tail = "N%d%s" % (k, draw(st.sampled_from(["", "_live_", "Ω", "x"])))
        if form <= 6:
            name = draw(ident_case(eff)) + tail
        elif form == 7:
            name = "z" + eff + tail  # the prefix is not at the beginning
        elif form == 8:
            name = (eff[:-1] or "q") + "Q" + tail if len(eff) > 1 else "q" + tail
        else:
            name = "Other" + tail
        if name in used:
            continue
        used.add(name)
        decls.append({"dir": d, "kind": kind, "name": name, "file": draw(st.integers(0, 1)), "sig": draw(st.integers(0, 6)), "fname": draw(st.sampled_from([0, 0, 0, 1, 2, 3, 4])),
                      "pos": draw(st.integers(0, 3)), "more": draw(st.integers(0, 2)) if kind == "gstruct" else 0})
    bad = None
    if draw(st.integers(0, 2)) == 0:
        bad = {"kind": draw(st.sampled_from(BAD)), "dirs": [draw(st.sampled_from(dirs)), draw(st.sampled_from(dirs))],
               "kinds": [draw(st.sampled_from(["func", "struct"])), draw(st.sampled_from(["func", "struct"]))],
               "name": draw(ident_case(eff)) + draw(st.sampled_from(["Bad", "BadNameThatIsLong", "Bad_9"]))}
    if bad and bad["kind"] == "dup" and bad["dirs"][0] == bad["dirs"][1]:
        if len(dirs) == 1:
            dirs.append(draw(st.sampled_from(["sub", "a/b", "internal/x"])))
            pkgs.append(None)
        bad["dirs"][1] = [d for d in dirs if d != bad["dirs"][0]][draw(st.integers(0, len(dirs) - 2))]
    tags = draw(st.sampled_from([None, None, "alpha", "beta", "alpha,beta"]))
    if tags:
        tags = [x.replace("%s", tags) for x in draw(st.sampled_from(TAGS))]
    edges = draw(st.lists(st.tuples(st.integers(0, 4), st.integers(0, 4)), max_size=4))
    return {"prefix": prefix, "dirs": dirs, "pkgs": pkgs, "decls": decls, "bad": bad, "edges": [list(e) for e in edges],
            "verbose": draw(st.booleans()), "tags": tags or [], "name": draw(st.sampled_from(["plug", "my-plug", "Plug9", "plug.x"]))}


SIGS = ["() string", "(a int, b string) string", "(v ...int) string", "(p *int) (s string)", "(m map[string]int, f func()) string", "()", "(a, b int)"]
# names that resemble those of generated files
FNAMES = [None, "hotswap.go", "hotswap_util.go", "hotswap.live.x.go", "hotswap.main2.go"]


def func_decl(name, ident, sig):
    return "func %s%s { %s }\n" % (name, SIGS[sig], "return " + json.dumps(ident) if sig < 5 else "")


def is_live(name, prefix):
    return name.lower().startswith(prefix.strip().lower())


def render(plan):
    """files (path -> text), expected functions and types (name -> id), expected refusal."""
    prefix = plan["prefix"] or "live_"
    pkgname = {d: ("plug" if d == "" else d.split("/")[-1].strip("_").replace("-", "") or "p") for d in plan["dirs"]}
    pkgname.update({d: "gopkg" for d in pkgname if pkgname[d] == "go"})
    for d, n in zip(plan["dirs"][1:], plan.get("pkgs", [None])[1:]):
        pkgname[d] = n or pkgname[d]
    on = {t for x in plan.get("tags", []) for t in x.replace("=", ",").split(",")} & {"alpha", "beta"}
    parts = {}
    funcs, types = {}, {}
    names = {}
    refuse = None

    def add(d, f, text):
        parts.setdefault((d, f), []).append(text)

    def declare(d, kind, name, ident):
        """Registers the name, True if it is a duplicate of a live name."""
        dup = name in names
        names[name] = ident
        (funcs if kind == "func" else types)[name] = ident
        return dup

    for d in plan["dirs"]:
        add(d, "f0.go", "")
    for n, x in enumerate(plan["decls"]):
        d, kind, name = x["dir"], x["kind"], x["name"]
        f = FNAMES[x.get("fname", 0)] or "f%d.go" % x["file"]
        ident = "id%d" % n
        fident = ident if x["sig"] < 5 else "-"
        live = is_live(name, prefix) and d not in IGNORED
        other = "w%d" % n if not is_live("w%d" % n, prefix) else "y%d" % n
        if kind == "func":
            add(d, f, func_decl(name, ident, x["sig"]))
            if live:
                declare(d, "func", name, fident)
        elif kind == "struct":
            add(d, f, "type %s struct {\n\tID_%s int\n\tS []string\n\tM map[string]%s\n}\n" % (name, ident, name))
            if live:
                declare(d, "type", name, ident)
        elif kind == "gstruct":
            # live types in any place of a grouped declaration, between others
            specs = ["\tQ%s int\n" % other, "\tR%s = map[string]int\n" % other, "\tS%s struct{}\n" % other]
            mine = [name] + [name + "_%d" % i for i in range(x["more"])]
            for i, nm in enumerate(mine):
                idn = ident if i == 0 else "%s_%d" % (ident, i)
                specs.insert(min((x["pos"] + 2 * i) % 4, len(specs)), "\t%s struct{ ID_%s string }\n" % (nm, idn))
                if live:
                    declare(d, "type", nm, idn)
            add(d, f, "type (\n%s)\n" % "".join(specs))
            if is_live("Q" + other, prefix) or is_live("R" + other, prefix):
                refuse = refuse or "type"
            if is_live("S" + other, prefix):
                declare(d, "type", "S" + other, None)
        elif kind == "aliasstruct":
            add(d, f, "type %s = struct{ ID_%s float64 }\n" % (name, ident))
            if live:
                declare(d, "type", name, ident)
        elif kind == "method":
            add(d, f, "type %sT struct{}\n\nfunc (t *%sT) %s() string { return \"no\" }\nfunc (%sT) M%s() {}\n" % (other, other, name, other, name))
        elif kind == "var":
            add(d, f, "var %s = 1\n" % name)
        elif kind == "const":
            add(d, f, "const %s = \"c\"\n" % name)
        elif kind == "funcvar":
            add(d, f, "var %s = func() string { return \"no\" }\n" % name)
        elif kind == "testfunc":
            add(d, "f_test.go", func_decl(name, ident, x["sig"]))
        elif kind == "teststruct":
            add(d, "f_test.go", "type %s struct{}\n" % name)
        elif kind == "exttest":
            parts.setdefault((d, "ext_test.go"), []).append(func_decl(name, ident, x["sig"]))
        elif kind == "ignored":
            add(d, "ign%d.go" % n, "//go:build never\n")
            add(d, "ign%d.go" % n, func_decl(name, ident, x["sig"]))
        elif kind == "windows":
            add(d, "w%d_windows.go" % n, "type %s struct{ N int }\n" % name)
        elif kind == "tagged":
            # the same name on both sides of a build constraint, or on one side only
            tag = ("alpha", "beta")[x["file"]]
            for neg in (("", "!"), ("!",), ("",), ("", "!"))[x["pos"]]:
                idn = ident + ("n" if neg else "")
                fn = "tag%d%s.go" % (n, "n" if neg else "")
                add(d, fn, "//go:build %s%s\n" % (neg, tag))
                if x["sig"] % 2 == 0:
                    add(d, fn, func_decl(name, idn, x["sig"]))
                else:
                    add(d, fn, "type %s struct{ ID_%s int }\n" % (name, idn))
                if live and (tag in on) != bool(neg):
                    declare(d, "type" if x["sig"] % 2 else "func", name, idn if x["sig"] < 5 or x["sig"] % 2 else "-")
        elif kind == "local":
            add(d, f, "func %sL() {\n\ttype %s struct{}\n\tvar x %s\n\t_ = x\n}\n" % (other, name, name))
        elif kind == "comment":
            add(d, f, "// func %s() string\n/*\ntype %s struct{}\n*/\n" % (name, name))
    b = plan["bad"]
    if b:
        name = b["name"]
        d1, d2 = b["dirs"]
        if b["kind"] == "dup":
            if d1 == d2 and b["kinds"][0] == b["kinds"][1]:
                pass  # would not compile for another reason
            for i, (d, kd) in enumerate(zip(b["dirs"], b["kinds"])):
                if i == 1 and d1 == d2:
                    break
                ident = "bad%d" % i
                if kd == "func":
                    add(d, "f0.go", func_decl(name, ident, 0))
                else:
                    add(d, "f0.go", "type %s struct{ ID_%s int }\n" % (name, ident))
                if d not in IGNORED and declare(d, "func" if kd == "func" else "type", name, ident):
                    refuse = refuse or "dup"
        elif b["kind"] == "dupcase":
            # names that differ only in letter case are different names
            other = name.swapcase() if name.swapcase() != name else name + "x"
            for d, nm, ident in ((d1, name, "bad0"), (d2, other, "bad1")):
                add(d, "f0.go", func_decl(nm, ident, 0))
                if is_live(nm, prefix) and d not in IGNORED:
                    declare(d, "func", nm, ident)
        else:
            t = {"int": "int", "iface": "interface{ M() }", "ptr": "*int", "map": "map[string]int", "functype": "func()", "slice": "[]byte"}[b["kind"]]
            add(d1, "f0.go", "type %s %s\n" % (name, t))
            if d1 not in IGNORED:
                refuse = refuse or "type"
    # imports from earlier to later packages
    imports = {}
    ds = [d for d in plan["dirs"]]
    for d in ds:
        if d in NESTED:
            imports.setdefault(NESTED[d], set()).add(d)
            imports.setdefault("", set()).add(NESTED[d])
    for i, j in plan["edges"]:
        if ds[j:j + 1] and ds[j] in NESTED or ds[i:i + 1] and ds[i] in NESTED:
            continue
        if i < j < len(ds) and ds[j] not in IGNORED and ds[i] not in IGNORED:
            imports.setdefault(ds[i], set()).add(ds[j])
    files = {}
    for (d, f), texts in parts.items():
        pn = pkgname[d]
        if f == "ext_test.go":
            pn += "_test"
        head = ""
        if texts and texts[0].startswith("//go:build"):
            head = texts[0] + "\n"
            texts = texts[1:]
        imp = ""
        if f == "f0.go":
            imp = "".join('import _ "vm/%s/%s"\n' % (plan["name"], t) for t in sorted(imports.get(d, ())))
        files[os.path.join(d, f)] = head + "package %s\n\n" % pn + imp + "\n".join(texts)
    files["funcs.go"] = "package plug\n\n" + core.gosrc_funcs()
    # functions every plugin has that match the prefix are live, too
    for fn in core.FUNCS:
        if is_live(fn, prefix):
            funcs[fn] = None
    return files, funcs, types, refuse


MAIN = '''package main

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"strings"
)

func main() {
	out := map[string]map[string]string{"funcs": {}, "types": {}}
	for name, f := range HotswapLiveFuncs() {
		v := reflect.ValueOf(f)
		if v.Kind() != reflect.Func {
			out["funcs"][name] = fmt.Sprintf("not a function: %T", f)
			continue
		}
		if v.Type().NumOut() != 1 || v.Type().Out(0).Kind() != reflect.String {
			out["funcs"][name] = "-"
			continue
		}
		var in []reflect.Value
		n := v.Type().NumIn()
		if v.Type().IsVariadic() {
			n--
		}
		for i := 0; i < n; i++ {
			in = append(in, reflect.Zero(v.Type().In(i)))
		}
		out["funcs"][name] = v.Call(in)[0].String()
	}
	for name, f := range HotswapLiveTypes() {
		out["types"][name] = check(f)
	}
	json.NewEncoder(os.Stdout).Encode(out)
}

func check(f func() interface{}) string {
	a, b := f(), f()
	v := reflect.ValueOf(a)
	if v.Kind() != reflect.Ptr || v.Elem().Kind() != reflect.Struct {
		return fmt.Sprintf("not a pointer to a struct: %T", a)
	}
	if !v.Elem().IsZero() {
		return "not a zero value"
	}
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return "different types"
	}
	if v.Elem().NumField() == 0 {
		return "no fields"
	}
	if v.Pointer() == reflect.ValueOf(b).Pointer() {
		return "the same pointer twice"
	}
	fd := v.Elem().Field(0)
	switch fd.Kind() {
	case reflect.Int:
		fd.SetInt(7)
	case reflect.String:
		fd.SetString("x")
	case reflect.Float64:
		fd.SetFloat(1)
	}
	if !reflect.ValueOf(f()).Elem().IsZero() || !reflect.ValueOf(b).Elem().IsZero() {
		return "a later value is not zero"
	}
	return strings.TrimPrefix(v.Elem().Type().Field(0).Name, "ID_")
}
'''


def run(ctx, plan):
    case = ctx.case_dir()
    try:
        return run_in(ctx, plan, case)
    finally:
        ctx.drop(case)


def run_in(ctx, plan, case):
    ctx.plain_mod(case)
    files, funcs, types, refuse = render(plan)
    root = os.path.join(case, plan["name"])
    for f, text in files.items():
        core.write(os.path.join(root, f), text)
    before = set(os.listdir(case))
    args = []
    if plan["prefix"] is not None:
        args.append("--livePrefix=" + plan["prefix"])
    if plan["verbose"]:
        args.append("-v")
    dashed = ["--"] + plan["tags"] if plan.get("tags") else []
    r = ctx.hs(args + ["--goBuild=false", plan["name"], "bin"] + dashed, case)
    if refuse:
        if r.rc == 0:
            full = ctx.hs(args + [plan["name"], "bin"] + dashed, case)
            if full.rc == 0 or os.path.exists(os.path.join(case, "bin", plan["name"] + ".so")):
                raise Violation("a plugin with %s was built\n%s" % (
                    "a duplicate live name" if refuse == "dup" else "a live type that is not a struct", full.text()))
        if refuse == "dup" and plan["bad"]:
            refuse += ": " + " and ".join(plan["bad"]["kinds"])
        return ["refused-" + refuse], True
    if r.rc != 0 or r.timed_out:
        raise Violation("a plugin whose live names are unique and whose live types are structs was refused\n" + r.text())
    tmp = core.tmp_dirs(case, plan["name"], before | {"bin"})
    if len(tmp) != 1:
        raise Violation("--goBuild=false left %s\n%s" % (tmp, r.text()))
    t = os.path.join(case, tmp[0])
    core.write(os.path.join(t, "zz_hsverif_main.go"), MAIN)
    exe = os.path.join(ctx.base, "p16exe")
    b = ctx.run(["go", "build"] + plan.get("tags", []) + ["-o", exe, "."], t)
    if b.rc != 0:
        raise Violation("the prepared plugin does not compile\n" + b.text())
    x = ctx.run([exe], t, timeout=60)
    os.unlink(exe)
    if x.rc != 0:
        raise Violation("reading the live tables failed\n" + x.text())
    got = json.loads(x.out)
    for what, want in (("funcs", funcs), ("types", types)):
        have = got[what]
        if set(have) != set(want):
            raise Violation("live %s: missing %s, unexpected %s" % (what, sorted(set(want) - set(have)), sorted(set(have) - set(want))))
        for n, ident in want.items():
            if ident is not None and have[n] != ident:
                raise Violation("live %s: %s is %r, not the plugin's own (%r)" % (what, n, have[n], ident))
    labels = ["accepted"]
    if plan.get("tags") and any(d["kind"] == "tagged" and is_live(d["name"], plan["prefix"] or "live_") for d in plan["decls"]):
        labels.append("live names under build tags")
    if len({d["dir"] for d in plan["decls"] if d["name"] in funcs or d["name"] in types}) > 1:
        labels.append("live names in several packages")
    if types:
        labels.append("live types")
    if funcs:
        labels.append("live functions")
    return labels, len(funcs) + len(types) >= 2
