"""P21: static generation is complete, repeatable and keeps other plugins."""
import json
import os
import shutil

from hypothesis import strategies as st

from . import core
from .core import Violation

RULE = ("generated histories of generating, cleaning, editing and failing generations for several plugins and output directories; every step is checked against "
        "the files it may touch, the end against a fresh generation in another order, and the program is compiled and run; "
        "non-trivial: two or more plugins were registered in one directory at once")
CASES = {"quick": 26}
BUDGET = {"quick": 150, "thorough": 560}

NAMES = ["foo", "foobar", "foo.bar", "foo-bar", "bar", "a", "Zed", "x_test", "p_linux", "hotswap", "o", "foo.go"]
PKGS = ["foo", "foo", "main2", "hotswap", "p", "init_", "plugins", "hotswapx", "vault"]
OUTS = [["plugins", "plugins"], ["plugins", "zout"], ["q", "out"], ["", "gen/a-b"], ["q", "q/@2"], ["", "@.out"]]
USERFILES = ["doc.go", "hotswap.staticPluginInit.go", "hotswap.staticPluginInit.foo.go.bak", "xhotswap.staticPluginInit.foo.go", "notes.txt", "main_test.go",
             "hotswap.staticPluginInit_foo.go", "sub/hotswap.staticPluginInit.foo.go", "hotswap.other.go"]


@st.composite
def plans(draw):
    n = draw(st.integers(1, 4))
    names = draw(st.lists(st.sampled_from(NAMES), min_size=n, max_size=n, unique_by=lambda x: x.lower()))
    layout = draw(st.integers(0, len(OUTS) - 1))
    two = draw(st.integers(0, 3)) == 0
    plugins = []
    for name in names:
        plugins.append({"name": name, "pkg": draw(st.sampled_from(PKGS)), "out": draw(st.integers(0, 1)) if two else 0,
                        "subs": draw(st.lists(st.sampled_from(["sub", "sub/deep", "x", "live"]), max_size=2, unique=True)),
                        "lives": draw(st.integers(0, 2)), "types": draw(st.integers(0, 2))})
    ops = [["gen", i] for i in range(n)] if draw(st.booleans()) else []
    for _ in range(draw(st.integers(1, 8))):
        k = draw(st.sampled_from(["gen"] * 7 + ["clean", "clean", "edit", "edit", "user", "bad", "dyn", "again"]))
        i = draw(st.integers(0, n - 1))
        if k == "edit":
            ops.append([k, i, draw(st.sampled_from(["live", "unlive", "sub", "unsub", "type", "text", "none", "none"]))])
        elif k == "user":
            ops.append([k, draw(st.integers(0, 1)) if two else 0, draw(st.sampled_from(USERFILES))])
        elif k == "bad":
            ops.append([k, i, draw(st.sampled_from(["dup", "nonstruct", "missing", "syntax"]))])
        else:
            ops.append([k, i])
    return {"plugins": plugins, "layout": layout, "ops": ops, "order": draw(st.permutations(list(range(n)))), "abs": draw(st.booleans()),
            "prefix": draw(st.sampled_from([None, None, "Hot", "lv"]))}


def plugin_files(plan, i, state, hotswap):
    """The plugin's own files; state: lives, types, subs, text."""
    p = plan["plugins"][i]
    prefix = plan["prefix"] or "live_"
    own = own_path(plan, i)
    n = p["name"]
    imports = ['"%s/vault"' % hotswap, '"vm/evlog"'] + ['_ "%s/%s"' % (own, s) for s in state["subs"][:1]]
    src = ["package %s\n\nimport (\n\t%s\n)\n" % (p["pkg"], "\n\t".join(imports))]
    q = json.dumps(n)
    src.append("func OnLoad(data interface{}) error { evlog.Add(%s, \"OnLoad\", data); return nil }" % q)
    src.append("func OnInit(v *vault.Vault) error {\n\tevlog.Add(%s, \"OnInit\", nil)\n\treturn evlog.Fail(%s)\n}" % (q, q))
    src.append("func OnFree() { evlog.Add(%s, \"OnFree\", nil) }" % q)
    src.append("func Export() interface{} { evlog.Add(%s, \"Export\", nil); return %s }" % (q, q))
    src.append("func Import() interface{} { evlog.Add(%s, \"Import\", nil); return nil }" % q)
    src.append("func InvokeFunc(name string, params ...interface{}) (interface{}, error) { return %s + name, nil }" % q)
    src.append("func Reloadable() bool { evlog.Add(%s, \"Reloadable\", nil); return true }" % q)
    src.append("const Text = %s" % json.dumps(state["text"]))
    for k in range(state["lives"]):
        src.append("func %sp%df%d() string { return \"p%df%d\" }" % (prefix, i, k, i, k))
    for k in range(state["types"]):
        src.append("type %sP%dT%d struct{ ID_p%dt%d int }" % (prefix.upper(), i, k, i, k))
    files = {"main.go": "\n".join(src) + "\n", "hotswap.util.go": "package %s\n" % p["pkg"], "hotswap.live.go.txt": "t", "hotswap.main_test.go": "package %s\n" % p["pkg"], "x_test.go": "package %s_test\n" % p["pkg"], "data.txt": "d"}
    for s in state["subs"]:
        files[s + "/s.go"] = "package s\n\nfunc %sp%ds%s() string { return \"p%ds%s\" }\n" % (prefix, i, s.replace("/", ""), i, s.replace("/", ""))
        files[s + "/hotswap.mainx.go"] = "package s\n"
        files[s + "/s_test.go"] = "package s\n\nfunc %sp%dt() {}\n" % (prefix, i)
    return files


def lives(plan, i, state):
    prefix = plan["prefix"] or "live_"
    f = {"%sp%df%d" % (prefix, i, k): "p%df%d" % (i, k) for k in range(state["lives"])}
    f.update({"%sp%ds%s" % (prefix, i, s.replace("/", "")): "p%ds%s" % (i, s.replace("/", "")) for s in state["subs"]})
    t = {"%sP%dT%d" % (prefix.upper(), i, k): "p%dt%d" % (i, k) for k in range(state["types"])}
    return f, t


def own_path(plan, i):
    par = OUTS[plan["layout"]][0]
    return "/".join(x for x in ("vm", par, plan["plugins"][i]["name"]) if x)


def out_dirs(plan):
    a = OUTS[plan["layout"]][1].replace("@", plan["plugins"][0]["name"])
    return [a, "second/out2"]


def out_pkg(o):
    return o.split("/")[-1].replace("-", "_").replace(".", "_")


EVLOG = '''package evlog

import "fmt"

var (
	Log  []string
	Veto string
)

func Add(plugin, f string, data interface{}) {
	if data != nil {
		f += fmt.Sprint(":", data)
	}
	Log = append(Log, plugin+" "+f)
}

func Fail(plugin string) error {
	if plugin == Veto {
		return fmt.Errorf("vetoed")
	}
	return nil
}
'''

PROG = '''package main

import (
	"encoding/json"
	"os"
	"reflect"
	"sort"

	"%(hotswap)s"
	"vm/evlog"
	out "vm/%(out)s"
)

func main() {
	type result struct {
		Names, Titles, Log1, Log2, Plugins []string
		Invoke, Exports, Funcs, Types      map[string]string
		Err                                string
	}
	r := result{Invoke: map[string]string{}, Exports: map[string]string{}, Funcs: map[string]string{}, Types: map[string]string{}}
	for n, p := range out.HotswapStaticPlugins {
		r.Names = append(r.Names, n)
		r.Titles = append(r.Titles, p.Name)
	}
	sort.Strings(r.Names)
	sort.Strings(r.Titles)
	sw := hotswap.NewPluginManagerSwapper("", hotswap.WithStaticPlugins(out.HotswapStaticPlugins))
	if _, err := sw.LoadPlugins("D"); err != nil {
		r.Err = err.Error()
	} else if m := sw.Current(); m != nil {
		for _, p := range m.Plugins() {
			r.Plugins = append(r.Plugins, p.Name)
			x, _ := p.InvokeFunc("?")
			r.Invoke[p.Name], _ = x.(string)
		}
		for n, f := range m.Vault.LiveFuncs {
			r.Funcs[n] = reflect.ValueOf(f).Call(nil)[0].String()
		}
		for n, f := range m.Vault.LiveTypes {
			r.Types[n] = reflect.TypeOf(f()).Elem().Field(0).Name
		}
	}
	r.Log1 = evlog.Log
	evlog.Log = nil
	if len(r.Plugins) > 0 {
		evlog.Veto = r.Plugins[len(r.Plugins)-1]
		sw2 := hotswap.NewPluginManagerSwapper("", hotswap.WithStaticPlugins(out.HotswapStaticPlugins))
		if _, err := sw2.LoadPlugins("E"); err == nil {
			r.Err = "the vetoed load succeeded"
		}
	}
	r.Log2 = evlog.Log
	json.NewEncoder(os.Stdout).Encode(r)
}
'''


class World:
    def __init__(self, ctx, plan, case):
        self.ctx, self.plan, self.case = ctx, plan, case
        ctx.full_mod(case)
        core.write(os.path.join(case, "evlog", "evlog.go"), EVLOG)
        self.outs = out_dirs(plan)
        self.state = []
        self.user = {}
        self.dirs = set()   # directories that ever held a file of the plugins' own
        for o in {self.outs[p["out"]] for p in plan["plugins"]}:
            os.makedirs(os.path.join(case, o), exist_ok=True)
        for i, p in enumerate(plan["plugins"]):
            self.state.append({"lives": p["lives"], "types": p["types"], "subs": list(p["subs"]), "text": ""})
            self.put(i)

    def dir(self, i):
        return os.path.join(OUTS[self.plan["layout"]][0], self.plan["plugins"][i]["name"])

    def out(self, i):
        return self.outs[self.plan["plugins"][i]["out"]]

    def files(self, i):
        return plugin_files(self.plan, i, self.state[i], self.ctx.hotswap)

    def put(self, i):
        """Writes the plugin's own files, removing those no longer there."""
        new = {os.path.join(self.dir(i), f): t for f, t in self.files(i).items()}
        for f in [f for f in self.user if f.startswith(self.dir(i) + os.sep) and f not in new]:
            os.unlink(os.path.join(self.case, f))
            del self.user[f]
        for f, t in new.items():
            core.write(os.path.join(self.case, f), t)
            self.user[f] = t
            self.dirs.add(os.path.dirname(f))

    def call(self, i, *more):
        a, b = self.dir(i), self.out(i)
        if self.plan["abs"]:
            a, b = os.path.join(self.case, a), os.path.join(self.case, b)
        args = ["--staticLinking"] + list(more) + [a, b]
        if self.plan["prefix"]:
            args.insert(0, "--livePrefix=" + self.plan["prefix"])
        return self.ctx.hs(args, self.case)


def run(ctx, plan):
    case = ctx.case_dir()
    try:
        return run_in(ctx, plan, case)
    finally:
        ctx.drop(case)


def run_in(ctx, plan, case):
    w = World(ctx, plan, case)
    n = len(plan["plugins"])
    registered = {}   # plugin -> live names at generation
    stale = set()     # edited since
    created_by = {}   # path in an output directory -> plugin
    labels = set()
    most = 0
    trace = []
    for op in plan["ops"]:
        k, i = op[0], op[1]
        trace.append(" ".join(map(str, op)) + (" (%s)" % plan["plugins"][i]["name"] if k != "user" else ""))
        where = "after " + "; ".join(trace)
        before = core.snapshot(case)
        if k == "user":
            f = os.path.join(w.outs[i], op[2])
            if os.path.exists(os.path.join(case, w.outs[i])) and not os.path.exists(os.path.join(case, f)):
                pkg = out_pkg(w.outs[i])
                text = "not go" if not f.endswith(".go") else "package %s\n\n// %s\n" % ("sub" if "sub/" in op[2] else pkg, f)
                if "sub/" in op[2] and any(w.dir(j).startswith(os.path.dirname(f)) for j in range(n)):
                    continue
                core.write(os.path.join(case, f), text)
                w.user[f] = text
            continue
        if k == "edit":
            s = w.state[i]
            e = op[2]
            if e == "live":
                s["lives"] += 1
            elif e == "unlive":
                s["lives"] = max(0, s["lives"] - 1)
            elif e == "type":
                s["types"] += 1
            elif e == "sub":
                s["subs"] = s["subs"] + [x for x in ["sub", "extra"] if x not in s["subs"]][:1]
            elif e == "none":
                # nothing of the plugin is live any more
                s["lives"], s["types"], s["subs"] = 0, 0, []
            elif e == "unsub":
                s["subs"] = s["subs"][:-1]
            else:
                s["text"] += "x"
            w.put(i)
            if e != "text":
                stale.add(i)
            continue
        if k == "dyn":
            args = ["--goBuild=false"] + (["--livePrefix=" + plan["prefix"]] if plan["prefix"] else []) + [w.dir(i), "zzbin"]
            r = ctx.hs(args, case)
            if r.rc != 0:
                raise Violation("a plugin with static code in it cannot be prepared for a dynamic build %s\n%s" % (where, r.text()))
            par = os.path.join(case, os.path.dirname(w.dir(i)))
            for d in os.listdir(par):
                if os.path.relpath(os.path.join(par, d), case) not in before:
                    shutil.rmtree(os.path.join(par, d), ignore_errors=True)
            shutil.rmtree(os.path.join(case, "zzbin"), ignore_errors=True)
            diff, _ = core.tree_diff(before, core.snapshot(case))
            if diff:
                raise Violation("a dynamic build changed %s %s" % (diff, where))
            continue
        if k == "bad":
            p = os.path.join(case, w.dir(i), "zbad.go")
            pkg = plan["plugins"][i]["pkg"]
            px = plan["prefix"] or "live_"
            text = {"dup": "func %sdup() {}\n" % px, "nonstruct": "type %sq int\n" % px, "syntax": "func (\n"}.get(op[2], "")
            if op[2] == "dup":
                core.write(os.path.join(case, w.dir(i), "zbaddir", "z.go"), "package z\n\nfunc %sdup() {}\n" % px)
            if op[2] == "missing":
                m = os.path.join(case, w.dir(i), "main.go")
                core.write(m, w.user[os.path.join(w.dir(i), "main.go")].replace("func OnFree(", "func onFree_("))
            else:
                core.write(p, "package %s\n\n%s" % (pkg, text))
            b2 = core.snapshot(case)
            r = w.call(i)
            diff, _ = core.tree_diff(b2, core.snapshot(case))
            if r.rc == 0:
                raise Violation("static generation accepted a plugin with a mistake (%s) %s\n%s" % (op[2], where, r.text()))
            if diff:
                raise Violation("a failed static generation (%s) changed %s %s\n%s" % (op[2], diff, where, r.text()))
            if op[2] == "missing":
                w.put(i)
            else:
                os.unlink(p)
            shutil.rmtree(os.path.join(case, w.dir(i), "zbaddir"), ignore_errors=True)
            labels.add("failed generation")
            continue
        # gen, again, clean
        r = w.call(i, *(["--clean"] if k == "clean" else []))
        if r.rc != 0:
            raise Violation("static %s failed %s\n%s" % (k, where, r.text()))
        after = core.snapshot(case)
        diff, paths = core.tree_diff(before, after)
        inside = w.dir(i) + os.sep
        for line, p in zip(diff, paths):
            if p in w.user:
                raise Violation("%s, a file that is not generated, %s" % (line, where))
            if p.startswith(inside) and w.dir(i) != w.out(i):
                continue
            direct = os.path.dirname(p) == w.out(i)
            if direct and k != "clean" and line.startswith("created"):
                created_by[p] = i
                continue
            if direct and created_by.get(p) == i:
                continue
            raise Violation("%s, which does not belong to plugin %s, %s" % (line, plan["plugins"][i]["name"], where))
        if k == "clean":
            registered.pop(i, None)
            stale.discard(i)
            left = [p for p in after if p.startswith(inside) and after[p][0] != "dir" and p not in w.user]
            left += [p for p in after if p.startswith(inside) and after[p][0] == "dir" and not any((u + os.sep).startswith(p + os.sep) for u in w.dirs)]
            if left:
                raise Violation("cleaning left %s %s" % (left, where))
            labels.add("clean")
        else:
            if i in registered and i not in stale and diff:
                raise Violation("generating again changed %s %s" % (diff, where))
            registered[i] = lives(plan, i, w.state[i])
            stale.discard(i)
            if k == "again":
                labels.add("again")
                before = after
                r = w.call(i)
                diff, _ = core.tree_diff(before, core.snapshot(case))
                if r.rc != 0 or diff:
                    raise Violation("generating again changed %s %s\n%s" % (diff, where, r.text()))
        for o in set(w.outs):
            most = max(most, len([j for j in registered if w.out(j) == o]))
    where = "after " + "; ".join(trace)
    # bring edited plugins up to date, then compile and run each program
    for i in sorted(stale & set(registered)):
        r = w.call(i)
        if r.rc != 0:
            raise Violation("static generation failed %s\n%s" % (where, r.text()))
        registered[i] = lives(plan, i, w.state[i])
    for o in sorted({w.out(j) for j in registered}):
        check_program(ctx, plan, w, case, o, {j: registered[j] for j in registered if w.out(j) == o}, where)
    if registered:
        compare_fresh(ctx, plan, w, case, registered, where)
    labels.add("%d registered at the end" % len(registered))
    return sorted(labels), most >= 2


def compare_fresh(ctx, plan, w, case, registered, where):
    """The same final set, generated once in another order, gives the same files."""
    twin = ctx.case_dir()
    try:
        w2 = World(ctx, plan, twin)
        for i in range(len(plan["plugins"])):
            w2.state[i] = w.state[i]
            w2.put(i)
        for f, t in w.user.items():
            core.write(os.path.join(twin, f), t)
        for i in plan["order"]:
            if i in registered:
                r = w2.call(i)
                if r.rc != 0:
                    raise Violation("static generation failed in a fresh copy, order %s, of the state %s\n%s" % (plan["order"], where, r.text()))
        def files(d):
            return {p: v for p, v in core.snapshot(d).items() if v[0] == "file" and not p.startswith("zprog")}
        a, b = files(case), files(twin)
        # an output directory that has no registration left may keep its empty table
        live = {w.out(j) for j in registered}
        diff, paths = core.tree_diff(b, a)
        bad = [d for d, p in zip(diff, paths) if not (d.startswith("created") and os.path.dirname(p) in set(w.outs) - live)]
        if bad:
            raise Violation("the files depend on the history: %s %s" % (bad, where))
    finally:
        ctx.drop(twin)


def check_program(ctx, plan, w, case, o, regs, where):
    core.write(os.path.join(case, "zprog", "main.go"), PROG % {"hotswap": ctx.hotswap, "out": o})
    exe = os.path.join(ctx.base, "p21exe")
    b = ctx.run(["go", "build", "-o", exe, "./zprog"], case)
    if b.rc != 0:
        raise Violation("the program does not compile %s\n%s" % (where, b.text()))
    x = ctx.run([exe], case, timeout=60)
    os.unlink(exe)
    if x.rc != 0:
        raise Violation("the program failed %s\n%s" % (where, x.text()))
    got = json.loads(x.out)
    names = sorted(plan["plugins"][j]["name"] for j in regs)
    if got["Err"]:
        raise Violation("loading the static table failed %s: %s" % (where, got["Err"]))
    if got["Names"] != names or got["Titles"] != names or sorted(got["Plugins"] or []) != names:
        raise Violation("the static table holds %s (%s), loaded %s, generated were %s %s" % (got["Names"], got["Titles"], got["Plugins"], names, where))
    if got["Invoke"] != {n: n + "?" for n in names}:
        raise Violation("InvokeFunc answers %s %s" % (got["Invoke"], where))
    funcs, types = {}, {}
    for f, t in regs.values():
        funcs.update(f)
        types.update({n: "ID_" + x for n, x in t.items()})
    if got["Funcs"] != funcs or got["Types"] != types:
        raise Violation("live names of the program: %s %s, of the plugins: %s %s %s" % (got["Funcs"], got["Types"], funcs, types, where))
    for n in names:
        l1 = [e.split(" ", 1)[1] for e in got["Log1"] if e.split(" ", 1)[0] == n]
        l2 = [e.split(" ", 1)[1] for e in got["Log2"] if e.split(" ", 1)[0] == n]
        if sorted(l1) != ["Export", "Import", "OnInit", "OnLoad:D", "Reloadable"]:
            raise Violation("plugin %s received %s %s" % (n, l1, where))
        if l2.count("OnFree") != 1 or "OnLoad:E" not in l2:
            raise Violation("plugin %s received %s in a load that fails %s" % (n, l2, where))
