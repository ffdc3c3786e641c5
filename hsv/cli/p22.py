"""P22: every build of a plugin is a distinct, loadable version."""
import concurrent.futures
import json
import os

from hypothesis import strategies as st

from . import core
from .core import Violation

RULE = ("generated sequences of builds by the real command and compiler (identical or edited sources, back to back, in parallel, with and without commits between), "
        "loaded one after the other into one process through the library; non-trivial: two or more versions are loaded and re-examined")
CASES = {"quick": 11}
BUDGET = {"quick": 150, "thorough": 560}
WORKERS = 6


DIRS = ["sub", "sub/inner", "lib/x/y", "internal/state", "internal", "pkg", "cmd/tool", "v2", "a.b", "util-x", "sub2", "deep/er/than/that", "plug", "test", "vm", "main"]


@st.composite
def chains(draw):
    """Packages below the plugin, each importing the next one; the last one holds state."""
    n = draw(st.sampled_from([0, 1, 1, 2, 3]))
    dirs = draw(st.lists(st.sampled_from(DIRS), min_size=n, max_size=n, unique=True))
    return [{"dir": d, "form": draw(st.sampled_from(["plain", "plain", "alias", "backquote", "single"]))} for d in dirs]


def imports(std, path, form):
    """The import declaration of a file, and the name of its own package in it."""
    name = "p_" + "".join(c if c.isalnum() else "_" for c in path.split("/")[-1])
    t = {"plain": 'X "%s"' % path if path.split("/")[-1] != name[2:] or name[2:] in ("main", "v2", "internal") else '"%s"' % path,
         "alias": 'alias "%s"' % path, "backquote": "X `%s`" % path, "single": 'X "%s"' % path}[form]
    use = "alias" if form == "alias" else "X" if t.startswith("X") else name[2:]
    head = "".join('\t"%s"\n' % x for x in std)
    if form == "single":
        return 'import (\n%s)\n\nimport %s\n\n' % (head, t), use
    return "import (\n%s\t%s\n)\n\n" % (head, t), use


@st.composite
def plans(draw):
    n = draw(st.integers(1, 2))
    plugins = []
    for i in range(n):
        plugins.append({"name": ["plug", "other-one"][i] if draw(st.booleans()) else ["Plug.x", "zed"][i], "sub": draw(chains()), "live": draw(st.booleans())})
    groups = []
    for _ in range(draw(st.integers(2, 4))):
        builds = []
        for _ in range(draw(st.sampled_from([1, 1, 1, 2, 3]))):
            builds.append({"plugin": draw(st.integers(0, n - 1)), "edit": draw(st.sampled_from(["none", "root", "sub", "both"]))})
        groups.append({"builds": builds, "commit": draw(st.integers(0, 3)) == 0, "flags": draw(st.sampled_from([[], [], ["-ldflags=-s"]]))})
    return {"plugins": plugins, "groups": groups, "order": draw(st.sampled_from(["built", "built", "reverse"])), "static_before": draw(st.integers(0, 4)) == 0}


def source(ctx, plan, i, version, subversion):
    p = plan["plugins"][i]
    own = "vm/" + p["name"]
    chain = p["sub"]
    std = ["fmt", ctx.hotswap + "/vault"]
    if chain:
        head, use = imports(std, own + "/" + chain[0]["dir"], chain[0]["form"])
    else:
        head, use = "import (\n%s)\n\n" % "".join('\t"%s"\n' % x for x in std), ""
    s = "package plug\n\n" + head
    s += "var n int\n\nconst version = \"p%d-r%d\"\n\n" % (i, version)
    s += core.gosrc_funcs(skip=("InvokeFunc",)).replace("OnInit(v interface{})", "OnInit(_ *vault.Vault)")
    s += "func InvokeFunc(name string, params ...interface{}) (interface{}, error) {\n\tn++\n\treturn fmt.Sprintf(\"%%s/%%d/%%s\", version, n, %s), nil\n}\n" % (
        use + ".Next()" if chain else '"-"')
    if p["live"]:
        s += "func Live_p%d() string { return version }\n" % i
    files = {"main.go": s}
    for k, c in enumerate(chain):
        pn = "q%d" % k if c["dir"].split("/")[-1] in ("main", "v2", "internal") else "".join(x if x.isalnum() else "_" for x in c["dir"].split("/")[-1])
        if k + 1 < len(chain):
            head, use = imports([], own + "/" + chain[k + 1]["dir"], chain[k + 1]["form"])
            t = "package %s\n\n%sfunc Next() string { return %s.Next() }\n" % (pn, head.replace("import (\n)\n\n", ""), use)
        else:
            t = "package %s\n\nimport \"fmt\"\n\nvar n int\n\nfunc Next() string { n++; return fmt.Sprintf(\"s%d/%%d\", n) }\n" % (pn, subversion)
        files["%s/f.go" % c["dir"]] = t
    return files


def run(ctx, plan):
    case = ctx.case_dir()
    try:
        return run_in(ctx, plan, case)
    finally:
        ctx.drop(case)


def run_in(ctx, plan, case):
    ctx.full_mod(case)
    np = len(plan["plugins"])
    root, sub = [1] * np, [1] * np
    for i in range(np):
        for f, t in source(ctx, plan, i, 1, 1).items():
            core.write(os.path.join(case, plan["plugins"][i]["name"], f), t)
    if plan["static_before"]:
        os.makedirs(os.path.join(case, "zstat"))
        r = ctx.hs(["--staticLinking", plan["plugins"][0]["name"], "zstat"], case)
        if r.rc != 0:
            raise Violation("static generation failed\n" + r.text())
    built = []  # (plugin, root version, sub version, file)
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for gi, g in enumerate(plan["groups"]):
            if g["commit"]:
                ctx.git("commit", "-q", "--allow-empty", "-m", "c")
            # the edits of a group are made before its builds, which then run in parallel
            for b in g["builds"]:
                i = b["plugin"]
                if b["edit"] in ("root", "both"):
                    root[i] += 1
                if b["edit"] in ("sub", "both"):
                    sub[i] += 1
                for f, t in source(ctx, plan, i, root[i], sub[i]).items():
                    core.write(os.path.join(case, plan["plugins"][i]["name"], f), t)
            jobs = []
            for bi, b in enumerate(g["builds"]):
                i = b["plugin"]
                out = "zo/%d-%d" % (gi, bi)
                args = [plan["plugins"][i]["name"], out] + (["--"] + g["flags"] if g["flags"] else [])
                jobs.append((i, root[i], sub[i], os.path.join(case, out, plan["plugins"][i]["name"] + ".so"), ex.submit(ctx.hs, args, case)))
            for i, rv, sv, so, fut in jobs:
                r = fut.result()
                if r.rc != 0 or not os.path.exists(so):
                    raise Violation("a valid build failed\n" + r.text())
                built.append((i, rv, sv, so))
    if plan["order"] == "reverse":
        built.reverse()
    script = {"PluginDir": os.path.join(case, "zplugins"), "Loads": [{"Name": plan["plugins"][i]["name"], "File": so} for i, _, _, so in built]}
    os.makedirs(script["PluginDir"])
    core.write(os.path.join(case, "zscript.json"), json.dumps(script))
    x = ctx.run([os.path.join(ctx.shared, "host"), os.path.join(case, "zscript.json")], case, timeout=120, env=dict(ctx.env, TMPDIR=ctx.env["GOTMPDIR"]))
    if x.rc != 0:
        raise Violation("the host process died\n" + x.text())
    steps = json.loads(x.out)
    count = {}    # build -> calls
    cur = {}      # plugin -> build
    managers = []
    for k, (st_, (i, rv, sv, _)) in enumerate(zip(steps, built)):
        name = plan["plugins"][i]["name"]
        if st_["Err"]:
            raise Violation("loading build %d (plugin %s, version %d/%d) failed: %s" % (k, name, rv, sv, st_["Err"]))
        if st_["Details"].get(name) != "ok":
            raise Violation("build %d of %s was not taken as a new version: %s" % (k, name, st_["Details"]))
        cur[i] = k
        managers.append(dict(cur))
        # the host asks every plugin of every manager obtained so far, oldest manager first, plugins by name
        want = []
        for m in managers:
            for j in sorted(m, key=lambda j: plan["plugins"][j]["name"]):
                b = m[j]
                count[b] = count.get(b, 0) + 1
                has_sub = plan["plugins"][j]["sub"]
                want.append("p%d-r%d/%d/%s" % (j, built[b][1], count[b], "s%d/%d" % (built[b][2], count[b]) if has_sub else "-"))
        if st_["Answers"] != want:
            raise Violation("after loading build %d (%s) the plugins answer %s, expected %s" % (k, name, st_["Answers"], want))
        lives = {"Live_p%d" % j: "p%d-r%d" % (j, built[b][1]) for j, b in cur.items() if plan["plugins"][j]["live"]}
        if st_["Lives"] != lives:
            raise Violation("after loading build %d (%s) the live functions are %s, expected %s" % (k, name, st_["Lives"], lives))
    labels = []
    if any(len(g["builds"]) > 1 for g in plan["groups"]):
        labels.append("parallel builds")
    if any(b["edit"] == "none" for g in plan["groups"] for b in g["builds"]):
        labels.append("rebuilt without an edit")
    if any(g["commit"] for g in plan["groups"]):
        labels.append("commit between builds")
    return labels, len(built) >= 2


HOST = '''package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"%(hotswap)s"
	"%(hotswap)s/vault"
)

var _ vault.Vault

type step struct {
	Err     string
	Details map[string]string
	Answers []string
	Lives   map[string]string
}

func main() {
	data, err := ioutil.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var script struct {
		PluginDir string
		Loads     []struct{ Name, File string }
	}
	if err := json.Unmarshal(data, &script); err != nil {
		panic(err)
	}
	stdout := os.Stdout
	os.Stdout = os.Stderr
	sw := hotswap.NewPluginManagerSwapper(script.PluginDir)
	var managers []*hotswap.PluginManager
	var steps []step
	for i, l := range script.Loads {
		s := step{Details: map[string]string{}, Answers: []string{}, Lives: map[string]string{}}
		so, err := ioutil.ReadFile(l.File)
		if err != nil {
			panic(err)
		}
		f := filepath.Join(script.PluginDir, l.Name+".so")
		if err := ioutil.WriteFile(f+".tmp", so, 0644); err != nil {
			panic(err)
		}
		if err := os.Rename(f+".tmp", f); err != nil {
			panic(err)
		}
		var details hotswap.Details
		if i == 0 {
			details, err = sw.LoadPlugins(nil)
		} else {
			details, err = sw.Reload(nil)
		}
		if err != nil {
			s.Err = err.Error()
			steps = append(steps, s)
			break
		}
		for k, v := range details {
			s.Details[strings.TrimSuffix(filepath.Base(k), ".so")] = fmt.Sprint(v)
		}
		managers = append(managers, sw.Current())
		for _, m := range managers {
			ps := append([]*hotswap.Plugin(nil), m.Plugins()...)
			sort.Slice(ps, func(a, b int) bool { return ps[a].Name < ps[b].Name })
			for _, p := range ps {
				x, err := p.InvokeFunc("q")
				s.Answers = append(s.Answers, fmt.Sprint(x))
				if err != nil {
					s.Answers = append(s.Answers, err.Error())
				}
			}
		}
		for n, f := range sw.Current().Vault.LiveFuncs {
			s.Lives[n] = f.(func() string)()
		}
		steps = append(steps, s)
	}
	json.NewEncoder(stdout).Encode(steps)
}
'''


def prepare(tmp, env):
    """Builds the host program once per run."""
    from .. import common
    d = os.path.join(tmp, "hostsrc")
    core.write(os.path.join(d, "go.mod"), common.go_mod_text("vmhost"))
    core.write(os.path.join(d, "go.sum"), open(os.path.join(common.REPO, "go.sum")).read())
    core.write(os.path.join(d, "main.go"), HOST % {"hotswap": core.module_path()})
    e = dict(env, GOFLAGS="")
    p = common.run(["go", "build", "-trimpath", "-o", os.path.join(tmp, "host"), "."], cwd=d, env=e)
    if p.returncode != 0:
        raise common.HarnessError("cannot build the host program:\n" + p.stdout.decode(errors="replace")[-4000:])
