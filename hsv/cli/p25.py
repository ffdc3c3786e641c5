"""P25: a process with real plugins survives every history of loads."""
import concurrent.futures
import json
import os

from hypothesis import strategies as st

from . import core
from .core import Violation

RULE = ("generated histories of putting, replacing, removing and breaking plugin files compiled by the real compiler, of loads and reloads with generated failures, roll-backs, "
        "retries and waits, in one process whose other goroutines keep calling all plugins of all managers; non-trivial: three or more loads, at least one of which "
        "follows a failed one or goes back to an earlier build")
CASES = {"quick": 34}
BUDGET = {"quick": 110, "thorough": 560}
WORKERS = 12
NAMES = ["alpha", "beta", "gamma"]  # beta imports alpha
VERSIONS = 5
HOOKS = ["Reloadable", "Export", "Import", "OnLoad", "OnInit", "HotswapLiveFuncs", "HotswapLiveTypes"]


@st.composite
def plans(draw):
    steps = []
    last = {}
    long_ = draw(st.integers(0, 11)) == 0

    def put(p, fresh=True):
        v = last.get(p, -1) + 1
        if not fresh or v >= VERSIONS or draw(st.integers(0, 5)) == 0:
            v = draw(st.integers(0, VERSIONS - 1))
        else:
            last[p] = v
        steps.append({"op": "put", "p": p, "v": v, "mode": draw(st.sampled_from(["inplace", "rename", "remove"]))})

    for p in draw(st.sampled_from([[0], [0, 1], [0, 1, 2], [0, 1, 2], [2]])):
        put(p)
    n = draw(st.integers(2, 7))
    for k in range(n):
        ld = {"op": "load", "fault": None, "cb": ""}
        c = draw(st.integers(0, 9))
        if c < 3:
            ld["fault"] = [draw(st.integers(0, 2)), draw(st.sampled_from(HOOKS)), draw(st.booleans())]
        elif c == 3:
            ld["cb"] = draw(st.sampled_from(["err", "panic"]))
        steps.append(ld)
        w = draw(st.integers(0, 9))
        if w < 3:
            steps.append({"op": "sleep", "ms": 1050})
        elif w < 6:
            steps.append({"op": "sleep", "ms": draw(st.integers(1, 300))})
        elif w == 6 and long_:
            steps.append({"op": "sleep", "ms": 17500})
            long_ = False
        e = draw(st.integers(0, 9))
        if e == 0:
            steps.append({"op": "del", "p": draw(st.integers(0, 2))})
        elif e == 1:
            steps.append({"op": "bad", "p": draw(st.integers(0, 2))})
            if draw(st.booleans()):
                steps.append({"op": "load", "fault": None, "cb": ""})
            put(steps[-1].get("p", 0) if steps[-1]["op"] == "bad" else steps[-2]["p"], draw(st.booleans()))
        elif e < 6:
            both = draw(st.booleans())
            put(0)
            if both:
                put(1)
        elif e < 8:
            put(draw(st.integers(0, 2)))
        elif e == 8:
            put(draw(st.integers(0, 2)), False)
    steps.append({"op": "load", "fault": None, "cb": ""})
    return {"steps": steps}


PLUGIN = '''package main

import (
	"demo/ctl"

	"%(hotswap)s/vault"
)

type dep struct{ %(field)s }

var imported dep

func OnLoad(data interface{}) error         { return ctl.Call("%(name)s", "OnLoad") }
func OnInit(v *vault.Vault) error           { return ctl.Call("%(name)s", "OnInit") }
func OnFree()                               {}
func Reloadable() bool                      { ctl.Must("%(name)s", "Reloadable"); return true }
func Export() interface{}                   { ctl.Must("%(name)s", "Export"); return ctl.Answer(who) }
func Import() interface{}                   { ctl.Must("%(name)s", "Import"); return &imported }

func who() string { return "%(name)s%(ver)d" }

func InvokeFunc(name string, params ...interface{}) (interface{}, error) {
	return who() + "<" + %(asked)s, nil
}

type Live_%(name)s struct{ V%(ver)d int }

func HotswapLiveFuncs() map[string]interface{} {
	ctl.Must("%(name)s", "HotswapLiveFuncs")
	return map[string]interface{}{"live_%(name)s": who}
}

func HotswapLiveTypes() map[string]func() interface{} {
	ctl.Must("%(name)s", "HotswapLiveTypes")
	return map[string]func() interface{}{"Live_%(name)s": func() interface{} { return &Live_%(name)s{} }}
}
'''

CTL = '''// Package ctl is what the host and the plugins share.
package ctl

import (
	"errors"
	"sync"
)

type Answer func() string

var mu sync.Mutex
var failing, hook string
var panics bool

func Fail(name, h string, p bool) {
	mu.Lock()
	failing, hook, panics = name, h, p
	mu.Unlock()
}

func Call(name, h string) error {
	mu.Lock()
	f, p := failing == name && hook == h, panics
	mu.Unlock()
	if f && p {
		panic("generated panic")
	}
	if f {
		return errors.New("generated failure")
	}
	return nil
}

func Must(name, h string) {
	if err := Call(name, h); err != nil {
		panic(err)
	}
}
'''

HOST = '''package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sync"
	"sync/atomic"
	"time"

	"demo/ctl"

	"%(hotswap)s"
)

type step struct {
	Op, Mode, Cb string
	P, V, Ms     int
	Fault        []interface{}
}

type report struct {
	Err     string
	Nil     bool
	T0, T1  float64
	Details map[string]string
	Answers []map[string]string // of every manager obtained so far
	Lives   map[string]string   // live functions and types of the current manager
}

var names = []string{"alpha", "beta", "gamma"}

func main() {
	var script struct {
		So, Dir string
		Steps   []step
	}
	data, err := os.ReadFile(os.Args[1])
	must(err)
	must(json.Unmarshal(data, &script))
	stdout := os.Stdout
	os.Stdout = os.Stderr
	start := time.Now()
	sw := hotswap.NewPluginManagerSwapper(script.Dir, hotswap.WithFreeDelay(time.Second))
	var mu sync.Mutex
	var managers []*hotswap.PluginManager
	var stop int32
	var wg sync.WaitGroup
	for g := 0; g < 2; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for atomic.LoadInt32(&stop) == 0 {
				if pm := sw.Current(); pm != nil {
					pm.InvokeEach("q")
					pm.InvokeEachBackward("q")
				}
				mu.Lock()
				all := append([]*hotswap.PluginManager(nil), managers...)
				mu.Unlock()
				for _, pm := range all {
					pm.InvokeEach("q")
					for _, f := range pm.Vault.LiveFuncs {
						_ = f.(func() string)()
					}
				}
				time.Sleep(200 * time.Microsecond)
			}
		}()
	}
	var out []report
	loaded := false
	for _, s := range script.Steps {
		f := filepath.Join(script.Dir, names[s.P]+".so")
		switch s.Op {
		case "put":
			so, err := os.ReadFile(filepath.Join(script.So, fmt.Sprintf("%%s%%d.so", names[s.P], s.V)))
			must(err)
			write(f, so, s.Mode)
		case "bad":
			write(f, bytes.Repeat([]byte("not a plugin "), 200), "rename")
		case "del":
			_ = os.Remove(f)
		case "sleep":
			time.Sleep(time.Duration(s.Ms) * time.Millisecond)
		case "load":
			if s.Fault != nil {
				ctl.Fail(names[int(s.Fault[0].(float64))], s.Fault[1].(string), s.Fault[2].(bool))
			}
			r := report{T0: time.Since(start).Seconds(), Details: map[string]string{}, Lives: map[string]string{}}
			var d hotswap.Details
			var err error
			old := sw.Current()
			if !loaded && s.Cb == "" {
				d, err = sw.LoadPlugins(nil)
			} else if s.Cb == "" {
				d, err = sw.Reload(nil)
			} else {
				d, err = sw.ReloadWithCallback(nil, func(a, b *hotswap.PluginManager) error {
					if s.Cb == "panic" {
						panic("generated panic")
					}
					return errors.New("generated failure")
				})
			}
			r.T1 = time.Since(start).Seconds()
			ctl.Fail("", "", false)
			if err != nil {
				r.Err = err.Error()
				if sw.Current() != old {
					r.Err = "CHANGED " + r.Err
				}
			} else if d != nil {
				loaded = true
				for k, v := range d {
					r.Details[filepath.Base(k)] = v
				}
				mu.Lock()
				managers = append(managers, sw.Current())
				mu.Unlock()
			} else {
				r.Nil = true
			}
			for _, pm := range managers {
				m := map[string]string{}
				for _, p := range pm.Plugins() {
					x, err := p.InvokeFunc("q")
					m[p.Name] = fmt.Sprint(x)
					if err != nil {
						m[p.Name] = err.Error()
					}
				}
				r.Answers = append(r.Answers, m)
			}
			if pm := sw.Current(); pm != nil {
				for n, f := range pm.Vault.LiveFuncs {
					r.Lives[n] = f.(func() string)()
				}
				for n, f := range pm.Vault.LiveTypes {
					r.Lives[n] = reflect.TypeOf(f()).Elem().Field(0).Name
				}
			}
			out = append(out, r)
		}
	}
	atomic.StoreInt32(&stop, 1)
	wg.Wait()
	must(json.NewEncoder(stdout).Encode(out))
}

func write(f string, data []byte, mode string) {
	switch mode {
	case "rename":
		must(os.WriteFile(f+".new", data, 0644))
		must(os.Rename(f+".new", f))
	case "remove":
		_ = os.Remove(f)
		must(os.WriteFile(f, data, 0644))
	default:
		must(os.WriteFile(f, data, 0644))
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}
'''


def prepare(tmp, env):
    """Builds the host and every version of every plugin once per run."""
    from .. import common
    d = os.path.join(tmp, "demo25")
    core.write(os.path.join(d, "go.mod"), common.go_mod_text("demo"))
    core.write(os.path.join(d, "go.sum"), open(os.path.join(common.REPO, "go.sum")).read())
    core.write(os.path.join(d, "ctl/ctl.go"), CTL)
    core.write(os.path.join(d, "main.go"), HOST % {"hotswap": core.module_path()})
    jobs = [["go", "build", "-trimpath", "-o", os.path.join(tmp, "host25"), "."]]
    for n in NAMES:
        for v in range(VERSIONS):
            core.write(os.path.join(d, "p", "%s%d" % (n, v), "main.go"), PLUGIN % {
                "hotswap": core.module_path(), "name": n, "ver": v, "field": "Alpha ctl.Answer" if n == "beta" else "",
                "asked": "imported.Alpha()" if n == "beta" else '""'})
            jobs.append(["go", "build", "-trimpath", "-buildmode=plugin", "-o", os.path.join(tmp, "so25", "%s%d.so" % (n, v)), "./p/%s%d" % (n, v)])
    os.makedirs(os.path.join(tmp, "so25"))
    e = dict(env, GOFLAGS="")

    def build(cmd):
        p = common.run(cmd, cwd=d, env=e)
        if p.returncode != 0:
            raise common.HarnessError("cannot build %s:\n%s" % (cmd[-1], p.stdout.decode(errors="replace")[-4000:]))
    build(jobs[0])
    build(jobs[1])
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(build, jobs[2:]))


def run(ctx, plan):
    case = ctx.case_dir()
    try:
        return run_in(ctx, plan, case)
    finally:
        ctx.drop(case)


FREED = 15 + 1.5  # by then OnFree has been called


def run_in(ctx, plan, case):
    pdir = os.path.join(case, "plugins")
    os.makedirs(pdir)
    core.write(os.path.join(case, "script.json"), json.dumps({"So": os.path.join(ctx.shared, "so25"), "Dir": pdir, "Steps": plan["steps"]}))
    x = ctx.run([os.path.join(ctx.shared, "host25"), os.path.join(case, "script.json")], case, timeout=300)
    if x.rc != 0 or x.timed_out:
        if "cannot allocate memory" in x.text() or "no space left" in x.text():
            raise core.NoVerdict("out of resources:\n" + x.text())
        err = x.err if len(x.err) < 6000 else x.err[:3000] + "\n...\n" + x.err[-3000:]
        raise Violation("the process %s\n%s" % ("did not come to an end" if x.timed_out else "died (%s)" % x.rc, err))
    reports = iter([dict(r, Answers=r["Answers"] or []) for r in json.loads(x.out) or []])
    disk = {}      # plugin -> version or "bad"
    managers = []  # {plugin: [version, wired alpha version]}
    replaced = []  # when the manager was replaced
    tries = {}     # (plugin, version) -> number of loads that may have opened it
    labels = set()
    loads = hard = 0
    failed = False
    for k, s in enumerate(plan["steps"]):
        if s["op"] == "put":
            disk[s["p"]] = s["v"]
        elif s["op"] == "bad":
            disk[s["p"]] = "bad"
        elif s["op"] == "del":
            disk.pop(s["p"], None)
        if s["op"] != "load":
            continue
        r = next(reports)
        loads += 1
        cur = managers[-1] if managers else {}
        what = "step %d (load of %s over %s)" % (k, {NAMES[p]: v for p, v in sorted(disk.items())}, {NAMES[p]: v[0] for p, v in sorted(cur.items())})
        fresh = {p for p in disk if p not in cur or cur[p][0] != disk[p]}
        must = ""
        if "bad" in disk.values():
            must = "a broken file"
        elif 1 in disk and 0 not in disk:
            must = "a missing dependency"
        elif 1 in disk and 1 not in fresh and 0 in fresh:
            must = "a rebuilt dependency of a plugin that was not"
        f = s["fault"]
        if f and f[0] in fresh:
            must = must or "a failing " + f[1]
        if f and f[1] in ("HotswapLiveFuncs", "HotswapLiveTypes") and f[0] in disk:
            must = must or "a failing " + f[1]
        if s["cb"] and disk:
            must = must or "a failing callback"
        may = ""
        for p in fresh:
            for i, m in enumerate(managers):
                if p in m and m[p][0] == disk[p] and not (replaced[i] is not None and r["T0"] - replaced[i] > FREED):
                    may = "the build of %s is still in use" % NAMES[p]
            if (p, disk[p]) in tries:
                hard += 1
                labels.add("a build loaded again")
        if failed:
            hard += 1
            labels.add("after a failed load")
        for p in fresh:
            tries[p, disk[p]] = tries.get((p, disk[p]), 0) + 1
        if not disk:
            if not r["Nil"]:
                raise Violation("%s: an empty directory gave (%s, %r)" % (what, r["Details"], r["Err"]))
        elif r["Err"].startswith("CHANGED"):
            raise Violation("%s failed and changed the current manager: %s" % (what, r["Err"]))
        elif r["Err"]:
            if not must and not may:
                raise Violation("%s was refused although nothing is wrong with it: %s" % (what, r["Err"]))
            labels.add("refused: " + (must or "build in use"))
            failed = True
        else:
            if must:
                raise Violation("%s succeeded in spite of %s" % (what, must))
            if may:
                labels.add("accepted: build in use")
            want = {NAMES[p] + ".so": "ok" if p in fresh else "unchanged" for p in disk}
            if r["Details"] != want:
                raise Violation("%s: details are %s, expected %s" % (what, r["Details"], want))
            failed = False
            m = {p: ([disk[p], disk.get(0)] if p in fresh else cur[p]) for p in disk}
            if managers:
                replaced[-1] = r["T1"]
            managers.append(m)
            replaced.append(None)
        if len(r["Answers"]) != len(managers):
            raise Violation("%s: %d managers, expected %d" % (what, len(r["Answers"]), len(managers)))
        for i, (m, got) in enumerate(zip(managers, r["Answers"])):
            if set(got) != {NAMES[p] for p in m}:
                raise Violation("%s: manager %d has %s, expected %s" % (what, i, sorted(got), sorted(NAMES[p] for p in m)))
            for p, (v, dv) in m.items():
                w = "%s%d<" % (NAMES[p], v)
                if p == 1:
                    w += "alpha%d" % dv
                g = got[NAMES[p]]
                # a build that was loaded several times has been wired several times
                if g != w and not (p == 1 and tries[p, v] > 1 and g.startswith("%s%d<alpha" % (NAMES[p], v))):
                    raise Violation("%s: in manager %d plugin %s answers %r, expected %r" % (what, i, NAMES[p], g, w))
        lives = {}
        for p, (v, _) in (managers[-1].items() if managers else ()):
            lives["live_" + NAMES[p]] = "%s%d" % (NAMES[p], v)
            lives["Live_" + NAMES[p]] = "V%d" % v
        if r["Lives"] != lives:
            raise Violation("%s: the vault holds %s, expected %s" % (what, r["Lives"], lives))
    if any(s.get("ms", 0) > 10000 for s in plan["steps"]):
        labels.add("after OnFree")
    return sorted(labels), loads >= 3 and hard > 0
