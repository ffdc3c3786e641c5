package rt

import (
	"fmt"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// genStatic draws a scenario for static linking: a set of plugins, perhaps
// with mistakes in it, loaded once (again only after a failure), with reload
// attempts and uses of the manager around it.
func genStatic(t *rapid.T) *Scenario {
	p := base()
	p.MaxPlugins, p.DepPct, p.Live, p.Ignored, p.NilExport = 9, 85, 3, 35, 20
	p.NonReload, p.OddNames, p.CB, p.Sleep, p.Find, p.Invoke = 25, 30, 50, 8, 40, 70
	p.InvokeFault, p.Pollute = 25, 10
	p.Dense = pct(t, 60, "densegraph")
	sc := &Scenario{Profile: "P13"}
	sc.Cfg.Static = true
	sc.Cfg.Dirs = 1
	sc.Cfg.Ext = pct(t, 50, "ext")
	sc.Cfg.CB = pct(t, p.CB, "cb")
	g := &gen{t: t, p: p, sc: sc}
	n := rng(t, 1, p.MaxPlugins, "nplugins")
	for i := 0; i < n; i++ {
		g.addPlugin()
	}
	if pct(t, 35, "wl") {
		for _, x := range g.pl {
			if pct(t, 75, "wlin") {
				sc.Cfg.Whitelist = append(sc.Cfg.Whitelist, x.name)
				if pct(t, 15, "wldup") {
					sc.Cfg.Whitelist = append(sc.Cfg.Whitelist, x.name)
				}
			}
		}
		if pct(t, 15, "wlmissing") {
			m := "nobody"
			if x := g.pl[0]; pct(t, 50, "wlcase") {
				if m = strings.ToUpper(x.name); m == x.name {
					m = strings.ToLower(x.name)
				}
				if m == x.name {
					m = "nobody"
				}
			}
			sc.Cfg.Whitelist = append(sc.Cfg.Whitelist, m)
		}
	}
	all := map[int]bool{}
	for i := range g.pl {
		all[i] = true
	}
	g.rebuild(all, false)
	var load Step
	if pct(t, 55, "mistakes") {
		g.p.Kinds = []string{"fault", "fault", "fault", "fault", "missing", "unknown", "cycle", "selfdep", "mismatch", "impkind", "anon", "nonrel", "duplive", "livenil", "cb", "cb"}
		for k, n := 0, rng(t, 1, 2, "nmist"); k < n; k++ {
			m, _ := g.mistake()
			if m != nil {
				load = *m
			}
		}
		if load.CB1 != nil { // the configured callback is the only one a load has
			load.CB0, load.CB1 = load.CB1, nil
			sc.Cfg.CB = true
		}
	}
	if pct(t, 8, "casedup") {
		x := g.pl[rng(t, 0, len(g.pl)-1, "cd")]
		alt := strings.ToUpper(x.name)
		if alt == x.name {
			alt = strings.ToLower(x.name)
		}
		if alt != x.name && strings.ToLower(alt) == strings.ToLower(x.name) {
			g.ids++
			g.add(Step{Op: "put", File: alt + ".so", Build: &Build{ID: g.ids, Content: g.newContent(), Reloadable: true, Export: "nil", Import: Imp{Kind: "nil"}}})
		}
	}
	reload := func(label string) {
		if pct(t, 35, label) {
			g.add(Step{Op: pick(t, []string{"reload", "reloadcb"}, "rop")})
		}
	}
	reload("reload0")
	load.Op = "load"
	load.NilData = pct(t, 20, "nildata")
	g.add(load)
	reload("reload1")
	if pct(t, 40, "retry") { // skipped by the engine when the first one succeeded
		again := Step{Op: "load", NilData: pct(t, 20, "nildata2")}
		if pct(t, 30, "samefault") {
			again = load
		}
		g.add(again)
	}
	g.post()
	reload("reload2")
	g.advance()
	g.post()
	return sc
}

// twin is the same scenario with the plugins in files.
func (sc *Scenario) twin() *Scenario {
	d := *sc
	d.Cfg.Static = false
	d.Steps = nil
	for _, st := range sc.Steps {
		if st.Op != "reload" && st.Op != "reloadcb" {
			d.Steps = append(d.Steps, st)
		}
	}
	return &d
}

// summary is what a run of a scenario came to, in a form that does not depend
// on map order and is the same for both ways of loading.
func (e *engine) summary() string {
	var b strings.Builder
	for _, o := range e.outcomes {
		fmt.Fprintf(&b, "load: %s\n", o)
	}
	if e.sw == nil || e.sw.Current() == nil {
		b.WriteString("no manager\n")
		return b.String()
	}
	pm := e.sw.Current()
	var rows []string
	for _, pl := range pm.Plugins() {
		in := e.instOf(pl)
		id := -1
		if in != nil {
			id = in.B.ID
		}
		deps := map[string]bool{}
		for _, d := range pl.Deps {
			deps[key(d)] = true
		}
		n := map[string]int{}
		e.mu.Lock()
		for _, ev := range e.trace {
			if ev.In != nil && ev.In == in && ev.Att == e.okAtt {
				n[ev.Kind]++
			}
		}
		e.mu.Unlock()
		rows = append(rows, fmt.Sprintf("plugin %s build %d deps %v reloadable %d export %d import %d onload %d oninit %d onfree %d", pl.Name, id,
			keysOf(deps), n["reloadable"], n["export"], n["import"], n["onload"], n["oninit"], n["onfree"]))
	}
	sort.Strings(rows)
	b.WriteString(strings.Join(rows, "\n"))
	var ks []string
	for k := range pm.LiveFuncs {
		ks = append(ks, "func "+k)
	}
	for k := range pm.LiveTypes {
		ks = append(ks, "type "+k)
	}
	sort.Strings(ks)
	fmt.Fprintf(&b, "\nvault %v extension %v\n", ks, pm.Extension != nil)
	return b.String()
}
