package rt

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"plugin"
	"runtime"
	"strings"
	"testing"
	"testing/synctest"
	"time"
	"weak"

	"github.com/edwingeng/hotswap"
	"pgregory.net/rapid"
)

// P27: what a load has replaced, or what a failed load has made, is given back
// in full: no goroutine, no open file, and nothing in the process refers to it.

// LStep is one step.
type LStep struct {
	Op       string // "load", "reload", "reloadcb", "put", "del", "advance", "check", "invoke"
	Plug     int
	Build    int
	Ms       int64
	CB0, CB1 *Fault
	Times    int // loads: how many times
}

// LeakCase is one case.
type LeakCase struct {
	DelayMs int64
	Static  bool
	Plugins []CPlug
	Steps   []LStep
}

// wref is something that has to become unreachable.
type wref struct {
	what string
	gone func() bool
	load int
	mgr  weak.Pointer[hotswap.PluginManager] // the manager it belongs to
	dead bool                                // made by a load of which nothing came
}

type leak struct {
	c     *LeakCase
	e     *engine
	step  *LStep
	refs  []wref
	n     int // loads
	now   []wref
	owner weak.Pointer[hotswap.PluginManager]
	since map[weak.Pointer[hotswap.PluginManager]]time.Time // replaced or dropped at
	lab   map[string]int
	msg   string
	delay time.Duration
}

func watch[T any](l *leak, what string, p *T) {
	if p == nil {
		return
	}
	x := weak.Make(p)
	l.now = append(l.now, wref{what: what, gone: func() bool { return x.Value() == nil }, load: l.n})
}

func (l *leak) watchManager(pm *hotswap.PluginManager) {
	if pm == nil || l.owner.Value() == pm {
		return
	}
	l.owner = weak.Make(pm)
	watch(l, "the manager", pm)
	for _, pl := range pm.Plugins() {
		watch(l, "the record of plugin "+pl.Name, pl)
	}
	if pm.DataBag != nil {
		x := &T0{"bag"}
		pm.DataBag["watch"] = x
		watch(l, "an object in the data bag", x)
	}
}

func (l *leak) callback(kind string, n, o *hotswap.PluginManager) error {
	l.watchManager(n)
	f := l.step.CB0
	if kind == "cb1" {
		f = l.step.CB1
	}
	if f != nil {
		if f.Kind == "err" {
			return errors.New("FAULT-" + kind)
		}
		raise(*f, "FAULT-"+kind)
	}
	return nil
}

// inGoroutine keeps stale stack slots out of the picture.
func inGoroutine(f func()) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	<-done
}

func (l *leak) load(op string) {
	l.n++
	l.now, l.owner = nil, weak.Pointer[hotswap.PluginManager]{}
	var before, after weak.Pointer[hotswap.PluginManager]
	inGoroutine(func() {
		if pm := l.e.sw.Current(); pm != nil {
			before = weak.Make(pm)
		}
		data := &T0{fmt.Sprintf("data%d", l.n)}
		watch(l, "the data given to the load", data)
		var err error
		_, _ = guard(func() {
			switch op {
			case "load":
				_, err = l.e.sw.LoadPlugins(data)
			case "reload":
				_, err = l.e.sw.Reload(data)
			default:
				_, err = l.e.sw.ReloadWithCallback(data, func(n, o *hotswap.PluginManager) error { return l.callback("cb1", n, o) })
			}
		})
		if pm := l.e.sw.Current(); pm != nil {
			if after = weak.Make(pm); after != before {
				l.watchManager(pm)
			}
		}
		if err != nil {
			l.lab["failed-loads"]++
		} else {
			l.lab["loads"]++
		}
	})
	if before != after && before != (weak.Pointer[hotswap.PluginManager]{}) {
		l.since[before] = time.Now()
	}
	for _, r := range l.now {
		r.mgr = l.owner
		if r.dead = before == after; !r.dead && r.mgr != after {
			panic("HARNESS: a load has made a manager that was not seen")
		}
		l.refs = append(l.refs, r)
	}
	l.now = nil
	l.openFiles(op)
}

// openFiles: a load closes every file it opens.
func (l *leak) openFiles(op string) {
	ents, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return
	}
	for _, x := range ents {
		if to, err := os.Readlink("/proc/self/fd/" + x.Name()); err == nil && strings.HasPrefix(to, l.e.base+"/") {
			l.fail("a %s has left the file open: %s", op, strings.TrimPrefix(to, l.e.base))
			return
		}
	}
}

func (l *leak) fail(format string, args ...any) {
	if l.msg == "" {
		l.msg = fmt.Sprintf(format, args...)
	}
}

// check looks for what should be unreachable by now.
func (l *leak) check(when string) {
	synctest.Wait()
	l.e.mu.Lock()
	l.e.trace = nil
	l.e.mu.Unlock()
	var due []wref
	keep := l.refs[:0]
	for _, r := range l.refs {
		t, ok := l.since[r.mgr]
		if (r.dead || ok && time.Since(t) > l.delay+time.Second) && r.load != l.n {
			due = append(due, r)
		} else {
			keep = append(keep, r)
		}
	}
	l.refs = keep
	if len(due) == 0 {
		return
	}
	l.lab["checked"] += len(due)
	var left []string
	for try := 0; try < 4; try++ {
		left = left[:0]
		inGoroutine(runtime.GC)
		for _, r := range due {
			if !r.gone() {
				left = append(left, fmt.Sprintf("%s of load %d", r.what, r.load))
			}
		}
		if len(left) == 0 {
			return
		}
	}
	l.fail("%s: of %d objects whose manager was replaced, freed and given up by the program %d are still referred to after %d loads: %s", when, len(due), len(left), l.n, strings.Join(left[:min(len(left), 12)], ", "))
}

// goroutines lists those that hotswap has started and that are still there.
func goroutines() (a []string) {
	for _, g := range strings.Split(bigDump(), "\n\n") {
		m := goHead.FindStringSubmatch(g)
		if m == nil || !strings.Contains(m[2], "synctest bubble") {
			continue
		}
		if i := strings.LastIndex(g, "created by "); i >= 0 && strings.HasPrefix(g[i:], "created by github.com/edwingeng/hotswap.") {
			a = append(a, g)
		}
	}
	return
}

func (l *leak) run(base string) {
	e := &engine{sc: &Scenario{}, active: "P27", base: base, start: time.Now()}
	l.e = e
	l.lab = map[string]int{}
	l.since = map[weak.Pointer[hotswap.PluginManager]]time.Time{}
	e.reg = map[[32]byte]*Build{}
	e.byPath = map[string]*Inst{}
	e.openNg = map[string]string{}
	e.Stats = &CaseStats{Labels: map[string]int{}}
	e.dirs = []string{filepath.Join(base, "d")}
	e.fs = []map[string]*fileEnt{{}}
	if err := os.MkdirAll(e.dirs[0], 0755); err != nil {
		panic("HARNESS: " + err.Error())
	}
	plugin.FakeOpen = e.fakeOpen
	put := func(p, k int) {
		pl := l.c.Plugins[p%len(l.c.Plugins)]
		data, bld := e.register(pl.Builds[k%len(pl.Builds)])
		e.writeFile(0, pl.Name+".so", "rename", data)
		e.fs[0][pl.Name+".so"] = &fileEnt{kind: "file", build: bld, bytes: data}
	}
	for p := range l.c.Plugins {
		put(p, 0)
	}
	conf := time.Duration(l.c.DelayMs) * time.Millisecond
	l.delay = max(conf, 15*time.Second)
	e.lg = &logger{e}
	opts := []hotswap.Option{hotswap.WithLogger(e.lg), hotswap.WithFreeDelay(conf),
		hotswap.WithReloadCallback(func(n, o *hotswap.PluginManager) error { return l.callback("cb0", n, o) }),
		hotswap.WithExtensionNewer(func() interface{} {
			x := &T0{"ext"}
			watch(l, "the extension", x)
			return x
		})}
	if l.c.Static {
		opts = append(opts, hotswap.WithStaticPlugins(e.staticTable()))
	}
	e.onHook, e.onHookEnd = func(*Event) {}, func(ev *Event) {
		if ev.Kind == "oninit" {
			watch(l, "the vault", ev.Vault)
		}
	}
	e.sw = hotswap.NewPluginManagerSwapper(e.dirs[0], opts...)
	for i := range l.c.Steps {
		if l.msg != "" {
			break
		}
		st := &l.c.Steps[i]
		l.step = st
		switch st.Op {
		case "put":
			put(st.Plug, st.Build)
		case "del":
			f := l.c.Plugins[st.Plug%len(l.c.Plugins)].Name + ".so"
			_ = os.Remove(filepath.Join(e.dirs[0], f))
			delete(e.fs[0], f)
		case "advance":
			time.Sleep(time.Duration(st.Ms) * time.Millisecond)
		case "check":
			time.Sleep(l.delay + 2*time.Second)
			l.check("in the middle")
		case "invoke":
			inGoroutine(func() {
				if pm := e.sw.Current(); pm != nil {
					pm.InvokeEach("tick")
					pm.InvokeEachBackward("tock")
				}
			})
		default:
			for k := 0; k < max(1, st.Times) && l.msg == ""; k++ {
				l.load(st.Op)
				synctest.Wait()
			}
		}
	}
	time.Sleep(l.delay + time.Hour)
	if l.msg == "" {
		l.check("at the end")
	}
	if a := goroutines(); len(a) > 1 || len(a) == 1 && l.n <= 2 {
		w.hang("leak", fmt.Sprintf("after %d loads, an hour after the last delayed release, %d goroutines of hotswap are still there:\n%s", l.n, len(a), a[0]))
	}
	l.lab["managers"] = l.n
}

func genLeak(t *rapid.T) *LeakCase {
	cc := genConc(t)
	c := &LeakCase{DelayMs: cc.DelayMs, Plugins: cc.Plugins, Static: pct(t, 10, "static")}
	for _, p := range c.Plugins {
		for _, b := range p.Builds {
			b.Pauses = nil
			b.Bag = pct(t, 30, "bag")
			if pct(t, 15, "fixed") {
				b.Reloadable = false
			}
			if pct(t, 8, "bad") {
				b.Bad = true
			}
			if pct(t, 5, "freefault") {
				b.setFault("onfree", Fault{Kind: "panic", Val: rng(t, 0, 5, "ffv")})
			}
		}
	}
	np := len(c.Plugins)
	load := func() LStep {
		s := LStep{Op: pick(t, []string{"load", "reload", "reload", "reloadcb"}, "op"), Times: pick(t, []int{1, 1, 1, 1, 2, 5}, "times")}
		if pct(t, 15, "cb0f") {
			s.CB0 = &Fault{Kind: pick(t, []string{"err", "panic"}, "k0"), Val: rng(t, 0, 5, "v0")}
		}
		if pct(t, 15, "cb1f") {
			s.CB1 = &Fault{Kind: pick(t, []string{"err", "panic"}, "k1"), Val: rng(t, 0, 5, "v1")}
		}
		return s
	}
	c.Steps = append(c.Steps, LStep{Op: "load"})
	for i, n := 0, rng(t, 2, 10, "steps"); i < n; i++ {
		switch k := rng(t, 0, 9, "kind"); {
		case k < 3:
			c.Steps = append(c.Steps, LStep{Op: "put", Plug: rng(t, 0, np-1, "plug"), Build: rng(t, 0, 3, "bld")})
		case k < 7:
			c.Steps = append(c.Steps, load())
		case k == 7:
			c.Steps = append(c.Steps, LStep{Op: "advance", Ms: pick(t, []int64{10, 1000, 15001, 60001}, "ms")})
		case k == 8:
			c.Steps = append(c.Steps, LStep{Op: pick(t, []string{"check", "invoke"}, "ci")})
		default:
			c.Steps = append(c.Steps, LStep{Op: "del", Plug: rng(t, 0, np-1, "dp")})
		}
	}
	c.Steps = append(c.Steps, load())
	return c
}

func runLeak(t *testing.T, c *LeakCase) (string, map[string]int) {
	caseN++
	d := filepath.Join(w.base, fmt.Sprintf("l%d", caseN))
	if err := os.MkdirAll(d, 0755); err != nil {
		panic("HARNESS: " + err.Error())
	}
	defer os.RemoveAll(d)
	l := &leak{c: c}
	synctest.Test(t, func(t *testing.T) { l.run(d) })
	return l.msg, l.lab
}

func init() {
	replayers["leak"] = func(t *testing.T, fail *Failure) string {
		var c LeakCase
		if err := json.Unmarshal(fail.Case, &c); err != nil {
			t.Fatal(err)
		}
		w.beginCase(&c)
		defer w.endCase()
		msg, _ := runLeak(t, &c)
		return msg
	}
}

func TestLeak(t *testing.T) {
	if w.harness != "leak" {
		t.Skip()
	}
	rapid.Check(t, func(rt *rapid.T) {
		c := genLeak(rt)
		if w.over() {
			return
		}
		data := w.beginCase(c)
		msg, labels := runLeak(t, c)
		w.endCase()
		if msg != "" {
			w.last = &Failure{Property: w.prop, Harness: w.harness, Message: msg, Case: data}
			rt.Fatalf("%s: %s", w.prop, msg)
		}
		w.record(data, labels["checked"] > 0 && labels["loads"] >= 2, labels)
	})
}
