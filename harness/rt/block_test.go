package rt

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"plugin"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/edwingeng/hotswap"
	"github.com/edwingeng/hotswap/vault"
	"github.com/edwingeng/slog"
	"pgregory.net/rapid"
)

// P26: loads and calls never wait for each other. A function of a load, a
// callback, a call of a plugin or an OnFree is held up for good; meanwhile
// everything else has to return.

// BProbe is one call that must return.
type BProbe struct {
	Op  string // "current", "counter", "static", "plugins", "find", "each", "back", "invoke", "lookup", "vault", "other", "option"
	Mgr int    // which of the managers obtained so far, counted from the newest
	Arg int
}

// BStep is one step.
type BStep struct {
	Op       string // "load", "reload", "reloadcb", "put", "del", "busy", "advance", "release"
	Plug     int    // put, del, busy
	Build    int
	Mgr      int
	How      string // busy: "each", "back", "invoke"
	Load     string // busy: the plugin itself starts a load
	Hold     string // kind of the call that is held up
	HoldNth  int    // the n-th call of that kind
	Probes   []BProbe
	Self     []BProbe // made by the function that is held up
	CB0, CB1 *Fault
	Ms       int64
}

// BlockCase is one case.
type BlockCase struct {
	DelayMs int64
	Static  bool
	Ext     bool
	Plugins []CPlug
	Steps   []BStep
}

type hold struct {
	kind    string
	nth     int
	seen    int
	parked  atomic.Bool
	cmd     chan func() // run by the parked goroutine
	release chan struct{}
	gid     atomic.Int64
	stop    bool
}

type block struct {
	c      *BlockCase
	e      *engine
	dir    string
	mu     sync.Mutex
	holds  []*hold // armed
	all    []*hold // parked ones, to be released
	mgrs   []*hotswap.PluginManager
	step   *BStep
	others [2]*hotswap.PluginManagerSwapper // of static and of dynamic plugins
	busy   int
	jobs   []*job
	lab    map[string]int
	msg    string
}

// wall is the real time, also inside a bubble.
func wall() time.Duration {
	var tv syscall.Timeval
	_ = syscall.Gettimeofday(&tv)
	return time.Duration(tv.Nano())
}

func (b *block) hook(ev *Event) {
	if ev.Kind != "invoke" { // see atInvoke
		b.at(ev.Kind, "")
	}
}

// at parks the calling goroutine if a hold is armed for the kind of call.
func (b *block) at(kind, name string) {
	b.mu.Lock()
	var h *hold
	for i, x := range b.holds {
		if x.kind == kind || x.kind == "call" && kind == "invoke" && strings.HasPrefix(name, "busy") {
			if x.seen++; x.seen > x.nth {
				h = x
				b.holds = append(b.holds[:i:i], b.holds[i+1:]...)
				b.all = append(b.all, h)
			}
			break
		}
	}
	b.mu.Unlock()
	if h == nil {
		return
	}
	h.gid.Store(gid())
	h.parked.Store(true)
	for {
		select {
		case f := <-h.cmd:
			f()
		case <-h.release:
			return
		}
	}
}

func (b *block) arm(kind string, nth int) *hold {
	h := &hold{kind: kind, nth: nth, cmd: make(chan func(), 1), release: make(chan struct{})}
	b.mu.Lock()
	b.holds = append(b.holds, h)
	b.mu.Unlock()
	return h
}

// job is a goroutine the harness waits for.
type job struct {
	what string
	gid  atomic.Int64
	done atomic.Bool
	esc  atomic.Value
}

func (b *block) start(what string, f func()) *job {
	j := &job{what: what}
	go func() {
		defer j.done.Store(true)
		j.gid.Store(gid())
		if esc, stack := guard(f); esc != nil {
			j.esc.Store(fmt.Sprintf("%v\n%s", esc, stack))
		}
	}()
	return j
}

var (
	goHead  = regexp.MustCompile(`(?m)^goroutine (\d+)[^\[\n]*\[([^\]]*)\]:`)
	blocked = []string{"sync.", "semacquire", "chan ", "select", "sleep"}
)

// stateOf says how a goroutine waits: "" if it may be running, and whether any
// other goroutine inside hotswap may run.
func stateOf(id int64) (state string, others bool, stack string) {
	for _, g := range strings.Split(bigDump(), "\n\n") {
		m := goHead.FindStringSubmatch(g)
		if m == nil {
			continue
		}
		waits := false
		for _, s := range blocked {
			if strings.HasPrefix(m[2], s) {
				waits = true
			}
		}
		if m[1] == fmt.Sprint(id) {
			stack = g
			if waits {
				state = m[2]
			}
		} else if !waits && strings.Contains(g, "edwingeng/hotswap.") {
			others = true
		}
	}
	return
}

func bigDump() string {
	buf := make([]byte, 1<<18)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			return string(buf[:n])
		}
		buf = make([]byte, 2*len(buf))
	}
}

// await waits until the job ends or h is parked by it; it returns the stack of
// the job if that waits for something that cannot come.
func (b *block) await(j *job, h *hold) string {
	t0 := wall()
	next := t0 + 300*time.Millisecond
	hits, naps := 0, 0
	for k := 0; ; k++ {
		if j.done.Load() || h != nil && h.parked.Load() {
			return ""
		}
		if k < 200 {
			runtime.Gosched()
			continue
		}
		pause(20)
		if now := wall(); now > next {
			next = now + 300*time.Millisecond
			st, others, stack := stateOf(j.gid.Load())
			if st == "" || others || j.done.Load() || h != nil && h.parked.Load() {
				hits = 0
				continue
			}
			if strings.HasPrefix(st, "sleep") && naps < 100 { // only time is missing
				naps++
				time.Sleep(time.Second)
				next = wall()
				continue
			}
			if hits++; hits >= 10 {
				return stack
			}
		}
	}
}

func (b *block) fail(format string, args ...any) {
	if b.msg == "" {
		b.msg = fmt.Sprintf(format, args...)
	}
}

func (b *block) mgr(k int) *hotswap.PluginManager {
	if len(b.mgrs) == 0 {
		return nil
	}
	return b.mgrs[len(b.mgrs)-1-k%len(b.mgrs)]
}

func (b *block) keep(pm *hotswap.PluginManager) {
	if pm == nil {
		return
	}
	b.mu.Lock()
	defer b.mu.Unlock()
	for _, x := range b.mgrs {
		if x == pm {
			return
		}
	}
	b.mgrs = append(b.mgrs, pm)
}

// probe makes one call.
func (b *block) probe(p BProbe) func() {
	e := b.e
	b.mu.Lock()
	pm := b.mgr(p.Mgr)
	b.mu.Unlock()
	var pl *hotswap.Plugin
	if pm != nil {
		if a := pm.Plugins(); len(a) > 0 {
			pl = a[p.Arg%len(a)]
		}
	}
	return func() {
		switch p.Op {
		case "current":
			b.keep(e.sw.Current())
		case "counter":
			_ = e.sw.ReloadCounter()
		case "static":
			_ = e.sw.StaticLinkingMode()
		case "other": // another swapper
			o := b.others[p.Arg%2]
			_, _ = o.LoadPlugins(nil)
			if pm := o.Current(); pm != nil {
				pm.InvokeEach("x")
			}
		}
		if pm == nil {
			return
		}
		switch p.Op {
		case "plugins":
			_ = pm.Plugins()
		case "find":
			_ = pm.FindPlugin(fmt.Sprintf("p%d", p.Arg))
		case "each":
			pm.InvokeEach("probe", p.Arg)
		case "back":
			pm.InvokeEachBackward("probe", p.Arg)
		case "vault":
			n := 0
			for k := range pm.LiveFuncs {
				n += len(k)
			}
			for k := range pm.LiveTypes {
				n += len(k)
			}
			_ = pm.Extension
		}
		if pl == nil {
			return
		}
		switch p.Op {
		case "invoke":
			_, _ = pl.InvokeFunc("probe", p.Arg)
		case "lookup":
			if pl.P != nil {
				var f func() interface{}
				_ = pl.Lookup("Export", &f)
			}
		}
	}
}

// probes makes calls while h is parked.
func (b *block) probes(where string, h *hold, a []BProbe, self []BProbe) {
	for _, p := range a {
		if b.msg != "" {
			return
		}
		j := b.start(p.Op, b.probe(p))
		if st := b.await(j, nil); st != "" {
			b.fail("%s (%s) does not return while %s", p.Op, describe(p), where+":\n"+st)
			b.jobs = append(b.jobs, j)
			return
		}
		b.lab["probes"]++
		if s := j.esc.Load(); s != nil {
			b.fail("%s panics while %s: %s", p.Op, where, s)
		}
	}
	for _, p := range self {
		if b.msg != "" || h == nil || !h.parked.Load() {
			return
		}
		j := &job{what: p.Op}
		j.gid.Store(h.gid.Load())
		f := b.probe(p)
		h.cmd <- func() {
			_, _ = guard(f)
			j.done.Store(true)
		}
		if st := b.await(j, nil); st != "" {
			w.hang("deadlock", fmt.Sprintf("%s (%s), called by a function of the program while %s, never returns:\n%s", p.Op, describe(p), where, st))
		}
		b.lab["self-probes"]++
	}
}

func describe(p BProbe) string {
	switch p.Op {
	case "current", "counter", "static":
		return "of the swapper"
	case "other":
		return "a load by a different swapper"
	}
	return fmt.Sprintf("of manager %d before the newest", p.Mgr)
}

func (b *block) callback(kind string, n, o *hotswap.PluginManager) error {
	b.keep(n)
	b.at(kind, "")
	b.mu.Lock()
	st := b.step
	b.mu.Unlock()
	if st == nil {
		return nil
	}
	f := st.CB0
	if kind == "cb1" {
		f = st.CB1
	}
	if f != nil {
		if f.Kind == "err" {
			return errors.New("FAULT-" + kind)
		}
		raise(*f, "FAULT-"+kind)
	}
	return nil
}

func (b *block) load(op string) {
	switch op {
	case "load":
		_, _ = b.e.sw.LoadPlugins(b)
	case "reload":
		_, _ = b.e.sw.Reload(b)
	default:
		_, _ = b.e.sw.ReloadWithCallback(b, func(n, o *hotswap.PluginManager) error { return b.callback("cb1", n, o) })
	}
	b.keep(b.e.sw.Current())
}

func (b *block) put(p, k int) {
	pl := b.c.Plugins[p%len(b.c.Plugins)]
	bld := pl.Builds[k%len(pl.Builds)]
	data, bld := b.e.register(bld)
	b.e.writeFile(0, pl.Name+".so", "rename", data)
	b.e.fs[0][pl.Name+".so"] = &fileEnt{kind: "file", build: bld, bytes: data}
}

func (b *block) run(base string) {
	e := &engine{sc: &Scenario{}, active: "P26", base: base, start: time.Now()}
	b.e = e
	b.lab = map[string]int{}
	e.reg = map[[32]byte]*Build{}
	e.byPath = map[string]*Inst{}
	e.openNg = map[string]string{}
	e.Stats = &CaseStats{Labels: map[string]int{}}
	e.dirs = []string{filepath.Join(base, "d")}
	e.fs = []map[string]*fileEnt{{}}
	if err := os.MkdirAll(e.dirs[0], 0755); err != nil {
		panic("HARNESS: " + err.Error())
	}
	e.onHook, e.onHookEnd = b.hook, func(*Event) {}
	e.atInvoke = func(name string) { b.at("invoke", name) }
	plugin.FakeOpen = func(name string) (*plugin.Plugin, error) {
		b.at("open", "")
		return e.fakeOpen(name)
	}
	for p := range b.c.Plugins {
		b.put(p, 0)
	}
	delay := time.Duration(b.c.DelayMs) * time.Millisecond
	e.lg = &logger{e}
	opts := []hotswap.Option{hotswap.WithLogger(e.lg), hotswap.WithFreeDelay(delay),
		hotswap.WithReloadCallback(func(n, o *hotswap.PluginManager) error { return b.callback("cb0", n, o) })}
	if b.c.Ext {
		opts = append(opts, hotswap.WithExtensionNewer(func() interface{} { b.at("newext", ""); return 1 }))
	}
	if b.c.Static {
		opts = append(opts, hotswap.WithStaticPlugins(e.staticTable()))
	}
	e.sw = hotswap.NewPluginManagerSwapper(e.dirs[0], opts...)
	d2 := filepath.Join(base, "d2")
	data, _ := e.register(&Build{ID: 1 << 20, Content: Content{Seed: 1 << 20, Size: 16}, Reloadable: true, Export: "nil", Import: Imp{Kind: "nil"}})
	if err := os.MkdirAll(d2, 0755); err != nil {
		panic("HARNESS: " + err.Error())
	}
	if err := os.WriteFile(filepath.Join(d2, "q.so"), data, 0644); err != nil {
		panic("HARNESS: " + err.Error())
	}
	b.others[1] = hotswap.NewPluginManagerSwapper(d2, hotswap.WithLogger(slog.NewDumbLogger()))
	b.others[0] = hotswap.NewPluginManagerSwapper("", hotswap.WithLogger(slog.NewDumbLogger()), hotswap.WithStaticPlugins(plainStatic()))
	for i := range b.c.Steps {
		if b.msg != "" {
			break
		}
		b.do(&b.c.Steps[i])
	}
	// let everything go
	b.mu.Lock()
	b.holds = nil
	all := b.all
	b.mu.Unlock()
	for _, h := range all {
		if !h.stop {
			close(h.release)
			h.stop = true
		}
	}
	for _, j := range b.jobs {
		if st := b.await(j, nil); st != "" {
			w.hang("deadlock", fmt.Sprintf("%s never returns although nothing is held up any more:\n%s", j.what, st))
		}
	}
	time.Sleep(2 * (max(delay, 15*time.Second) + time.Hour))
}

// plainStatic is the plugin table of an unrelated swapper.
func plainStatic() map[string]*hotswap.StaticPlugin {
	return map[string]*hotswap.StaticPlugin{"q": {Name: "q", PluginFuncs: hotswap.NewPluginFuncs(
		func() interface{} { return nil },
		func() map[string]interface{} { return map[string]interface{}{} },
		func() map[string]func() interface{} { return map[string]func() interface{}{} },
		func() interface{} { return nil },
		func(string, ...interface{}) (interface{}, error) { return nil, nil },
		func() {}, func(*vault.Vault) error { return nil }, func(interface{}) error { return nil },
		func() bool { return true })}}
}

func (b *block) free(h *hold) {
	b.mu.Lock()
	for i, x := range b.holds {
		if x == h {
			b.holds = append(b.holds[:i:i], b.holds[i+1:]...)
			break
		}
	}
	b.mu.Unlock()
	if !h.stop {
		close(h.release)
		h.stop = true
	}
}

func (b *block) held() int {
	n := 0
	b.mu.Lock()
	defer b.mu.Unlock()
	for _, h := range b.all {
		if !h.stop {
			n++
		}
	}
	return n
}

func (b *block) do(st *BStep) {
	b.mu.Lock()
	b.step = st
	b.mu.Unlock()
	switch st.Op {
	case "put":
		b.put(st.Plug, st.Build)
	case "del":
		f := b.c.Plugins[st.Plug%len(b.c.Plugins)].Name + ".so"
		_ = os.Remove(filepath.Join(b.e.dirs[0], f))
		delete(b.e.fs[0], f)
	case "advance":
		var h *hold
		if st.Hold == "onfree" {
			h = b.arm("onfree", st.HoldNth)
		}
		time.Sleep(time.Duration(st.Ms) * time.Millisecond)
		synctest.Wait()
		if h != nil && h.parked.Load() {
			b.lab["onfree-held"]++
			b.probes("an OnFree of a replaced manager is running", h, st.Probes, st.Self)
			if st.Load != "" && b.msg == "" { // a load out of OnFree
				j := &job{what: st.Load}
				j.gid.Store(h.gid.Load())
				h.cmd <- func() {
					_, _ = guard(func() { b.load(st.Load) })
					j.done.Store(true)
				}
				if s := b.await(j, nil); s != "" {
					w.hang("deadlock", fmt.Sprintf("a %s called by a delayed OnFree never returns:\n%s", st.Load, s))
				}
				b.lab["load-in-onfree"]++
			}
		} else if h != nil {
			b.free(h)
		}
	case "release":
		b.mu.Lock()
		all := append([]*hold(nil), b.all...)
		b.mu.Unlock()
		for i, h := range all {
			if !h.stop && (st.Plug == 0 || i%2 == st.Plug%2) {
				b.free(h)
			}
		}
		synctest.Wait()
	case "busy": // a plugin is called and does not return
		pm := b.mgr(st.Mgr)
		if pm == nil || len(pm.Plugins()) == 0 {
			return
		}
		h := b.arm("call", st.HoldNth)
		pl := pm.Plugins()[st.Plug%len(pm.Plugins())]
		j := b.start("a call of a plugin", func() {
			switch st.How {
			case "each":
				pm.InvokeEach("busy", 1)
			case "back":
				pm.InvokeEachBackward("busy", 1)
			default:
				_, _ = pl.InvokeFunc("busy", 1)
			}
		})
		b.jobs = append(b.jobs, j)
		if s := b.await(j, h); s != "" {
			b.fail("%s does not return:\n%s", j.what, s)
			b.free(h)
			return
		}
		if !h.parked.Load() {
			b.free(h)
			return
		}
		b.busy++
		b.lab["busy"]++
		b.probes("a call of a plugin is running", h, st.Probes, st.Self)
		if st.Load != "" && b.msg == "" { // the plugin itself reloads
			jl := &job{what: st.Load}
			jl.gid.Store(h.gid.Load())
			h.cmd <- func() {
				_, _ = guard(func() { b.load(st.Load) })
				jl.done.Store(true)
			}
			if s := b.await(jl, nil); s != "" {
				w.hang("deadlock", fmt.Sprintf("a %s called by InvokeFunc of a plugin never returns:\n%s", st.Load, s))
			}
			b.lab["load-in-invoke"]++
		}
	default:
		var h *hold
		if st.Hold != "" {
			h = b.arm(st.Hold, st.HoldNth)
		}
		heldBefore := b.held()
		j := b.start("a "+st.Op, func() { b.load(st.Op) })
		if s := b.await(j, h); s != "" {
			b.fail("a %s does not return while %d calls of plugins are running (or after an earlier load failed):\n%s", st.Op, heldBefore, s)
			b.jobs = append(b.jobs, j)
			if h != nil {
				b.free(h)
			}
			return
		}
		if heldBefore > 0 {
			b.lab["load-during-calls"]++
		}
		if h == nil {
			return
		}
		if h.parked.Load() && !j.done.Load() {
			b.lab["held:"+st.Hold]++
			b.lab["held"]++
			b.probes(fmt.Sprintf("a %s is in %s", st.Op, st.Hold), h, st.Probes, st.Self)
		}
		b.free(h)
		if s := b.await(j, nil); s != "" {
			w.hang("deadlock", fmt.Sprintf("a %s never returns after its %s did:\n%s", st.Op, st.Hold, s))
		}
	}
	if b.msg == "" {
		b.keep(b.e.sw.Current())
	}
}

func genBlock(t *rapid.T) *BlockCase {
	cc := genConc(t)
	c := &BlockCase{DelayMs: cc.DelayMs, Plugins: cc.Plugins, Static: pct(t, 12, "static"), Ext: pct(t, 30, "ext")}
	for _, p := range c.Plugins {
		for _, b := range p.Builds {
			b.Pauses = nil
			if pct(t, 10, "fixed") {
				b.Reloadable = false
			}
		}
	}
	ops := []string{"current", "current", "counter", "static", "plugins", "find", "each", "each", "back", "invoke", "lookup", "vault", "other"}
	probes := func(lo, hi int) (a []BProbe) {
		for i, n := 0, rng(t, lo, hi, "nprobes"); i < n; i++ {
			a = append(a, BProbe{Op: pick(t, ops, "probe"), Mgr: rng(t, 0, 2, "pm"), Arg: rng(t, 0, 4, "pa")})
		}
		return
	}
	loads := []string{"load", "reload", "reload", "reloadcb", "reloadcb"}
	holds := []string{"reloadable", "export", "import", "onload", "oninit", "livefuncs", "livetypes", "cb0", "cb0", "cb1", "cb1", "newext", "open", "log", "onfree"}
	np := len(c.Plugins)
	c.Steps = append(c.Steps, BStep{Op: "load"})
	for i, n := 0, rng(t, 2, 9, "steps"); i < n; i++ {
		s := BStep{}
		switch k := rng(t, 0, 11, "kind"); {
		case k < 3:
			s.Op, s.Plug, s.Build = "put", rng(t, 0, np-1, "plug"), rng(t, 0, 3, "bld")
			c.Steps = append(c.Steps, s)
			continue
		case k < 8:
			s.Op = pick(t, loads, "op")
			if pct(t, 50, "edit") {
				c.Steps = append(c.Steps, BStep{Op: "put", Plug: rng(t, 0, np-1, "eplug"), Build: rng(t, 0, 3, "ebld")})
			}
			if pct(t, 75, "hold") {
				s.Hold, s.HoldNth = pick(t, holds, "hk"), pick(t, []int{0, 0, 0, 1, 2}, "nth")
				s.Probes, s.Self = probes(1, 5), probes(0, 3)
			}
			if pct(t, 12, "cb0f") {
				s.CB0 = &Fault{Kind: pick(t, []string{"err", "panic"}, "k0"), Val: rng(t, 0, 5, "v0")}
			}
			if pct(t, 15, "cb1f") {
				s.CB1 = &Fault{Kind: pick(t, []string{"err", "panic"}, "k1"), Val: rng(t, 0, 5, "v1")}
			}
		case k < 10:
			s.Op, s.Plug, s.Mgr = "busy", rng(t, 0, 4, "bp"), rng(t, 0, 2, "bm")
			s.How = pick(t, []string{"each", "back", "invoke"}, "how")
			s.HoldNth = pick(t, []int{0, 0, 1}, "bnth")
			s.Probes, s.Self = probes(0, 3), probes(0, 2)
			if pct(t, 35, "ownload") {
				s.Load = pick(t, loads, "ol")
			}
		case k < 11:
			s.Op, s.Ms = "advance", pick(t, []int64{100, 15000, 15001, 60001, 70000}, "ms")
			if pct(t, 60, "holdfree") {
				s.Hold = "onfree"
				s.Probes, s.Self = probes(0, 3), probes(0, 2)
				if pct(t, 35, "freeload") {
					s.Load = pick(t, loads, "fl")
				}
			}
		default:
			if pct(t, 50, "del") {
				s.Op, s.Plug = "del", rng(t, 0, np-1, "dp")
			} else {
				s.Op, s.Plug = "release", rng(t, 0, 2, "rel")
			}
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

func runBlock(t *testing.T, c *BlockCase) (string, map[string]int) {
	caseN++
	d := filepath.Join(w.base, fmt.Sprintf("b%d", caseN))
	if err := os.MkdirAll(d, 0755); err != nil {
		panic("HARNESS: " + err.Error())
	}
	defer os.RemoveAll(d)
	b := &block{c: c}
	synctest.Test(t, func(t *testing.T) { b.run(d) })
	return b.msg, b.lab
}

func init() {
	replayers["block"] = func(t *testing.T, fail *Failure) string {
		var c BlockCase
		if err := json.Unmarshal(fail.Case, &c); err != nil {
			t.Fatal(err)
		}
		w.beginCase(&c)
		defer w.endCase()
		msg, _ := runBlock(t, &c)
		return msg
	}
}

func TestBlock(t *testing.T) {
	if w.harness != "block" {
		t.Skip()
	}
	rapid.Check(t, func(rt *rapid.T) {
		c := genBlock(rt)
		if w.over() {
			return
		}
		data := w.beginCase(c)
		msg, labels := runBlock(t, c)
		w.endCase()
		if msg != "" {
			w.last = &Failure{Property: w.prop, Harness: w.harness, Message: msg, Case: data}
			rt.Fatalf("%s: %s", w.prop, msg)
		}
		w.record(data, labels["held"] > 0 && labels["probes"] >= 2 || labels["load-during-calls"] > 0, labels)
	})
}
