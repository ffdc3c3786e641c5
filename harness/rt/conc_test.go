package rt

import (
	"crypto/sha1"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"plugin"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/edwingeng/hotswap"
	"pgregory.net/rapid"
)

// P10: several goroutines load, reload, read and replace plugin files at once.
// The goroutines run truly in parallel (race-detector build); virtual time
// only serves to bring the delayed releases into the picture.

// COp is one operation of one goroutine.
type COp struct {
	Op       string // "load", "reload", "reloadcb", "read", "put", "invoke"
	Plug     int
	Build    int
	N        int
	Pause    int // microseconds before the operation
	CB0, CB1 *Fault
	CBPause  int
	NilData  bool
}

type CPlug struct {
	Name   string
	Builds []*Build
}

type CPhase struct {
	AtFree  bool // start when the delayed releases are due
	Workers [][]COp
}

type ConcCase struct {
	DelayMs int64
	Plugins []CPlug
	Phases  []CPhase
}

type cSpan struct {
	id           int
	op           *COp
	start, end   int64 // API call
	first, last  int64 // hooks
	cbs          []cCB
	err          error
	hooks        []string
	unattributed bool
}

type cCB struct {
	kind     string
	n, o     *hotswap.PluginManager
	at, done int64
}

type cRead struct {
	start, end int64
	pm         *hotswap.PluginManager
	ctr        int64
	problem    string
}

type cPut struct {
	plug       int
	sum        [sha1.Size]byte
	start, end int64
}

type conc struct {
	c     *ConcCase
	e     *engine
	seq   atomic.Int64
	mu    sync.Mutex
	byGid map[int64]*cSpan
	spans []*cSpan
	reads []cRead
	puts  []cPut
	done  sync.Map // *Inst -> true once OnInit returned
	unatt int
	free  atomic.Int64
}

func (c *conc) hookBegin(ev *Event) {
	if ev.Kind == "onfree" {
		c.free.Add(1)
		return
	}
	if forward[ev.Kind] == 0 && ev.Kind != "livefuncs" && ev.Kind != "livetypes" {
		return
	}
	g := gid()
	c.mu.Lock()
	defer c.mu.Unlock()
	s := c.byGid[g]
	if s == nil {
		c.unatt++
		return
	}
	n := c.seq.Add(1)
	if s.first == 0 {
		s.first = n
	}
	s.hooks = append(s.hooks, ev.Kind)
	ev.Gid = int64(s.id)
}

func (c *conc) hookEnd(ev *Event) {
	if ev.Gid == 0 {
		return
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, s := range c.spans {
		if int64(s.id) == ev.Gid {
			s.last = c.seq.Add(1)
		}
	}
}

func (c *conc) callback(kind string, n, o *hotswap.PluginManager) error {
	ev := &Event{Kind: kind}
	c.hookBegin(ev)
	var s *cSpan
	c.mu.Lock()
	for _, x := range c.spans {
		if int64(x.id) == ev.Gid {
			s = x
		}
	}
	at := c.seq.Add(1)
	c.mu.Unlock()
	var f *Fault
	if s != nil {
		pause(s.op.CBPause)
		f = s.op.CB0
		if kind == "cb1" {
			f = s.op.CB1
		}
	}
	c.mu.Lock()
	if s != nil {
		s.cbs = append(s.cbs, cCB{kind, n, o, at, c.seq.Add(1)})
	}
	c.mu.Unlock()
	c.hookEnd(ev)
	if f != nil {
		if f.Kind == "err" {
			return errors.New("FAULT-" + kind)
		}
		raise(*f, "FAULT-"+kind)
	}
	return nil
}

func (c *conc) read() cRead {
	r := cRead{start: c.seq.Add(1)}
	r.pm = c.e.sw.Current()
	r.ctr = c.e.sw.ReloadCounter()
	r.end = c.seq.Add(1)
	if r.pm == nil {
		return r
	}
	pls := r.pm.Plugins()
	if len(pls) != len(c.c.Plugins) {
		r.problem = fmt.Sprintf("has %d of %d plugins", len(pls), len(c.c.Plugins))
		return r
	}
	lf := 0
	for _, pl := range pls {
		in := c.e.instOf(pl)
		if in == nil {
			r.problem = "has a plugin without code"
			return r
		}
		if _, ok := c.done.Load(in); !ok {
			r.problem = fmt.Sprintf("holds %s, whose OnInit has not returned", pl.Name)
			return r
		}
		lf += len(in.B.LF)
		if r.pm.FindPlugin(pl.Name) != pl {
			r.problem = fmt.Sprintf("does not find its own plugin %s", pl.Name)
		}
	}
	if len(r.pm.LiveFuncs) != lf {
		r.problem = fmt.Sprintf("has %d of %d live functions", len(r.pm.LiveFuncs), lf)
	}
	return r
}

func (c *conc) run(base string) (msg string, labels map[string]int) {
	labels = map[string]int{}
	e := &engine{sc: &Scenario{}, active: "P10", base: base, start: time.Now()}
	c.e = e
	e.reg = map[[32]byte]*Build{}
	e.byPath = map[string]*Inst{}
	e.openNg = map[string]string{}
	c.byGid = map[int64]*cSpan{}
	e.onHook, e.onHookEnd = c.hookBegin, func(ev *Event) {
		if ev.Kind == "oninit" && !ev.Failed {
			c.done.Store(ev.In, true)
		}
		c.hookEnd(ev)
	}
	plugin.FakeOpen = e.fakeOpen
	dir := filepath.Join(base, "d")
	_ = os.MkdirAll(dir, 0755)
	put := func(p, b int, who int) {
		pl := c.c.Plugins[p]
		data, _ := e.register(pl.Builds[b%len(pl.Builds)])
		f := filepath.Join(dir, pl.Name+".so")
		tmp := fmt.Sprintf("%s.%d~", f, who)
		r := cPut{plug: p, sum: sha1.Sum(data), start: c.seq.Add(1)}
		defer func() {
			r.end = c.seq.Add(1)
			c.mu.Lock()
			c.puts = append(c.puts, r)
			c.mu.Unlock()
		}()
		if err := os.WriteFile(tmp, data, 0644); err != nil {
			panic("HARNESS: " + err.Error())
		}
		if err := os.Rename(tmp, f); err != nil {
			panic("HARNESS: " + err.Error())
		}
	}
	for p := range c.c.Plugins {
		put(p, 0, 0)
	}
	delay := time.Duration(c.c.DelayMs) * time.Millisecond
	e.lg = &logger{e}
	e.sw = hotswap.NewPluginManagerSwapper(dir, hotswap.WithLogger(e.lg), hotswap.WithFreeDelay(delay),
		hotswap.WithReloadCallback(func(n, o *hotswap.PluginManager) error { return c.callback("cb0", n, o) }))
	id := 0
	var escaped atomic.Value
	for _, ph := range c.c.Phases {
		if ph.AtFree {
			time.Sleep(delay)
		}
		var wg sync.WaitGroup
		gate := make(chan struct{})
		for wi, ops := range ph.Workers {
			id0 := id + 1
			id += len(ops)
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-gate
				me := gid()
				for i := range ops {
					op := &ops[i]
					pause(op.Pause)
					switch op.Op {
					case "put":
						put(op.Plug, op.Build, wi+1)
					case "read":
						for k := 0; k < op.N; k++ {
							r := c.read()
							c.mu.Lock()
							c.reads = append(c.reads, r)
							c.mu.Unlock()
							pause(k % 3)
						}
					case "invoke":
						if pm := e.sw.Current(); pm != nil {
							pm.InvokeEach("tick")
						}
					default:
						s := &cSpan{id: id0 + i, op: op, start: c.seq.Add(1)}
						c.mu.Lock()
						c.spans = append(c.spans, s)
						c.byGid[me] = s
						c.mu.Unlock()
						var err error
						esc, stack := guard(func() {
							var data any = &struct{ N int }{s.id}
							if op.NilData {
								data = nil
							}
							switch op.Op {
							case "load":
								_, err = e.sw.LoadPlugins(data)
							case "reload":
								_, err = e.sw.Reload(data)
							case "reloadcb":
								_, err = e.sw.ReloadWithCallback(data, func(n, o *hotswap.PluginManager) error { return c.callback("cb1", n, o) })
							}
						})
						c.mu.Lock()
						s.err = err
						s.end = c.seq.Add(1)
						delete(c.byGid, me)
						c.mu.Unlock()
						if esc != nil {
							escaped.Store(fmt.Sprintf("%s panicked: %v\n%s", op.Op, esc, stack))
						}
					}
				}
			}()
		}
		close(gate)
		wg.Wait()
	}
	if s := escaped.Load(); s != nil {
		msg = s.(string)
	}
	if msg == "" {
		msg = c.judge(labels)
	}
	time.Sleep(delay + time.Hour)
	labels["frees"] = int(c.free.Load())
	return
}

func (c *conc) judge(labels map[string]int) string {
	e := c.e
	// no two calls' hooks overlap
	var hs []*cSpan
	var failed, okN int
	for _, s := range c.spans {
		if s.first != 0 {
			hs = append(hs, s)
		}
		if s.err != nil {
			failed++
		} else {
			okN++
		}
	}
	labels["loads"] = okN
	labels["failed-loads"] = failed
	sort.Slice(hs, func(i, j int) bool { return hs[i].first < hs[j].first })
	for i := 1; i < len(hs); i++ {
		if hs[i].first < hs[i-1].last {
			return fmt.Sprintf("lifecycle calls of two concurrent loads overlap: %s (%v) is inside the calls of %s (%v)", hs[i].op.Op, hs[i].hooks, hs[i-1].op.Op, hs[i-1].hooks)
		}
	}
	overlapping := 0
	for i, a := range c.spans {
		for _, b := range c.spans[i+1:] {
			if a.start < b.end && b.start < a.end {
				overlapping++
			}
		}
	}
	labels["overlapping-calls"] = overlapping
	// the counter
	var want int64
	for _, s := range c.spans {
		if s.op.Op != "load" && s.err == nil {
			want++
		}
	}
	if got := e.sw.ReloadCounter(); got != want {
		return fmt.Sprintf("after %d successful reloads the counter is %d", want, got)
	}
	for _, r := range c.reads {
		var lo, hi int64
		for _, s := range c.spans {
			if s.op.Op == "load" || s.err != nil {
				continue
			}
			if s.end < r.start {
				lo++
			}
			if s.start < r.end {
				hi++
			}
		}
		if r.ctr < lo || r.ctr > hi {
			return fmt.Sprintf("the counter read %d while between %d and %d reloads had succeeded", r.ctr, lo, hi)
		}
		if r.problem != "" {
			return "a reader obtained a manager that " + r.problem
		}
	}
	if c.unatt > 0 { // hooks called from goroutines the harness cannot place
		labels["unattributed"] = c.unatt
		return ""
	}
	for _, s := range c.spans {
		if s.err == nil && len(s.cbs) == 0 {
			return fmt.Sprintf("a %s returned success without having loaded anything: no callback was called", s.op.Op)
		}
	}
	// the chain of managers
	sort.Slice(hs, func(i, j int) bool { return hs[i].first < hs[j].first })
	var last *hotswap.PluginManager
	idx := map[*hotswap.PluginManager]int{}
	begin := map[int]int64{} // when the callbacks of the manager ended
	ends := map[int]int64{}
	n := 0
	for _, s := range hs {
		for _, cb := range s.cbs {
			if cb.o != last {
				return fmt.Sprintf("%s of a %s was told that manager %p is replaced, but the manager before it is %p", cb.kind, s.op.Op, cb.o, last)
			}
			if cb.n != s.cbs[0].n || cb.n == nil || cb.n == cb.o {
				return fmt.Sprintf("%s of a %s got the new manager %p", cb.kind, s.op.Op, cb.n)
			}
		}
		if s.err != nil {
			continue
		}
		if msg := c.stale(s); msg != "" {
			return msg
		}
		w := 1
		if s.op.Op == "reloadcb" {
			w = 2
		}
		if len(s.cbs) != w {
			return fmt.Sprintf("a successful %s called %d callbacks, want %d", s.op.Op, len(s.cbs), w)
		}
		if _, dup := idx[s.cbs[0].n]; dup {
			return "two loads produced the same manager"
		}
		n++
		last = s.cbs[0].n
		idx[last] = n
		begin[n] = s.cbs[len(s.cbs)-1].done
		ends[n] = s.end
	}
	if cur := e.sw.Current(); cur != last {
		return fmt.Sprintf("the chain of loads ends in manager %p but the current one is %p", last, cur)
	}
	// readers
	type obs struct {
		start, end int64
		i          int
		s          string
	}
	var os []obs
	for _, r := range c.reads {
		i := 0
		if r.pm != nil {
			var ok bool
			if i, ok = idx[r.pm]; !ok {
				return "a reader obtained a manager that no successful load produced"
			}
			if r.end < begin[i] {
				return "a reader obtained a manager before its callbacks had returned"
			}
		}
		os = append(os, obs{r.start, r.end, i, "read"})
	}
	for i, t := range ends {
		os = append(os, obs{t, t, i, "return of the load"})
	}
	sort.Slice(os, func(i, j int) bool { return os[i].start < os[j].start })
	byEnd := append([]obs(nil), os...)
	sort.Slice(byEnd, func(i, j int) bool { return byEnd[i].end < byEnd[j].end })
	max, k := 0, 0
	for _, o := range os {
		for k < len(byEnd) && byEnd[k].end < o.start {
			if byEnd[k].i > max {
				max = byEnd[k].i
			}
			k++
		}
		if o.i < max && o.s == "read" {
			return fmt.Sprintf("a reader obtained manager number %d after number %d had been obtained or its load had returned", o.i, max)
		}
	}
	labels["reads"] = len(c.reads)
	return ""
}

// stale: a load that returned success holds, of every plugin, a content that
// the file had at some time during the call.
func (c *conc) stale(s *cSpan) string {
	if len(s.cbs) == 0 || s.cbs[0].n == nil {
		return ""
	}
	for i, p := range c.c.Plugins {
		pl := s.cbs[0].n.FindPlugin(p.Name)
		if pl == nil {
			continue // readers report it
		}
		ok := false
		for _, a := range c.puts {
			if a.plug != i || a.sum != pl.FileSha1 || a.start > s.end {
				continue
			}
			over := false
			for _, b := range c.puts {
				if b.plug == i && b.start > a.end && b.end < s.start {
					over = true
				}
			}
			ok = ok || !over
		}
		if !ok {
			return fmt.Sprintf("a successful %s holds %s with a content that was not in its file at any time during the call", s.op.Op, p.Name)
		}
	}
	return ""
}

// raceLog returns new race reports that concern hotswap's own code.
var raceSeen int

func raceReports() string {
	p := os.Getenv("HS_RACELOG")
	if p == "" {
		return ""
	}
	data, err := os.ReadFile(fmt.Sprintf("%s.%d", p, os.Getpid()))
	if err != nil || len(data) <= raceSeen {
		return ""
	}
	fresh := string(data[raceSeen:])
	raceSeen = len(data)
	for _, rep := range strings.Split(fresh, "==================") {
		if !strings.Contains(rep, "DATA RACE") {
			continue
		}
		// the two accesses come first; each is a header and its frames
		for k, blk := range strings.Split(rep, "\n\n") {
			if k > 1 {
				break
			}
			if top := topFrame(blk); strings.HasPrefix(top, "github.com/edwingeng/hotswap") {
				return rep
			}
		}
	}
	return ""
}

// topFrame is the innermost frame that is not in the runtime or the standard library.
func topFrame(blk string) string {
	for _, l := range strings.Split(blk, "\n") {
		if !strings.HasPrefix(l, "  ") || strings.HasPrefix(l, "      ") {
			continue
		}
		l = strings.TrimSpace(l)
		if !strings.Contains(l, "(") {
			continue
		}
		first := l
		if i := strings.IndexByte(l, '/'); i >= 0 {
			first = l[:i]
		}
		if strings.Contains(first, ".") && strings.Contains(l, "/") || strings.HasPrefix(l, "hsverif/") {
			return l
		}
	}
	return ""
}

func genConc(t *rapid.T) *ConcCase {
	c := &ConcCase{DelayMs: pick(t, []int64{0, 15000, 60000}, "delay")}
	ids := 0
	np := rng(t, 1, 5, "np")
	for i := 0; i < np; i++ {
		p := CPlug{Name: fmt.Sprintf("p%d", i)}
		dep := i > 0 && pct(t, 30, "dep")
		for k, n := 0, rng(t, 1, 4, "nb"); k < n; k++ {
			ids++
			b := &Build{ID: ids, Content: Content{Seed: ids, Size: 16}, Reloadable: true, Export: "*T0", Import: Imp{Kind: "nil"}}
			if dep {
				b.Import = Imp{Kind: "ptr", Fields: []Fld{{Name: fmt.Sprintf("P%d", rng(t, 0, i-1, "on")), Kind: "any"}}}
			}
			for x := 0; x < rng(t, 0, 3, "nlf"); x++ {
				b.LF = append(b.LF, fmt.Sprintf("live_%d_%d", i, x))
			}
			if k > 0 && pct(t, 12, "fault") {
				h := pick(t, []string{"export", "import", "onload", "oninit", "livefuncs"}, "fh")
				b.setFault(h, Fault{Kind: "panic", Val: rng(t, 0, 5, "fv")})
			}
			if pct(t, 40, "pause") {
				b.Pauses = map[string]int{pick(t, []string{"export", "import", "onload", "oninit", "livefuncs", "onfree"}, "ph"): pick(t, []int{1, 3, 20, 100, 300}, "pus")}
			}
			p.Builds = append(p.Builds, b)
		}
		c.Plugins = append(c.Plugins, p)
	}
	for ph, n := 0, rng(t, 1, 3, "phases"); ph < n; ph++ {
		P := CPhase{AtFree: ph > 0 && pct(t, 70, "atfree")}
		for wi, nw := 0, rng(t, 2, 6, "nw"); wi < nw; wi++ {
			var ops []COp
			role := rng(t, 0, 5, "role")
			for k, no := 0, rng(t, 1, 6, "no"); k < no; k++ {
				op := COp{Pause: pick(t, []int{0, 0, 1, 3, 10, 60}, "opause")}
				switch {
				case role <= 2 || role == 3 && pct(t, 50, "mixl"): // loads
					op.Op = pick(t, []string{"load", "reload", "reload", "reloadcb"}, "op")
					op.CBPause = pick(t, []int{0, 0, 2, 30, 150}, "cbp")
					op.NilData = pct(t, 40, "nildata")
					if pct(t, 12, "cb0f") {
						op.CB0 = &Fault{Kind: pick(t, []string{"err", "panic"}, "k0"), Val: rng(t, 0, 5, "v0")}
					}
					if op.Op == "reloadcb" && pct(t, 15, "cb1f") {
						op.CB1 = &Fault{Kind: pick(t, []string{"err", "panic"}, "k1"), Val: rng(t, 0, 5, "v1")}
					}
				case role == 4:
					op.Op, op.N = "read", rng(t, 5, 40, "nr")
				default:
					op.Op = pick(t, []string{"put", "put", "put", "read", "invoke"}, "op2")
					op.N = rng(t, 1, 10, "nr2")
					op.Plug = rng(t, 0, np-1, "plug")
					op.Build = rng(t, 0, 3, "bld")
				}
				ops = append(ops, op)
			}
			P.Workers = append(P.Workers, ops)
		}
		c.Phases = append(c.Phases, P)
	}
	return c
}

func runConc(t *testing.T, cc *ConcCase) (msg string, labels map[string]int) {
	caseN++
	d := filepath.Join(w.base, fmt.Sprintf("k%d", caseN))
	if err := os.MkdirAll(d, 0755); err != nil {
		panic("HARNESS: " + err.Error())
	}
	defer os.RemoveAll(d)
	synctest.Test(t, func(t *testing.T) {
		c := &conc{c: cc}
		msg, labels = c.run(d)
	})
	if rep := raceReports(); rep != "" && msg == "" {
		msg = "the race detector reports a data race in hotswap:\n" + rep
	}
	return
}

func init() {
	replayers["conc"] = func(t *testing.T, fail *Failure) string {
		var c ConcCase
		if err := json.Unmarshal(fail.Case, &c); err != nil {
			t.Fatal(err)
		}
		w.beginCase(&c)
		defer w.endCase()
		msg, _ := runConc(t, &c)
		return msg
	}
}

func TestConc(t *testing.T) {
	if w.harness != "conc" {
		t.Skip()
	}
	rapid.Check(t, func(rt *rapid.T) {
		c := genConc(rt)
		if w.over() {
			return
		}
		data := w.beginCase(c)
		msg, labels := runConc(t, c)
		w.endCase()
		if msg != "" {
			w.last = &Failure{Property: w.prop, Harness: w.harness, Message: msg, Case: data}
			rt.Fatalf("%s: %s", w.prop, msg)
		}
		w.record(data, labels["overlapping-calls"] > 0 && labels["loads"] >= 2, labels)
	})
}
