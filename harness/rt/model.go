package rt

import (
	"bytes"
	"crypto/sha1"
	"fmt"
	"os"
	"path/filepath"
	"plugin"
	"reflect"
	"sort"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/edwingeng/hotswap"
)

// lent is one successful load of a plugin: the unit that is carried over,
// superseded and freed.
type lent struct {
	key     string
	name    string
	in      *Inst
	b       *Build
	bytes   []byte
	file    string
	deps    []*lent
	depKeys []string
	att     int
	mgrs    []*mgr
	freed   bool
	freedAt time.Duration
	pl      *hotswap.Plugin // as seen in the manager that loaded it
}

type plSnap struct {
	pl   *hotswap.Plugin
	name string
	file string
	sum  [20]byte
	when time.Time
	note string
	p    *plugin.Plugin
	deps string
}

type snap struct {
	pls   []plSnap
	funcs map[string]string
	types map[string]string
	bag   map[string]any
	ext   any
}

type mgr struct {
	n          int
	pm         *hotswap.PluginManager
	entries    map[string]*lent
	snap       snap
	superseded bool
	supAt      time.Duration
}

type model struct {
	e        *engine
	delay    time.Duration
	mgrs     []*mgr
	cur      *mgr
	lents    []*lent
	step     *Step
	reloads  int64
	seen     int // consumed trace events
	everBad  bool
	loadFrom time.Time
}

func isExportedName(name string) bool {
	r, _ := utf8.DecodeRuneInString(name)
	return unicode.IsUpper(r)
}

func key(name string) string { return strings.ToLower(name) }

// wiredFields returns the fields that name dependencies.
func wiredFields(imp Imp) []Fld {
	if imp.Kind != "ptr" {
		return nil
	}
	var a []Fld
	for _, f := range imp.Fields {
		if isExportedName(f.Name) && reflect.StructTag(f.Tag).Get("hotswap") != "-" {
			a = append(a, f)
		}
	}
	return a
}

// ---- prediction ----------------------------------------------------------

type reason struct {
	phase int // 0 scan, 1 load, 2 deps, 3 onload, 4 vault, 5 oninit, 6 cb0, 7 cb1
	why   string
	props []string
}

type pentry struct {
	key, name string
	note      string // "", "unchanged", "not reloadable"
	old       *lent
	b         *Build
	bytes     []byte
	deps      []string
}

type pred struct {
	class   string // "nilnil", "err", "ok"
	reasons []reason
	phase   int
	entries map[string]*pentry
	fresh   map[*Build]*pentry
	lf, lt  []string
}

func (p *pred) fail(phase int, why string, props ...string) {
	p.reasons = append(p.reasons, reason{phase, why, props})
}

func (p *pred) phase0() int {
	ph := 99
	for _, r := range p.reasons {
		if r.phase < ph {
			ph = r.phase
		}
	}
	return ph
}

func (p *pred) why() string {
	best := reason{phase: 99}
	for _, r := range p.reasons {
		if r.phase < best.phase {
			best = r
		}
	}
	return best.why
}

func contains(a []string, s string) bool {
	for _, v := range a {
		if v == s {
			return true
		}
	}
	return false
}

// buildInUse: a build to be loaded is still used by a plugin that was loaded
// earlier, or is to be loaded twice. The runtime cannot load it another time.
func (m *model) buildInUse(p *pred) bool {
	seen := map[[20]byte]bool{}
	for _, x := range m.lents {
		if !x.freed || x.freedAt+time.Duration(x.b.SleepMs["onfree"])*time.Millisecond >= m.e.now() {
			seen[x.in.Sum] = true
		}
	}
	for _, pe := range p.entries {
		if pe.old == nil {
			h := sha1.Sum(pe.bytes)
			if seen[h] {
				return true
			}
			seen[h] = true
		}
	}
	return false
}

func (m *model) predict(st *Step) (p *pred) {
	e := m.e
	p = &pred{entries: map[string]*pentry{}, fresh: map[*Build]*pentry{}}
	defer func() {
		switch {
		case p.class != "":
		case len(p.reasons) > 0:
			p.class = "err"
			p.phase = 99
			for _, r := range p.reasons {
				if r.phase < p.phase {
					p.phase = r.phase
				}
			}
		default:
			p.class = "ok"
		}
	}()
	if g := e.gone[e.curDir]; g != "" {
		p.fail(0, "dir-"+g, "P11", "P01")
		return
	}
	var files []string
	wl := e.sc.Cfg.Whitelist
	found := map[string]bool{}
	for n, ent := range e.fs[e.curDir] {
		if ent.kind == "dir" || !strings.HasSuffix(n, ".so") {
			continue
		}
		name := strings.TrimSuffix(n, ".so")
		if len(wl) > 0 {
			if !contains(wl, name) {
				continue
			}
			found[name] = true
		}
		files = append(files, n)
	}
	for _, w := range wl {
		if !found[w] {
			p.fail(0, "whitelist-missing", "P11", "P01")
			return
		}
	}
	if len(files) == 0 {
		p.class = "nilnil"
		return
	}
	sort.Strings(files)
	seen := map[string]bool{}
	for _, f := range files {
		k := key(strings.TrimSuffix(f, ".so"))
		if seen[k] {
			p.fail(0, "duplicate-name", "P11", "P01")
		}
		seen[k] = true
	}
	for _, f := range files {
		if e.fs[e.curDir][f].kind == "dangling" {
			p.fail(0, "unreadable", "P01")
		}
	}
	if len(p.reasons) > 0 {
		return
	}
	for _, f := range files {
		ent := e.fs[e.curDir][f]
		name := strings.TrimSuffix(f, ".so")
		pe := &pentry{key: key(name), name: name, b: ent.build, bytes: ent.bytes}
		if m.cur != nil {
			if old := m.cur.entries[pe.key]; old != nil {
				if !old.b.Reloadable {
					pe.note, pe.old = "not reloadable", old
				} else if bytes.Equal(old.bytes, ent.bytes) {
					pe.note, pe.old = "unchanged", old
				}
			}
		}
		if pe.old != nil {
			pe.b, pe.bytes = pe.old.b, pe.old.bytes
			pe.deps = pe.old.depKeys
		} else if pe.b != nil {
			p.fresh[pe.b] = pe
		}
		p.entries[pe.key] = pe
	}
	for _, pe := range p.entries {
		if pe.old != nil {
			continue
		}
		b := pe.b
		if b == nil || b.Bad {
			p.fail(1, "bad-file", "P01")
			continue
		}
		if len(b.Missing) > 0 {
			p.fail(1, "missing-function", "P01")
		}
		for _, s := range b.Wrong {
			if !contains(b.Missing, s) {
				p.fail(1, "wrong-function-type", "P01")
			}
		}
		for _, h := range []string{"reloadable", "export"} {
			if _, ok := b.Faults[h]; ok {
				p.fail(1, "fault-"+h, "P01", "P02")
			}
		}
		if _, ok := b.Faults["import"]; ok {
			p.fail(2, "fault-import", "P01", "P02")
		}
	}
	for _, r := range p.reasons {
		if r.phase == 1 {
			return // the rest is not reached
		}
	}
	m.predictDeps(p)
	lf, lt := map[string]int{}, map[string]int{}
	for _, pe := range p.entries {
		b := pe.b
		if pe.old == nil {
			if _, ok := b.Faults["onload"]; ok {
				p.fail(3, "fault-onload", "P01", "P02")
			}
			if _, ok := b.Faults["oninit"]; ok {
				p.fail(5, "fault-oninit", "P01", "P02")
			}
		}
		for _, h := range []string{"livefuncs", "livetypes"} {
			if _, ok := b.Faults[h]; ok {
				p.fail(4, "fault-"+h, "P01")
			}
		}
		if b.LFNil {
			p.fail(4, "live-functions-nil", "P08")
		}
		if b.LTNil {
			p.fail(4, "live-types-nil", "P08")
		}
		if !b.LFNil {
			for _, n := range b.LF {
				lf[n]++
			}
		}
		if !b.LTNil {
			for _, n := range b.LT {
				lt[n]++
			}
		}
	}
	for n, c := range lf {
		if c > 1 {
			p.fail(4, "duplicate-live-function", "P08", "P01")
		}
		p.lf = append(p.lf, n)
	}
	for n, c := range lt {
		if c > 1 {
			p.fail(4, "duplicate-live-type", "P08", "P01")
		}
		p.lt = append(p.lt, n)
	}
	sort.Strings(p.lf)
	sort.Strings(p.lt)
	if e.sc.Cfg.CB && st.CB0 != nil {
		p.fail(6, "fault-cb0", "P01", "P02")
	}
	if st.Op == "reloadcb" && st.CB1 != nil {
		p.fail(7, "fault-cb1", "P01", "P02")
	}
	return
}

func (m *model) predictDeps(p *pred) {
	for _, pe := range p.entries {
		if pe.old != nil {
			for _, d := range pe.deps {
				de := p.entries[d]
				switch {
				case de == nil:
					p.fail(2, "dependency-removed", "P05")
				case de.old == nil:
					p.fail(2, "dependency-rebuilt", "P05")
				}
			}
			continue
		}
		imp := pe.b.Import
		switch imp.Kind {
		case "nil", "typednil":
			continue
		case "ptr":
		default:
			p.fail(2, "import-not-struct-pointer", "P05")
			continue
		}
		for _, f := range wiredFields(imp) {
			if f.Anon {
				p.fail(2, "embedded-field", "P05")
				continue
			}
			k := key(f.Name)
			de := p.entries[k]
			if de == nil {
				p.fail(2, "unknown-dependency", "P05")
				continue
			}
			if !pe.b.Reloadable && de.b.Reloadable {
				p.fail(2, "non-reloadable-on-reloadable", "P05")
			}
			if !isNilExport(de.b.Export) && !assignable(de.b.Export, f.Kind) {
				p.fail(2, "export-not-assignable", "P05")
			}
			if !contains(pe.deps, k) {
				pe.deps = append(pe.deps, k)
			}
		}
	}
	// cycles: repeatedly remove nodes without remaining dependencies
	left := map[string]bool{}
	for k := range p.entries {
		left[k] = true
	}
	for changed := true; changed; {
		changed = false
		for k := range left {
			ok := true
			for _, d := range p.entries[k].deps {
				if left[d] {
					ok = false
				}
			}
			if ok {
				delete(left, k)
				changed = true
			}
		}
	}
	if len(left) > 0 {
		p.fail(2, "cycle", "P05")
	}
}

// ---- a load ----------------------------------------------------------------

var forward = map[string]int{"reloadable": 1, "export": 1, "import": 2, "onload": 3, "oninit": 5, "cb0": 6, "cb1": 7}

func (e *engine) doLoad(st *Step) {
	m := e.model
	if st.Op != "load" && st.Op != "reload" && st.Op != "reloadcb" {
		panic("HARNESS: doLoad")
	}
	if e.sc.Profile == "P13" && st.Op == "load" && m.cur != nil {
		return // a static set is loaded once
	}
	racy := false
	for _, ent := range e.fs[e.curDir] {
		if ent.build != nil && ent.build.Swap != nil {
			racy = true
		}
	}
	p := m.predict(st)
	if e.sc.Cfg.Static {
		if e.sw == nil {
			e.mkSwapper()
		}
		if st.Op != "load" {
			e.staticReload(st)
			return
		}
		e.mu.Lock()
		for _, in := range e.statics {
			in.lastAtt = e.att + 1
		}
		e.mu.Unlock()
	}
	inUse := m.buildInUse(p)
	m.step = st
	var origs map[string]string
	if e.active == "" || e.active == "P12" {
		origs = e.originals(e.curDir)
	}
	old := e.sw.Current()
	var data any = &struct{ N int }{e.att + 1}
	if st.NilData {
		data = nil
	}
	ext0 := len(e.exts)
	e.mu.Lock()
	e.att++
	att := e.att
	i0 := len(e.trace)
	e.mu.Unlock()
	var det hotswap.Details
	var err error
	m.loadFrom = time.Now()
	escaped, stack := guard(func() {
		switch st.Op {
		case "load":
			det, err = e.sw.LoadPlugins(data)
		case "reload":
			det, err = e.sw.Reload(data)
		case "reloadcb":
			det, err = e.sw.ReloadWithCallback(data, func(n, o *hotswap.PluginManager) error {
				return e.callback("cb1", n, o)
			})
		}
	})
	m.step = nil
	if ent := e.fs[e.curDir]["tmp"]; ent != nil && ent.kind == "junk" && err != nil && len(p.fresh) > 0 && p.phase0() > 0 {
		p.fail(1, "copies-blocked", "P01") // may, but need not, make it fail
		p.class, p.phase = "err", 1
	}
	if inUse && err != nil && p.phase0() > 0 {
		p.fail(1, "build-in-use", "P01") // may, but need not, make it fail
		p.class, p.phase = "err", 1
	}
	e.mu.Lock()
	evs := append([]*Event(nil), e.trace[i0:]...)
	e.att++ // separate attempts from what happens between them
	e.mu.Unlock()
	e.Stats.Loads++
	now := e.sw.Current()
	desc := fmt.Sprintf("%s (attempt %d)", st.Op, att)

	if escaped != nil {
		e.violate(fmt.Sprintf("%s: a panic escaped to the caller: %v; predicted %s %s\n%s", desc, escaped, p.class, p.why(), stack), "P01", "P05", "P13")
		e.stop = true
		return
	}
	if racy {
		e.checkRacy(now, err)
		e.stop = true
		return
	}
	if origs != nil {
		if d := diffMaps(origs, e.originals(e.curDir)); d != "" {
			e.violate(desc+": the load changed original files: "+d, "P12")
		}
	}
	if st.Op != "load" && err == nil {
		m.reloads++
	}
	if c := e.sw.ReloadCounter(); c != m.reloads {
		e.violate(fmt.Sprintf("%s: reload counter is %d, want %d", desc, c, m.reloads), "P10")
	}
	// nothing may become visible early
	for _, ev := range evs {
		if ev.Cur != old && (ev.Kind != "log" && ev.Kind != "onfree") {
			e.violate(fmt.Sprintf("%s: during %s of %s the current manager had already changed", desc, ev.Kind, evName(ev)), "P01")
			break
		}
		if ev.Cur != old && err != nil {
			e.violate(fmt.Sprintf("%s failed but another manager was current during %s", desc, ev.Kind), "P01")
			break
		}
	}

	switch {
	case p.class == "nilnil":
		e.Stats.NilNil++
		if err != nil || det != nil {
			e.violate(fmt.Sprintf("%s on a directory with no eligible file returned (%v, %v), want (nil, nil)", desc, det, err), "P11")
		}
		if now != old {
			e.violate(desc+" on a directory with no eligible file changed the current manager", "P11", "P01")
		} else if m.cur != nil {
			if msg := m.compareSnap(m.cur); msg != "" {
				e.violate(desc+" on a directory with no eligible file: "+msg, "P11")
			}
		}
		e.consumeFrees(nil, false, 0)
		e.stop = e.stop || now != old
		return
	case err != nil && now != old:
		e.violate(fmt.Sprintf("%s failed (%v) but the current manager was replaced", desc, err), "P01")
		e.stop = true
		return
	case p.class == "ok" && err != nil:
		props := []string{"P04", "P05", "P06", "P08", "P11", "P12", "P13"}
		if m.everBad {
			props = append(props, "P01")
		}
		e.outcomes = append(e.outcomes, "refused")
		e.violate(fmt.Sprintf("%s was refused although nothing is wrong with it: %v", desc, firstLine(err)), props...)
		e.stop = true
		return
	case p.class == "err" && err == nil:
		e.outcomes = append(e.outcomes, "accepted")
		r := p.reasons[0]
		for _, x := range p.reasons {
			if x.phase < r.phase {
				r = x
			}
		}
		e.violate(fmt.Sprintf("%s succeeded although it must fail: %s", desc, r.why), append(r.props, "P13")...)
		e.stop = true
		return
	}

	if err != nil {
		e.outcomes = append(e.outcomes, "refused")
		e.Stats.Failed++
		e.Stats.ReasonCounts[p.why()]++
		m.everBad = true
		e.checkFailed(desc, att, p, evs, err)
		return
	}
	e.outcomes = append(e.outcomes, "accepted")
	e.okAtt = att
	e.Stats.OK++
	e.checkSuccess(desc, att, st, p, evs, det, old, now, data, ext0)
}

// staticReload: in static mode a reload is an error and changes nothing.
func (e *engine) staticReload(st *Step) {
	before := e.sw.Current()
	e.mu.Lock()
	i0 := len(e.trace)
	e.mu.Unlock()
	var det hotswap.Details
	var err error
	escaped, _ := guard(func() {
		if st.Op == "reload" {
			det, err = e.sw.Reload(nil)
		} else {
			det, err = e.sw.ReloadWithCallback(nil, func(n, o *hotswap.PluginManager) error { return e.callback("cb1", n, o) })
		}
	})
	e.Stats.Labels["static-reload"]++
	switch {
	case escaped != nil:
		e.violate(fmt.Sprintf("%s panicked in static mode: %v", st.Op, escaped), "P13")
	case err == nil:
		e.violate(fmt.Sprintf("%s in static mode returned (%v, nil)", st.Op, det), "P13")
	case e.sw.Current() != before:
		e.violate(st.Op+" in static mode changed the current manager", "P13")
	case e.sw.ReloadCounter() != 0:
		e.violate(st.Op+" in static mode was counted as a reload", "P13")
	case !e.sw.StaticLinkingMode():
		e.violate("StaticLinkingMode() is false in static mode", "P13")
	}
	e.mu.Lock()
	evs := append([]*Event(nil), e.trace[i0:]...)
	e.mu.Unlock()
	for _, ev := range evs {
		if ev.Kind != "log" {
			e.violate(fmt.Sprintf("%s in static mode called %s of %s", st.Op, ev.Kind, evName(ev)), "P13")
			return
		}
	}
	if g := e.model.cur; g != nil {
		if msg := e.model.compareSnap(g); msg != "" {
			e.violate(fmt.Sprintf("%s in static mode changed the manager: %s", st.Op, msg), "P13")
		}
	}
}

func firstLine(err error) string {
	s := err.Error()
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return s
}

func evName(ev *Event) string {
	if ev.In == nil {
		return "-"
	}
	return fmt.Sprintf("build %d", ev.In.B.ID)
}

func diffMaps(a, b map[string]string) string {
	var out []string
	for k, v := range a {
		if b[k] != v {
			out = append(out, fmt.Sprintf("%s: %s -> %s", k, v, b[k]))
		}
	}
	for k, v := range b {
		if _, ok := a[k]; !ok {
			out = append(out, fmt.Sprintf("%s: new %s", k, v))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

func count(evs []*Event, kind string, b *Build) (n int) {
	for _, ev := range evs {
		if ev.Kind == kind && ev.In != nil && ev.In.B == b {
			n++
		}
	}
	return
}

// checkStopAtFailure: after the first failing step nothing further starts.
func (e *engine) checkStopAtFailure(desc string, evs []*Event, err error) {
	var failed *Event
	for _, ev := range evs {
		if forward[ev.Kind] == 0 {
			continue
		}
		if failed != nil {
			e.violate(fmt.Sprintf("%s: %s of %s was called after %s of %s had failed", desc, ev.Kind, evName(ev), failed.Kind, evName(failed)), "P02")
			return
		}
		if ev.Failed {
			failed = ev
		}
	}
	if failed != nil && failed.Tag != "" && !strings.Contains(err.Error(), failed.Tag) {
		e.violate(fmt.Sprintf("%s: %s failed with %q but the load returned: %v", desc, failed.Kind, failed.Tag, firstLine(err)), "P02")
	}
	if failed != nil && err == nil {
		e.violate(fmt.Sprintf("%s: %s failed but the load succeeded", desc, failed.Kind), "P01", "P02")
	}
}

func (e *engine) checkPhases(desc string, evs []*Event) {
	last := map[int]int{}
	first := map[int]int{}
	for i, ev := range evs {
		ph := forward[ev.Kind]
		if ph == 0 {
			continue
		}
		if _, ok := first[ph]; !ok {
			first[ph] = i
		}
		last[ph] = i
	}
	phases := []int{1, 2, 3, 5, 6, 7}
	for x := 0; x < len(phases); x++ {
		for y := x + 1; y < len(phases); y++ {
			l, ok1 := last[phases[x]]
			f, ok2 := first[phases[y]]
			if ok1 && ok2 && l > f {
				e.violate(fmt.Sprintf("%s: %s of %s came after %s of %s", desc, evs[l].Kind, evName(evs[l]), evs[f].Kind, evName(evs[f])), "P02")
				return
			}
		}
	}
}

func (e *engine) checkFailed(desc string, att int, p *pred, evs []*Event, err error) {
	e.checkStopAtFailure(desc, evs, err)
	e.checkPhases(desc, evs)
	for _, ev := range evs {
		if ph := forward[ev.Kind]; ph > p.phase {
			e.violate(fmt.Sprintf("%s: %s of %s was called although the load must fail earlier (%s)", desc, ev.Kind, evName(ev), p.why()), "P02")
		}
		if forward[ev.Kind] != 0 && ev.In != nil && p.fresh[ev.In.B] == nil {
			e.violate(fmt.Sprintf("%s: %s was called on %s, which is not newly loaded", desc, ev.Kind, evName(ev)), "P02")
		}
	}
	for b := range p.fresh {
		for h, ph := range forward {
			if h == "cb0" || h == "cb1" {
				continue
			}
			n := count(evs, h, b)
			if n > 1 {
				e.violate(fmt.Sprintf("%s: %s of build %d called %d times", desc, h, b.ID, n), "P02")
			}
			if ph < p.phase && n != 1 {
				e.violate(fmt.Sprintf("%s: %s of build %d called %d times before the load failed with %s", desc, h, b.ID, n, p.why()), "P02")
			}
		}
	}
	// frees of this failed load
	isFresh := func(in *Inst) bool { return p.fresh[in.B] != nil && in.lastAtt == att }
	var freed []*Event
	for _, ev := range evs {
		if ev.Kind == "onfree" && isFresh(ev.In) {
			freed = append(freed, ev)
		}
	}
	for b := range p.fresh {
		complete := false
		exp := 0
		rel := 0
		for _, ev := range evs {
			if ev.In != nil && ev.In.B == b {
				if ev.Kind == "export" && ev.Done {
					exp++
				}
				if ev.Kind == "reloadable" && ev.Done {
					rel++
				}
			}
		}
		complete = exp > 0 && rel > 0
		n := count(freed, "onfree", b)
		if n > 1 || complete && n != 1 {
			e.violate(fmt.Sprintf("%s failed (%s): OnFree of newly loaded build %d was called %d times", desc, p.why(), b.ID, n), "P07")
		}
		e.Stats.FreedFailed += n
	}
	if p.phase >= 3 {
		// reverse dependency order among the newly loaded
		pos := map[*Build]int{}
		for i, ev := range freed {
			pos[ev.In.B] = i + 1
		}
		for b, pe := range p.fresh {
			for _, d := range pe.deps {
				de := p.entries[d]
				if de != nil && de.old == nil && pos[b] != 0 && pos[de.b] != 0 && pos[b] > pos[de.b] {
					e.violate(fmt.Sprintf("%s failed: %s was freed before %s, which depends on it", desc, d, pe.key), "P03")
				}
			}
		}
	}
	e.consumeFrees(isFresh, true, att)
	e.checkHealthy(desc)
}

// checkHealthy: the current manager still works and nothing in it is freed.
func (e *engine) checkHealthy(desc string) {
	m := e.model
	if m.cur == nil || e.stop || !(e.active == "P01" || e.active == "") {
		return
	}
	for _, le := range m.cur.entries {
		if le.freed {
			e.violate(fmt.Sprintf("%s failed: plugin %s of the current manager has been freed", desc, le.key), "P01")
		}
	}
	if msg := m.compareSnap(m.cur); msg != "" {
		e.violate(fmt.Sprintf("%s failed and changed the current manager: %s", desc, msg), "P01")
	}
	e.mu.Lock()
	i0 := len(e.trace)
	e.mu.Unlock()
	m.cur.pm.InvokeEach("probe")
	e.mu.Lock()
	evs := e.trace[i0:]
	e.mu.Unlock()
	n := 0
	for _, ev := range evs {
		if ev.Kind == "invoke" {
			n++
		}
	}
	if n != len(m.cur.entries) {
		e.violate(fmt.Sprintf("%s failed: the current manager reaches %d of its %d plugins", desc, n, len(m.cur.entries)), "P01")
	}
}

func (e *engine) checkSuccess(desc string, att int, st *Step, p *pred, evs []*Event, det hotswap.Details, old, now *hotswap.PluginManager, data any, ext0 int) {
	m := e.model
	if now == nil || now == old {
		e.violate(desc+" succeeded but the current manager was not replaced", "P01", "P06", "P13")
		e.stop = true
		return
	}
	e.checkStopAtFailure(desc, evs, nil2err)
	e.checkPhases(desc, evs)
	nm := &mgr{n: len(m.mgrs), pm: now, entries: map[string]*lent{}}

	// the set of plugins
	pls := now.Plugins()
	seen := map[string]*hotswap.Plugin{}
	for _, pl := range pls {
		if pl == nil {
			e.violate(desc+": nil plugin in the list", "P03", "P06")
			e.stop = true
			return
		}
		k := key(pl.Name)
		if seen[k] != nil {
			e.violate(fmt.Sprintf("%s: plugin %s is listed twice", desc, pl.Name), "P03", "P06")
			e.stop = true
			return
		}
		seen[k] = pl
	}
	if !sameKeys(seen, p.entries) {
		e.violate(fmt.Sprintf("%s: the new manager lists plugins %v, want %v", desc, keysOf(seen), keysOf(p.entries)), "P03", "P06", "P11")
		e.stop = true
		return
	}
	for k := range p.entries {
		if now.FindPlugin(k) != seen[k] {
			e.violate(fmt.Sprintf("%s: FindPlugin(%q) is not the listed plugin", desc, k), "P15", "P06")
		}
	}
	// details
	got := map[string]string{}
	for f, note := range det {
		if e.sc.Cfg.Static { // keyed by plugin name
			got[key(f)] = note
			continue
		}
		got[key(strings.TrimSuffix(filepath.Base(f), ".so"))] = note
	}
	want := map[string]string{}
	for k, pe := range p.entries {
		want[k] = "ok"
		if pe.note != "" {
			want[k] = pe.note
		}
	}
	if d := diffMaps(want, got); d != "" || len(got) != len(det) {
		e.violate(fmt.Sprintf("%s: details differ: %s (details: %v)", desc, d, det), "P06", "P11")
	} else { // their text says the same, in any order
		var ents []string
		for f, note := range det {
			ents = append(ents, strings.TrimSuffix(filepath.Base(f), ".so")+": "+note)
		}
		split := func(t string) []string {
			a := strings.Split(t, ", ")
			sort.Strings(a)
			return a
		}
		if txt := det.String(); !reflect.DeepEqual(split(txt), split(strings.Join(ents, ", "))) {
			e.violate(fmt.Sprintf("%s: the text of the details is %q, the details are %v", desc, txt, map[string]string(det)), "P06")
		}
	}

	// every plugin
	for k, pe := range p.entries {
		pl := seen[k]
		in := e.instOf(pl)
		if in == nil {
			e.violate(fmt.Sprintf("%s: plugin %s has no loaded code", desc, k), "P06", "P12")
			e.stop = true
			return
		}
		if pe.old != nil {
			e.Stats.Carried++
			le := pe.old
			o := le.pl
			switch {
			case in != le.in:
				e.violate(fmt.Sprintf("%s: plugin %s must be carried over (%s) but its code is another instance", desc, k, pe.note), "P06")
			case pl.FileSha1 != o.FileSha1 || pl.When != o.When || pl.Name != o.Name || pl.File != o.File:
				e.violate(fmt.Sprintf("%s: carried-over plugin %s changed identity: %v %v %v -> %v %v %v", desc, k, o.Name, o.File, o.When, pl.Name, pl.File, pl.When), "P06")
			case strings.Join(pl.Deps, ",") != strings.Join(o.Deps, ","):
				e.violate(fmt.Sprintf("%s: carried-over plugin %s changed dependencies: %v -> %v", desc, k, o.Deps, pl.Deps), "P06")
			case pl.Note != pe.note:
				e.violate(fmt.Sprintf("%s: note of %s is %q, want %q", desc, k, pl.Note, pe.note), "P06")
			}
			nm.entries[k] = le
			continue
		}
		e.Stats.Fresh++
		if pl.Name != pe.name {
			e.violate(fmt.Sprintf("%s: plugin of file %s.so is named %q", desc, pe.name, pl.Name), "P11")
		}
		if in.B != pe.b {
			e.violate(fmt.Sprintf("%s: %s runs build %d but its file holds build %d", desc, k, in.B.ID, pe.b.ID), "P12", "P06")
			e.stop = true
			return
		}
		if !in.static && (pl.FileSha1 != sha1.Sum(pe.bytes) || in.Sum != pl.FileSha1) {
			e.violate(fmt.Sprintf("%s: checksum of %s is not that of the bytes loaded", desc, k), "P12")
		}
		if pl.When.Before(m.loadFrom.Add(-time.Second)) || pl.When.After(time.Now()) {
			e.violate(fmt.Sprintf("%s: the time of fresh plugin %s is %v, not within its load (from %v)", desc, k, pl.When, m.loadFrom), "P06")
		}
		if pl.Note != "" && pl.Note != "ok" {
			e.violate(fmt.Sprintf("%s: fresh plugin %s has note %q", desc, k, pl.Note), "P06")
		}
		if m.cur != nil && m.cur.entries[k] != nil && m.cur.entries[k].in == in {
			e.violate(fmt.Sprintf("%s: changed plugin %s still runs the old instance", desc, k), "P06", "P12")
		}
		le := &lent{key: k, name: pe.name, in: in, b: in.B, bytes: pe.bytes, att: att, pl: pl, depKeys: pe.deps}
		nm.entries[k] = le
		m.lents = append(m.lents, le)
	}
	if e.stop {
		return
	}
	for k, pe := range p.entries {
		if pe.old == nil {
			for _, d := range pe.deps {
				nm.entries[k].deps = append(nm.entries[k].deps, nm.entries[d])
			}
		}
		if len(pe.deps) > e.Stats.MaxDeps {
			e.Stats.MaxDeps = len(pe.deps)
		}
	}
	if n := len(p.entries); n > e.Stats.MaxPlugins {
		e.Stats.MaxPlugins = n
	}
	if m.cur != nil {
		for k := range m.cur.entries {
			if p.entries[k] == nil {
				e.Stats.Dropped++
			}
		}
	}

	// calls per plugin
	for k, le := range nm.entries {
		for h := range forward {
			if h == "cb0" || h == "cb1" {
				continue
			}
			n, w := 0, 0
			for _, ev := range evs {
				if ev.Kind == h && ev.In == le.in {
					n++
				}
			}
			if p.entries[k].old == nil {
				w = 1
			}
			if n != w {
				e.violate(fmt.Sprintf("%s: %s of %s was called %d times, want %d", desc, h, k, n, w), "P02")
			}
		}
	}
	for _, ev := range evs {
		switch ev.Kind {
		case "onload":
			if ev.Data != data {
				e.violate(fmt.Sprintf("%s: OnLoad of %s got other data than the caller passed", desc, evName(ev)), "P02")
			}
		case "oninit":
			if ev.Vault != &now.Vault {
				e.violate(fmt.Sprintf("%s: OnInit of %s got another vault than the new manager's", desc, evName(ev)), "P02", "P08")
			}
			if strings.Join(ev.VKeysF, ",") != strings.Join(p.lf, ",") || strings.Join(ev.VKeysT, ",") != strings.Join(p.lt, ",") {
				e.violate(fmt.Sprintf("%s: OnInit of %s saw an incomplete vault: funcs %v types %v, want %v %v", desc, evName(ev), ev.VKeysF, ev.VKeysT, p.lf, p.lt), "P02", "P08")
			}
		}
	}
	// callbacks
	var cbs []*Event
	for _, ev := range evs {
		if ev.Kind == "cb0" || ev.Kind == "cb1" {
			cbs = append(cbs, ev)
		}
	}
	var wantCB []string
	if e.sc.Cfg.CB {
		wantCB = append(wantCB, "cb0")
	}
	if st.Op == "reloadcb" {
		wantCB = append(wantCB, "cb1")
	}
	if len(cbs) != len(wantCB) {
		e.violate(fmt.Sprintf("%s: %d reload callbacks were called, want %d", desc, len(cbs), len(wantCB)), "P02")
	} else {
		for i, ev := range cbs {
			if ev.Kind != wantCB[i] {
				e.violate(desc+": reload callbacks called in the wrong order", "P02")
			}
			if ev.New != now || ev.Old != old {
				e.violate(desc+": a reload callback got other managers than the new and the replaced one", "P02")
			}
			if ev.Params[0] != len(p.entries) || strings.Join(ev.VKeysF, ",") != strings.Join(p.lf, ",") {
				e.violate(desc+": a reload callback saw an incomplete manager", "P02")
			}
		}
	}

	m.checkOrder(desc, nm, pls, evs, p)
	m.checkWiring(desc, nm, evs, p, seen)
	m.checkVault(desc, nm, p, evs, ext0)

	// supersede
	if m.cur != nil {
		m.cur.superseded = true
		m.cur.supAt = e.now()
		for _, o := range m.mgrs {
			if o != m.cur && o.superseded && o.supAt+m.delay > e.now() {
				e.Stats.OverlapSuperseded++
			}
		}
	}
	for _, le := range nm.entries {
		le.mgrs = append(le.mgrs, nm)
	}
	m.cur = nm
	m.mgrs = append(m.mgrs, nm)
	nm.snap = m.takeSnap(nm)
	e.consumeFrees(nil, false, 0)
}

var nil2err = fmt.Errorf("(success)")

func sameKeys[A, B any](a map[string]A, b map[string]B) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if _, ok := b[k]; !ok {
			return false
		}
	}
	return true
}

func (m *model) checkOrder(desc string, nm *mgr, pls []*hotswap.Plugin, evs []*Event, p *pred) {
	e := m.e
	pos := map[string]int{}
	for i, pl := range pls {
		pos[key(pl.Name)] = i
	}
	depth := map[string]int{}
	for _, pl := range pls {
		k := key(pl.Name)
		d := 0
		for _, x := range p.entries[k].deps {
			if pos[x] >= pos[k] {
				e.violate(fmt.Sprintf("%s: %s depends on %s but stands before it in the plugin list %v", desc, k, x, names(pls)), "P03")
				return
			}
			if depth[x]+1 > d {
				d = depth[x] + 1
			}
		}
		depth[k] = d
		if d > e.Stats.DepDepth {
			e.Stats.DepDepth = d
		}
	}
	for _, h := range []string{"onload", "oninit"} {
		idx := map[*Inst]int{}
		for i, ev := range evs {
			if ev.Kind == h {
				idx[ev.In] = i + 1
			}
		}
		for k, le := range nm.entries {
			for _, d := range p.entries[k].deps {
				di := nm.entries[d].in
				if idx[le.in] != 0 && idx[di] != 0 && idx[di] > idx[le.in] {
					e.violate(fmt.Sprintf("%s: %s of %s ran before that of its dependency %s", desc, h, k, d), "P03")
					return
				}
			}
		}
	}
}

func names(pls []*hotswap.Plugin) []string {
	var a []string
	for _, pl := range pls {
		a = append(a, pl.Name)
	}
	return a
}

func (m *model) checkWiring(desc string, nm *mgr, evs []*Event, p *pred, seen map[string]*hotswap.Plugin) {
	e := m.e
	for k, pe := range p.entries {
		if pe.old != nil {
			continue
		}
		pl := seen[k]
		var deps []string
		for _, d := range pl.Deps {
			if !contains(deps, key(d)) {
				deps = append(deps, key(d))
			}
		}
		w := append([]string(nil), pe.deps...)
		sort.Strings(deps)
		sort.Strings(w)
		if strings.Join(deps, ",") != strings.Join(w, ",") {
			e.violate(fmt.Sprintf("%s: dependencies of %s are recorded as %v, want %v", desc, k, pl.Deps, w), "P04")
		}
		in := nm.entries[k].in
		check := func(fl Fld, i int, v any, when string) {
			want := in.Init[i]
			what := "untouched"
			if isExportedName(fl.Name) && reflect.StructTag(fl.Tag).Get("hotswap") != "-" {
				dep := nm.entries[key(fl.Name)]
				if dep == nil {
					return
				}
				if !isNilExport(dep.b.Export) {
					want = dep.in.exported(dep.att)
					what = "the export of " + dep.key
					e.Stats.Wired++
				} else {
					e.Stats.NilWired++
				}
			} else {
				e.Stats.IgnoredField++
			}
			if !sameValue(v, want) {
				e.violate(fmt.Sprintf("%s: field %s of %s's import is %#v %s, want %s (%#v)", desc, fl.Name, k, v, when, what, want), "P04")
			}
		}
		if pe.b.Import.Kind != "ptr" {
			continue
		}
		for _, ev := range evs {
			if ev.Kind == "onload" && ev.In == in {
				for i, fs := range ev.Fields {
					check(fs.Fld, i, fs.Val, "when OnLoad runs")
				}
			}
		}
		for i, fl := range pe.b.Import.Fields {
			check(fl, i, fieldValue(in.ImpPtr, i), "after the load")
		}
	}
	// wiring of carried-over plugins stays
	for k, pe := range p.entries {
		if pe.old == nil || pe.old.b.Import.Kind != "ptr" {
			continue
		}
		in := pe.old.in
		for i, fl := range pe.old.b.Import.Fields {
			want := in.Init[i]
			if isExportedName(fl.Name) && reflect.StructTag(fl.Tag).Get("hotswap") != "-" {
				if dep := nm.entries[key(fl.Name)]; dep != nil && !isNilExport(dep.b.Export) {
					want = dep.in.exported(dep.att)
				}
			}
			if !sameValue(fieldValue(in.ImpPtr, i), want) {
				e.violate(fmt.Sprintf("%s: field %s of carried-over %s changed", desc, fl.Name, k), "P04", "P06")
			}
		}
	}
}

func callStr(v any) string {
	switch f := v.(type) {
	case nil:
		return "nil"
	case func() string:
		return f()
	case func(int, int) (string, error):
		v, _ := f(1, 2)
		return v
	}
	return fmt.Sprintf("%T", v)
}

func typeStr(f func() any) string {
	if f == nil {
		return "nil"
	}
	if t, ok := f().(*T0); ok && t != nil {
		return t.Tag
	}
	return "?"
}

func (m *model) checkVault(desc string, nm *mgr, p *pred, evs []*Event, ext0 int) {
	e := m.e
	wantF, wantT := map[string]string{}, map[string]string{}
	for _, le := range nm.entries {
		tag := fmt.Sprintf("i%d.b%d", le.in.Serial, le.b.ID)
		for _, n := range le.b.LF {
			wantF[n] = tag + ".F." + n
			if strings.HasPrefix(n, "nil") {
				wantF[n] = "nil"
			}
		}
		for _, n := range le.b.LT {
			wantT[n] = tag + ".T." + n
			if strings.HasPrefix(n, "nil") {
				wantT[n] = "nil"
			}
		}
	}
	e.Stats.LiveNames += len(wantF) + len(wantT)
	gotF, gotT := map[string]string{}, map[string]string{}
	for k, v := range nm.pm.LiveFuncs {
		gotF[k] = callStr(v)
	}
	for k, v := range nm.pm.LiveTypes {
		gotT[k] = typeStr(v)
	}
	if d := diffMaps(wantF, gotF); d != "" {
		e.violate(desc+": live functions in the vault differ: "+d, "P08")
	}
	if d := diffMaps(wantT, gotT); d != "" {
		e.violate(desc+": live types in the vault differ: "+d, "P08")
	}
	// the data bag starts empty and collects what OnInit of this load put in
	put := map[string]bool{}
	for _, ev := range evs {
		if ev.Kind != "oninit" {
			continue
		}
		if ev.VBag != len(put) {
			e.violate(fmt.Sprintf("%s: the data bag held %d entries when OnInit of %s began, want %d", desc, ev.VBag, evName(ev), len(put)), "P08")
		}
		if ev.In.B.Bag {
			put[fmt.Sprintf("bag-%d", ev.In.Serial)] = true
		}
	}
	if nm.pm.DataBag == nil {
		e.violate(desc+": the data bag is nil", "P08")
	}
	if len(nm.pm.DataBag) != len(put) {
		e.violate(fmt.Sprintf("%s: the data bag holds %d entries, want %d", desc, len(nm.pm.DataBag), len(put)), "P08")
	}
	if e.sc.Cfg.Ext {
		made := e.exts[ext0:]
		if len(made) != 1 || nm.pm.Extension != made[0] {
			e.violate(fmt.Sprintf("%s: the extension constructor was called %d times and the vault holds %v", desc, len(made), nm.pm.Extension), "P08")
		}
	} else if nm.pm.Extension != nil {
		e.violate(desc+": there is an extension without a constructor", "P08")
	}
	for _, o := range m.mgrs {
		if reflect.ValueOf(o.pm.DataBag).Pointer() == reflect.ValueOf(nm.pm.DataBag).Pointer() {
			e.violate(desc+": the new manager shares its data bag with an older one", "P08")
		}
	}
}

// ---- frees ------------------------------------------------------------------

const freeMargin = 5 * time.Second

func (le *lent) deadline(delay time.Duration) (time.Duration, bool) {
	var d time.Duration
	for _, g := range le.mgrs {
		if !g.superseded {
			return 0, false
		}
		if t := g.supAt + delay; t > d {
			d = t
		}
	}
	return d, true
}

// consumeFrees attributes the OnFree calls seen so far to loads.
func (e *engine) consumeFrees(failedFresh func(*Inst) bool, failed bool, att int) {
	m := e.model
	e.mu.Lock()
	evs := append([]*Event(nil), e.trace[m.seen:]...)
	m.seen = len(e.trace)
	e.mu.Unlock()
	for _, ev := range evs {
		if ev.Kind != "onfree" || e.stop {
			continue
		}
		if failed && ev.Att == att && failedFresh(ev.In) {
			continue
		}
		var le *lent
		var leD time.Duration
		var leOK bool
		for _, x := range m.lents {
			if x.in != ev.In || x.freed {
				continue
			}
			// when the same bytes were loaded again, the copy and so the code
			// may be the same: the load that is due first is the one freed
			d, ok := x.deadline(m.delay)
			if le == nil || ok && ev.T >= d && (!leOK || d < leD) {
				le, leD, leOK = x, d, ok && ev.T >= d
			}
		}
		if le == nil {
			e.violate(fmt.Sprintf("OnFree of %s was called at %v although it is not loaded any more", evName(ev), ev.T), "P07")
			continue
		}
		d, ok := le.deadline(m.delay)
		if !ok {
			e.violate(fmt.Sprintf("OnFree of %s (%s) was called at %v while it is in the current manager", evName(ev), le.key, ev.T), "P07", "P01")
		} else if ev.T < d {
			e.violate(fmt.Sprintf("OnFree of %s (%s) was called at %v, before %v", evName(ev), le.key, ev.T, d), "P07")
		}
		for _, x := range m.lents {
			if x != le && x.in == ev.In && !x.freed {
				e.violate(fmt.Sprintf("OnFree of %s (%s) was called at %v for the load of attempt %d while the same code is in use by the load of attempt %d", evName(ev), le.key, ev.T, le.att, x.att), "P07")
			}
		}
		le.freed = true
		le.freedAt = ev.T
		e.Stats.FreedDelayed++
		for _, x := range m.lents {
			for _, dep := range x.deps {
				if dep == le && !x.freed && !m.shared(x) && !m.shared(le) {
					e.violate(fmt.Sprintf("%s was freed before %s, which depends on it", le.key, x.key), "P03")
				}
			}
		}
	}
}

// shared: another load runs the same instance, so that a call of its OnFree
// cannot be told from one of the other's.
func (m *model) shared(le *lent) bool {
	for _, x := range m.lents {
		if x != le && x.in == le.in {
			return true
		}
	}
	return false
}

func (e *engine) checkFrees() {
	if e.stop {
		return
	}
	e.consumeFrees(nil, false, 0)
	m := e.model
	margin := freeMargin
	for _, le := range m.lents {
		margin += time.Duration(le.b.SleepMs["onfree"]) * time.Millisecond
	}
	for _, le := range m.lents {
		if d, ok := le.deadline(m.delay); ok && !le.freed && e.now() >= d+margin {
			e.violate(fmt.Sprintf("%s (build %d) has not been freed %v after its delay ended", le.key, le.b.ID, e.now()-d), "P07")
			return
		}
	}
}

// epilogue lets every delay pass and checks the end state.
func (e *engine) epilogue() {
	m := e.model
	time.Sleep(m.delay + time.Hour)
	e.checkFrees()
	if e.stop {
		return
	}
	e.checkRetained("end")
	e.checkCopies()
	e.Stats.Retained = len(m.mgrs)
	if m.cur != nil {
		for _, le := range m.cur.entries {
			if le.freed {
				e.violate(fmt.Sprintf("%s of the current manager has been freed", le.key), "P07")
			}
		}
	}
}

// ---- retained managers --------------------------------------------------------

func (m *model) takeSnap(g *mgr) snap {
	var s snap
	for _, pl := range g.pm.Plugins() {
		s.pls = append(s.pls, plSnap{pl, pl.Name, pl.File, pl.FileSha1, pl.When, pl.Note, pl.P, strings.Join(pl.Deps, ",")})
	}
	s.funcs, s.types, s.bag = map[string]string{}, map[string]string{}, map[string]any{}
	for k, v := range g.pm.LiveFuncs {
		s.funcs[k] = callStr(v)
	}
	for k, v := range g.pm.LiveTypes {
		s.types[k] = typeStr(v)
	}
	for k, v := range g.pm.DataBag {
		s.bag[k] = v
	}
	s.ext = g.pm.Extension
	return s
}

func (m *model) compareSnap(g *mgr) string {
	s := m.takeSnap(g)
	o := g.snap
	if len(s.pls) != len(o.pls) {
		return fmt.Sprintf("manager %d had %d plugins, now %d", g.n, len(o.pls), len(s.pls))
	}
	for i := range s.pls {
		if s.pls[i] != o.pls[i] {
			return fmt.Sprintf("plugin %d of manager %d was %s/%s/%q deps [%s], now %s/%s/%q deps [%s]", i, g.n,
				o.pls[i].name, o.pls[i].file, o.pls[i].note, o.pls[i].deps, s.pls[i].name, s.pls[i].file, s.pls[i].note, s.pls[i].deps)
		}
		if g.pm.FindPlugin(o.pls[i].name) != o.pls[i].pl {
			return fmt.Sprintf("FindPlugin(%q) of manager %d changed", o.pls[i].name, g.n)
		}
	}
	if d := diffMaps(o.funcs, s.funcs); d != "" {
		return fmt.Sprintf("live functions of manager %d: %s", g.n, d)
	}
	if d := diffMaps(o.types, s.types); d != "" {
		return fmt.Sprintf("live types of manager %d: %s", g.n, d)
	}
	if !reflect.DeepEqual(o.bag, s.bag) {
		return fmt.Sprintf("data bag of manager %d: %v -> %v", g.n, o.bag, s.bag)
	}
	if o.ext != s.ext {
		return fmt.Sprintf("extension of manager %d changed", g.n)
	}
	return ""
}

func (e *engine) checkRetained(op string) {
	if e.active != "" && e.active != "P15" && e.active != "P08" || e.model == nil {
		return
	}
	for _, g := range e.model.mgrs {
		if msg := e.model.compareSnap(g); msg != "" {
			props := []string{"P15"}
			if strings.Contains(msg, "live ") || strings.Contains(msg, "bag") || strings.Contains(msg, "extension") {
				props = append(props, "P08")
			}
			e.violate(fmt.Sprintf("after %q: %s", op, msg), props...)
			return
		}
	}
}

// checkCopies: the private copy of a plugin that is still loaded is intact.
func (e *engine) checkCopies() {
	if e.active != "" && e.active != "P12" {
		return
	}
	for _, in := range e.insts {
		if in.fd == nil {
			continue
		}
		if st, err := in.fd.Stat(); err == nil && !st.ModTime().Equal(mappedTime) {
			e.violate(fmt.Sprintf("the copy %s was written to after it had been opened: the code mapped from it is lost", filepath.Base(in.Path)), "P12")
			return
		}
	}
	for _, le := range e.model.lents {
		if le.freed || le.in.static {
			continue
		}
		data, err := os.ReadFile(le.in.Path)
		if err != nil {
			continue
		}
		if sha1.Sum(data) != le.in.Sum {
			e.violate(fmt.Sprintf("the copy %s, executed by %s, was overwritten", filepath.Base(le.in.Path), le.key), "P12")
			return
		}
	}
}

// checkRacy: files changed during the load; whatever was read must be what runs.
func (e *engine) checkRacy(now *hotswap.PluginManager, err error) {
	e.Stats.Labels["racy-load"]++
	if err != nil || now == nil {
		return
	}
	for _, pl := range now.Plugins() {
		in := e.instOf(pl)
		if in == nil {
			e.violate("a plugin has no code", "P12")
			return
		}
		if in.Sum != pl.FileSha1 {
			e.violate(fmt.Sprintf("%s runs code whose checksum differs from the recorded one (file rewritten during the load)", pl.Name), "P12")
		}
	}
}

// ---- other operations ----------------------------------------------------------

func (e *engine) pick(st *Step) *mgr {
	m := e.model
	if st.Mgr == 0 || len(m.mgrs) == 0 {
		return m.cur
	}
	return m.mgrs[(st.Mgr-1)%len(m.mgrs)]
}

const nested = "nested call"

func (e *engine) doInvoke(st *Step) {
	g := e.pick(st)
	if g == nil {
		return
	}
	e.Stats.Invokes++
	e.mu.Lock()
	i0 := len(e.trace)
	e.mu.Unlock()
	var params []any
	for _, x := range st.Params {
		params = append(params, x)
	}
	before := e.model.takeSnap(g)
	nth, inside := 0, ""
	e.atInvoke = func(name string) {
		now := g.pm.Plugins()
		for i := range now {
			if inside == "" && (len(now) != len(before.pls) || now[i] != before.pls[i].pl) {
				inside = fmt.Sprintf("while InvokeFunc runs the manager lists %v", names(now))
			}
		}
		if name == nested {
			return
		}
		if nth++; nth == st.Nest {
			g.pm.InvokeEach(nested, nested)
		}
	}
	defer func() { e.atInvoke = nil }()
	escaped, stack := guard(func() {
		if st.Backward {
			g.pm.InvokeEachBackward(st.Name, params...)
		} else {
			g.pm.InvokeEach(st.Name, params...)
		}
	})
	e.mu.Lock()
	evs := append([]*Event(nil), e.trace[i0:]...)
	e.mu.Unlock()
	what := "InvokeEach"
	if st.Backward {
		what = "InvokeEachBackward"
	}
	if escaped != nil {
		e.violate(fmt.Sprintf("%s let a panic escape: %v\n%s", what, escaped, stack), "P09")
		return
	}
	if inside != "" {
		e.violate(what+": "+inside, "P09", "P15")
	}
	var calls, all []*Event
	var logs []*Event
	inner := map[*Inst]int{}
	for _, ev := range evs {
		switch ev.Kind {
		case "invoke":
			all = append(all, ev)
			if ev.Name == nested {
				inner[ev.In]++
				break
			}
			calls = append(calls, ev)
		case "log":
			logs = append(logs, ev)
		}
	}
	n := map[*Inst]int{}
	for _, ev := range calls {
		n[ev.In]++
		if ev.Name != st.Name || len(ev.Params) != len(params) || !(len(params) == 0 || reflect.DeepEqual(ev.Params, params)) {
			e.violate(fmt.Sprintf("%s passed (%q, %v), want (%q, %v)", what, ev.Name, ev.Params, st.Name, params), "P09")
		}
	}
	for k, le := range g.entries {
		if n[le.in] != 1 {
			props := []string{"P09"}
			if g != e.model.cur {
				props = append(props, "P15")
			}
			e.violate(fmt.Sprintf("%s called InvokeFunc of %s %d times", what, k, n[le.in]), props...)
			return
		}
	}
	if len(calls) != len(g.entries) {
		e.violate(fmt.Sprintf("%s made %d calls for %d plugins", what, len(calls), len(g.entries)), "P09", "P15")
		return
	}
	if st.Nest > 0 && st.Nest <= len(calls) {
		for k, le := range g.entries {
			if inner[le.in] != 1 {
				e.violate(fmt.Sprintf("InvokeEach called by an InvokeFunc reached %s %d times", k, inner[le.in]), "P09")
				return
			}
		}
	}
	failures := 0
	for _, ev := range all {
		if !ev.Failed {
			continue
		}
		failures++
		e.Stats.InvokeFaults++
		if ev.Tag != "" {
			ok := false
			for _, l := range logs {
				if strings.Contains(l.Text, ev.Tag) && (l.Level == "error") {
					ok = true
				}
			}
			if !ok {
				e.violate(fmt.Sprintf("%s did not report %q to the logger", what, ev.Tag), "P09")
			}
		}
	}
	nerr := 0
	for _, l := range logs {
		if l.Level == "error" {
			nerr++
		}
	}
	if nerr < failures {
		e.violate(fmt.Sprintf("%s reported %d of %d failures", what, nerr, failures), "P09")
	}
	// order
	pls := g.pm.Plugins()
	for i, ev := range calls {
		j := i
		if st.Backward {
			j = len(pls) - 1 - i
			if e.instOf(pls[j]) != ev.In {
				e.violate(fmt.Sprintf("InvokeEachBackward is not the reverse of the plugin list %v", names(pls)), "P03")
				break
			}
		}
	}
	if !st.Backward {
		pos := map[*Inst]int{}
		for i, ev := range calls {
			pos[ev.In] = i
		}
		for _, le := range g.entries {
			for _, d := range le.deps {
				if pos[d.in] > pos[le.in] {
					e.violate(fmt.Sprintf("InvokeEach reached %s before its dependency %s", le.key, d.key), "P03")
				}
			}
		}
	}
	after := e.model.takeSnap(g)
	if !reflect.DeepEqual(stripFuncs(before), stripFuncs(after)) {
		e.violate(what+" changed the manager", "P09")
	}
	e.consumeFrees(nil, false, 0)
}

func stripFuncs(s snap) any { return []any{fmt.Sprintf("%v", s.pls), s.funcs, s.types, s.bag, s.ext} }

func (e *engine) doFind(st *Step) {
	g := e.pick(st)
	if g == nil {
		return
	}
	var got *hotswap.Plugin
	escaped, _ := guard(func() { got = g.pm.FindPlugin(st.Name) })
	if escaped != nil {
		e.violate("FindPlugin panicked", "P15")
		return
	}
	le := g.entries[key(st.Name)]
	switch {
	case le == nil && got != nil:
		e.violate(fmt.Sprintf("FindPlugin(%q) found %s, which the manager does not contain", st.Name, got.Name), "P15")
	case le != nil && (got == nil || e.instOf(got) != le.in):
		e.violate(fmt.Sprintf("FindPlugin(%q) did not find the plugin", st.Name), "P15")
	}
}

// doPollute changes the vault of a manager through its public maps.
func (e *engine) doPollute(st *Step) {
	g := e.pick(st)
	if g == nil {
		return
	}
	v := &g.pm.Vault
	n := st.Name
	tag := "polluted-" + n
	v.LiveFuncs[n] = func() string { return tag }
	v.LiveTypes[n] = func() any { return &T0{tag} }
	v.DataBag[n] = tag
	if st.Backward {
		for k := range v.LiveFuncs {
			if k != n {
				delete(v.LiveFuncs, k)
			}
		}
	}
	g.snap = e.model.takeSnap(g)
	e.Stats.Labels["polluted"]++
}
