package rt

import (
	"bytes"
	"crypto/sha1"
	"crypto/sha256"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"plugin"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing/synctest"
	"time"

	"github.com/edwingeng/hotswap"
	"github.com/edwingeng/hotswap/vault"
	"github.com/edwingeng/slog"
)

// ---- events -------------------------------------------------------------

// Event is one observed call from hotswap into a plugin, callback or logger.
type Event struct {
	T      time.Duration // virtual time since the start of the case
	TEnd   time.Duration
	Att    int    // attempt during which it happened (0: none)
	Kind   string // hook name, "newext", "cb0", "cb1", "open", "log"
	In     *Inst
	Done   bool   // returned normally
	Failed bool   // returned an error or panicked
	Tag    string // text of the failure, "" if it carries none
	Cur    *hotswap.PluginManager
	Gid    int64
	Data   any
	Vault  *vault.Vault
	VKeysF []string // live functions visible when the hook ran
	VKeysT []string
	VBag   int
	New    *hotswap.PluginManager
	Old    *hotswap.PluginManager
	Name   string
	Params []any
	Fields []fieldSnap // import fields at OnLoad
	Text   string      // log text
	Level  string
}

type fieldSnap struct {
	Fld Fld
	Val any
}

// Inst is one opened plugin.
type Inst struct {
	Serial  int
	B       *Build
	Path    string   // path opened
	fd      *os.File // keeps the file opened at that time
	Sum     [20]byte
	Export  any
	exports []exportRec // what each call of Export returned
	Imp     any
	ImpPtr  reflect.Value
	Init    []any // initial field values
	LF      map[string]any
	LT      map[string]func() any
	P       *plugin.Plugin
	opened  int
	static  bool
	lastAtt int
}

type exportRec struct {
	att int
	val any
}

// exported is what the plugin exported in an attempt.
func (in *Inst) exported(att int) any {
	for _, x := range in.exports {
		if x.att == att {
			return x.val
		}
	}
	return in.Export
}

// Violation is a broken monitor.
type Violation struct {
	Props []string
	Msg   string
}

type fileEnt struct {
	kind  string // "file", "dir", "dangling", "junk"
	build *Build
	bytes []byte
}

type engine struct {
	sc     *Scenario
	active string // property being decided ("" = all)
	base   string
	dirs   []string
	curDir int
	stored int
	gone   map[int]string // dir index -> "missing"/"file"
	fs     []map[string]*fileEnt
	start  time.Time

	mu      sync.Mutex
	trace   []*Event
	reg     map[[32]byte]*Build
	byPath  map[string]*Inst
	openNg  map[string]string
	bySum   map[[20]byte]*Inst
	statics map[*Build]*Inst
	insts   []*Inst
	serial  int
	att     int
	extN    int
	exts    []any

	atInvoke  func(name string) // called inside InvokeFunc
	sw        *hotswap.PluginManagerSwapper
	mkSwapper func()
	lg        *logger
	model     *model
	viols     []Violation
	stop      bool
	outcomes  []string
	okAtt     int
	sum       string
	Stats     *CaseStats
	onHook    func(*Event)
	onHookEnd func(*Event)
}

// CaseStats is what a case did, for the non-triviality rules.
type CaseStats struct {
	Loads, OK, Failed, NilNil     int
	Carried, Fresh, Dropped       int
	MaxPlugins, MaxDeps           int
	FreedDelayed, FreedFailed     int
	ReasonCounts                  map[string]int
	Invokes, InvokeFaults         int
	Wired, NilWired, IgnoredField int
	OverlapSuperseded             int
	LiveNames                     int
	Retained                      int
	MultiSecond                   int
	FlipOnly                      int
	BigFiles                      int
	DepDepth                      int
	Labels                        map[string]int
}

func (e *engine) now() time.Duration { return time.Since(e.start) }

func (e *engine) violate(msg string, props ...string) {
	if e.sc.Cfg.Static { // the reference for static linking is the behaviour of dynamic loading
		props = append(props, "P13")
	}
	for _, p := range props {
		if e.active == "" || p == e.active {
			e.viols = append(e.viols, Violation{props, msg})
			e.stop = true
			return
		}
	}
}

func gid() int64 {
	var buf [64]byte
	n := runtime.Stack(buf[:], false)
	var id int64
	fmt.Sscanf(string(buf[:n]), "goroutine %d ", &id)
	return id
}

func pause(us int) {
	switch {
	case us <= 0:
	case us < 5:
		for i := 0; i < us; i++ {
			runtime.Gosched()
		}
	default:
		ts := syscall.NsecToTimespec(int64(us) * 1000)
		_ = syscall.Nanosleep(&ts, nil)
	}
}

func (e *engine) begin(kind string, in *Inst) *Event {
	ev := &Event{Kind: kind, In: in, T: e.now()}
	e.mu.Lock()
	// under the lock: the delayed release of an earlier manager runs in a goroutine of its own
	if e.sw != nil {
		ev.Cur = e.sw.Current()
	}
	ev.Att = e.att
	if ev.Kind == "reloadable" && ev.In != nil {
		ev.In.lastAtt = e.att // a build opened earlier may be loaded again
	}
	e.trace = append(e.trace, ev)
	e.mu.Unlock()
	if e.onHook != nil {
		e.onHook(ev)
	}
	return ev
}

// finish applies sleep and fault; it returns the error to return, or panics.
func (e *engine) finish(ev *Event, b *Build, serial int) error {
	if b.Swap != nil && b.Swap.Hook == ev.Kind {
		e.applySwap(b.Swap)
	}
	if ms := b.SleepMs[ev.Kind]; ms > 0 {
		time.Sleep(time.Duration(ms) * time.Millisecond)
	}
	ev.TEnd = e.now()
	f, ok := b.Faults[ev.Kind]
	if e.onHook != nil {
		pause(b.Pauses[ev.Kind])
		ev.Failed = ok
		e.onHookEnd(ev)
	}
	if !ok {
		ev.Done = true
		return nil
	}
	tag := fmt.Sprintf("FAULT-%s-%d-%d", ev.Kind, b.ID, serial)
	ev.Failed = true
	if f.Kind == "err" && (ev.Kind == "onload" || ev.Kind == "oninit" || ev.Kind == "invoke") {
		if ev.Kind == "invoke" && f.Val%6 >= 4 {
			return errors.New("out of coffee") // several plugins fail alike
		}
		err, tagged := errors.New(tag), true
		if ev.Kind != "invoke" {
			err, tagged = makeErr(f.Val, tag)
		}
		if tagged {
			ev.Tag = tag
		}
		return err
	}
	if _, tagged := makePanic(f.Val, tag); tagged {
		ev.Tag = tag
	}
	raise(f, tag)
	return nil
}

// ---- content ------------------------------------------------------------

func renderContent(c Content) []byte {
	if c.Empty {
		return nil
	}
	n := c.Size
	if n < 8 {
		n = 8
	}
	data := make([]byte, n)
	copy(data, fmt.Sprintf("%08x", uint32(c.Seed)))
	s := uint64(c.Seed)*0x9E3779B97F4A7C15 + 12345
	for i := 8; i < n; i++ {
		s ^= s << 13
		s ^= s >> 7
		s ^= s << 17
		data[i] = byte(s)
	}
	for _, m := range c.Muts {
		switch m.Op {
		case "flip":
			x := m.X
			if x == 0 {
				x = 1
			}
			p := m.Pos
			if p < 0 { // from the end
				p = len(data) + p
			}
			data[((p%len(data))+len(data))%len(data)] ^= x
		case "trunc":
			if len(data) > 9 {
				data = data[:len(data)-1]
			}
		case "append":
			data = append(data, m.X)
		}
	}
	return data
}

// ---- plugin functions ---------------------------------------------------

func (e *engine) newInst(b *Build) *Inst {
	e.serial++
	in := &Inst{Serial: e.serial, B: b}
	e.insts = append(e.insts, in)
	tag := fmt.Sprintf("i%d.b%d", in.Serial, b.ID)
	in.Export = makeExport(b.Export, tag, 1000+in.Serial)
	in.LF = make(map[string]any)
	for _, n := range b.LF {
		v := tag + ".F." + n
		switch {
		case strings.HasPrefix(n, "nil"):
			in.LF[n] = nil
		case strings.HasPrefix(n, "arg"):
			in.LF[n] = func(a, b int) (string, error) { return v, nil }
		default:
			in.LF[n] = func() string { return v }
		}
	}
	in.LT = make(map[string]func() any)
	for _, n := range b.LT {
		v := tag + ".T." + n
		in.LT[n] = func() any { return &T0{v} }
		if strings.HasPrefix(n, "nil") {
			in.LT[n] = nil
		}
	}
	e.makeImport(in)
	return in
}

func (e *engine) makeImport(in *Inst) {
	imp := in.B.Import
	structOf := func() reflect.Type {
		var a []reflect.StructField
		for _, f := range imp.Fields {
			sf := reflect.StructField{Name: f.Name, Type: fieldTypes[f.Kind], Tag: reflect.StructTag(f.Tag), Anonymous: f.Anon}
			if !isExportedName(f.Name) {
				sf.PkgPath = "hsverif/rt"
			}
			a = append(a, sf)
		}
		return reflect.StructOf(a)
	}
	switch imp.Kind {
	case "nil":
	case "typednil":
		in.Imp = (*T0)(nil)
	case "ptr":
		p := reflect.New(structOf())
		in.Init = make([]any, len(imp.Fields))
		for i, f := range imp.Fields {
			in.Init[i] = sentinel(f.Kind)
			setField(p, i, in.Init[i])
		}
		in.ImpPtr = p
		in.Imp = p.Interface()
	case "struct":
		in.Imp = VT{1, "x"}
	case "ptrint":
		x := 1
		in.Imp = &x
	case "int":
		in.Imp = 5
	case "map":
		in.Imp = map[string]int{"a": 1}
	case "func":
		in.Imp = func() {}
	default:
		panic("import kind " + imp.Kind)
	}
}

// whoami is the InvokeFunc name by which the harness asks a plugin for its
// instance, without leaving an event.
const whoami = "\x00whoami"

// instOf returns the instance whose code a plugin runs.
func (e *engine) instOf(pl *hotswap.Plugin) (in *Inst) {
	if pl == nil || pl.InvokeFunc == nil {
		return nil
	}
	_, _ = guard(func() {
		v, _ := pl.InvokeFunc(whoami)
		in, _ = v.(*Inst)
	})
	if in != nil && in.P != pl.P {
		return nil
	}
	return in
}

type pluginFns struct {
	onLoad     func(data interface{}) error
	onInit     func(v *vault.Vault) error
	onFree     func()
	export     func() interface{}
	imp        func() interface{}
	invoke     func(name string, params ...interface{}) (interface{}, error)
	reloadable func() bool
	liveFuncs  func() map[string]interface{}
	liveTypes  func() map[string]func() interface{}
}

func keysOf[V any](m map[string]V) []string {
	a := make([]string, 0, len(m))
	for k := range m {
		a = append(a, k)
	}
	sort.Strings(a)
	return a
}

func (e *engine) fns(in *Inst) *pluginFns {
	b := in.B
	f := &pluginFns{}
	f.onLoad = func(data interface{}) error {
		ev := e.begin("onload", in)
		ev.Data = data
		if in.ImpPtr.IsValid() {
			for i, fl := range b.Import.Fields {
				ev.Fields = append(ev.Fields, fieldSnap{fl, fieldValue(in.ImpPtr, i)})
			}
		}
		return e.finish(ev, b, in.Serial)
	}
	f.onInit = func(v *vault.Vault) error {
		ev := e.begin("oninit", in)
		ev.Vault = v
		if v != nil {
			ev.VKeysF = keysOf(v.LiveFuncs)
			ev.VKeysT = keysOf(v.LiveTypes)
			ev.VBag = len(v.DataBag)
			if b.Bag && v.DataBag != nil {
				v.DataBag[fmt.Sprintf("bag-%d", in.Serial)] = in.Serial
			}
		}
		return e.finish(ev, b, in.Serial)
	}
	f.onFree = func() {
		ev := e.begin("onfree", in)
		_ = e.finish(ev, b, in.Serial)
	}
	f.export = func() interface{} {
		ev := e.begin("export", in)
		_ = e.finish(ev, b, in.Serial)
		e.mu.Lock()
		defer e.mu.Unlock()
		v := in.Export
		if n := len(in.exports); n > 0 { // every call exports something else
			v = makeExport(b.Export, fmt.Sprintf("i%d.b%d.x%d", in.Serial, b.ID, n), 1000+in.Serial+100000*n)
		}
		in.exports = append(in.exports, exportRec{ev.Att, v})
		return v
	}
	f.imp = func() interface{} {
		ev := e.begin("import", in)
		e.makeImport(in)
		_ = e.finish(ev, b, in.Serial)
		return in.Imp
	}
	f.invoke = func(name string, params ...interface{}) (interface{}, error) {
		if name == whoami {
			return in, nil
		}
		ev := e.begin("invoke", in)
		ev.Name, ev.Params = name, params
		if e.atInvoke != nil {
			e.atInvoke(name)
		}
		err := e.finish(ev, b, in.Serial)
		return in.Serial, err
	}
	f.reloadable = func() bool {
		ev := e.begin("reloadable", in)
		_ = e.finish(ev, b, in.Serial)
		return b.Reloadable
	}
	f.liveFuncs = func() map[string]interface{} {
		ev := e.begin("livefuncs", in)
		_ = e.finish(ev, b, in.Serial)
		if b.LFNil {
			return nil
		}
		return in.LF
	}
	f.liveTypes = func() map[string]func() interface{} {
		ev := e.begin("livetypes", in)
		_ = e.finish(ev, b, in.Serial)
		if b.LTNil {
			return nil
		}
		return in.LT
	}
	return f
}

var allSymbols = []string{"OnLoad", "OnInit", "OnFree", "Export", "Import", "InvokeFunc", "Reloadable", "HotswapLiveFuncs", "HotswapLiveTypes"}

func (e *engine) syms(in *Inst) map[string]any {
	f := e.fns(in)
	m := map[string]any{
		"OnLoad": f.onLoad, "OnInit": f.onInit, "OnFree": f.onFree,
		"Export": f.export, "Import": f.imp, "InvokeFunc": f.invoke, "Reloadable": f.reloadable,
		"HotswapLiveFuncs": f.liveFuncs, "HotswapLiveTypes": f.liveTypes,
	}
	for _, s := range in.B.Missing {
		delete(m, s)
	}
	for _, s := range in.B.Wrong {
		if _, ok := m[s]; ok {
			m[s] = func(int, int) string { return "wrong type" }
		}
	}
	return m
}

// fakeOpen mimics plugin.Open: results are cached by real path.
func (e *engine) fakeOpen(name string) (*plugin.Plugin, error) {
	rp, err := filepath.EvalSymlinks(name)
	if err != nil {
		return nil, fmt.Errorf("plugin.Open(%q): realpath failed", name)
	}
	e.mu.Lock()
	if in := e.byPath[rp]; in != nil {
		in.opened++
		in.lastAtt = e.att
		e.mu.Unlock()
		return in.P, nil
	}
	if ng := e.openNg[rp]; ng != "" {
		e.mu.Unlock()
		return nil, fmt.Errorf("plugin.Open(%q): %s (previous failure)", name, ng)
	}
	e.mu.Unlock()
	data, err := os.ReadFile(rp)
	if err != nil {
		return nil, fmt.Errorf("plugin.Open(%q): %w", name, err)
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	b := e.reg[sha256.Sum256(data)]
	if b == nil || b.Bad {
		e.openNg[rp] = "invalid ELF header"
		return nil, fmt.Errorf("plugin.Open(%q): invalid ELF header", name)
	}
	// like the real one, it never opens the same build from another path
	if e.bySum == nil {
		e.bySum = map[[20]byte]*Inst{}
	}
	if e.bySum[sha1.Sum(data)] != nil {
		e.openNg[rp] = "plugin already loaded"
		e.Stats.Labels["already-loaded"]++
		return nil, fmt.Errorf("plugin.Open(%q): plugin already loaded", name)
	}
	in := e.newInst(b)
	in.opened = 1
	in.lastAtt = e.att
	in.Path = rp
	in.Sum = sha1.Sum(data)
	in.P = plugin.FakeNew(fmt.Sprintf("pp/%d", b.ID), e.syms(in))
	e.byPath[rp] = in
	e.bySum[in.Sum] = in
	orig := false
	for d := range e.dirs {
		for n := range e.fs[d] {
			if os.SameFile(statOf(filepath.Join(e.dirs[d], n)), statOf(rp)) {
				orig = true
				e.violate(fmt.Sprintf("the original file %s itself is executed", n), "P12")
			}
		}
	}
	if e.active == "P12" && !orig {
		// The linker maps the file: from now on nobody may write to it (see checkCopies).
		if f, err := os.Open(rp); err == nil {
			in.fd = f
			_ = os.Chtimes(rp, mappedTime, mappedTime)
		}
	}
	return in.P, nil
}

var mappedTime = time.Unix(1_000_000_007, 0)

func (e *engine) closeFiles() {
	for _, in := range e.insts {
		if in.fd != nil {
			_ = in.fd.Close()
		}
	}
}

func statOf(f string) os.FileInfo {
	st, err := os.Stat(f)
	if err != nil {
		return nil
	}
	return st
}

// ---- logger -------------------------------------------------------------

type logger struct{ e *engine }

func (l *logger) rec(level string, args ...any) {
	ev := l.e.begin("log", nil)
	ev.Level = level
	ev.Text = fmt.Sprint(args...)
}
func (l *logger) recf(level, format string, args ...any) {
	ev := l.e.begin("log", nil)
	ev.Level = level
	ev.Text = fmt.Sprintf(format, args...)
}
func (l *logger) NewLoggerWith(...any) slog.Logger { return l }
func (l *logger) Debug(a ...any)                   { l.rec("debug", a...) }
func (l *logger) Info(a ...any)                    { l.rec("info", a...) }
func (l *logger) Warn(a ...any)                    { l.rec("warn", a...) }
func (l *logger) Error(a ...any)                   { l.rec("error", a...) }
func (l *logger) Debugf(f string, a ...any)        { l.recf("debug", f, a...) }
func (l *logger) Infof(f string, a ...any)         { l.recf("info", f, a...) }
func (l *logger) Warnf(f string, a ...any)         { l.recf("warn", f, a...) }
func (l *logger) Errorf(f string, a ...any)        { l.recf("error", f, a...) }
func (l *logger) Debugw(m string, a ...any)        { l.rec("debug", append([]any{m}, a...)...) }
func (l *logger) Infow(m string, a ...any)         { l.rec("info", append([]any{m}, a...)...) }
func (l *logger) Warnw(m string, a ...any)         { l.rec("warn", append([]any{m}, a...)...) }
func (l *logger) Errorw(m string, a ...any)        { l.rec("error", append([]any{m}, a...)...) }
func (l *logger) FlushLogger() error               { return nil }

// ---- directory operations ----------------------------------------------

// register renders a build; bytes decide what a file is, so when they are
// those of an earlier build, it is that build.
func (e *engine) register(b *Build) ([]byte, *Build) {
	data := renderContent(b.Content)
	k := sha256.Sum256(data)
	e.mu.Lock()
	defer e.mu.Unlock()
	if old, ok := e.reg[k]; ok {
		return data, old
	}
	e.reg[k] = b
	return data, b
}

func (e *engine) writeFile(dir int, name, mode string, data []byte) {
	p := filepath.Join(e.dirs[dir], name)
	if m, ok := strings.CutSuffix(mode, "+keep"); ok { // keep the modification time
		mode = m
		if st, err := os.Stat(p); err == nil {
			defer func() { _ = os.Chtimes(p, st.ModTime(), st.ModTime()) }()
		}
	}
	must := func(err error) {
		if err != nil {
			panic(fmt.Sprintf("HARNESS: %v", err))
		}
	}
	switch mode {
	case "symlink": // the directory entry becomes a link to a file kept elsewhere
		e.stored++
		store := filepath.Join(e.base, "store", fmt.Sprintf("v%d", e.stored))
		must(os.MkdirAll(filepath.Dir(store), 0755))
		must(os.WriteFile(store, data, 0644))
		target := store
		if e.stored%2 == 0 {
			rel, err := filepath.Rel(filepath.Dir(p), store)
			must(err)
			target = rel
		}
		_ = os.Remove(p + ".new~")
		must(os.Symlink(target, p+".new~"))
		must(os.Rename(p+".new~", p))
	case "rename":
		must(os.WriteFile(p+".new~", data, 0644))
		must(os.Rename(p+".new~", p))
	case "remove":
		_ = os.Remove(p)
		must(os.WriteFile(p, data, 0644))
	default: // in place: same inode
		must(os.WriteFile(p, data, 0644))
	}
}

func (e *engine) applySwap(s *Swap) {
	data, b := e.register(s.Build)
	e.writeFile(e.curDir, s.File, "inplace", data)
	e.mu.Lock()
	e.fs[e.curDir][s.File] = &fileEnt{kind: "file", build: b, bytes: data}
	e.mu.Unlock()
}

// ---- running a case -----------------------------------------------------

// API calls guarded against escaping panics.
func guard(f func()) (escaped any, stack string) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(string); ok && strings.HasPrefix(s, "HARNESS:") {
				panic(r)
			}
			escaped = r
			if r == nil {
				escaped = "nil panic"
			}
			buf := make([]byte, 4096)
			stack = string(buf[:runtime.Stack(buf, false)])
		}
	}()
	f()
	return nil, ""
}

// Run interprets a scenario; it must be called inside a synctest bubble.
func (e *engine) run() {
	e.start = time.Now()
	plugin.FakeOpen = e.fakeOpen
	e.reg = map[[32]byte]*Build{}
	e.byPath = map[string]*Inst{}
	e.openNg = map[string]string{}
	e.gone = map[int]string{}
	if e.Stats == nil {
		e.Stats = &CaseStats{}
	}
	e.Stats.ReasonCounts = map[string]int{}
	e.Stats.Labels = map[string]int{}
	n := e.sc.Cfg.Dirs
	if n < 1 {
		n = 1
	}
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("d%d", i)
		if i < len(e.sc.Cfg.DirNames) && e.sc.Cfg.DirNames[i] != "" {
			name = e.sc.Cfg.DirNames[i]
		}
		d := filepath.Join(e.base, name)
		if err := os.MkdirAll(d, 0755); err != nil {
			panic("HARNESS: " + err.Error())
		}
		e.dirs = append(e.dirs, d)
		e.fs = append(e.fs, map[string]*fileEnt{})
	}
	if e.sc.Cfg.DirForm == "relative" {
		wd, err := os.Getwd()
		if err == nil {
			err = os.Chdir(e.base)
		}
		if err != nil {
			panic("HARNESS: " + err.Error())
		}
		defer func() { _ = os.Chdir(wd) }()
	}
	e.lg = &logger{e}
	var opts []hotswap.Option
	opts = append(opts, hotswap.WithLogger(e.lg))
	cfg := e.sc.Cfg
	freeDelay := 5 * time.Minute
	if cfg.FreeDelayMs != nil {
		freeDelay = time.Duration(*cfg.FreeDelayMs) * time.Millisecond
		opts = append(opts, hotswap.WithFreeDelay(freeDelay))
	}
	if freeDelay < 15*time.Second {
		freeDelay = 15 * time.Second
	}
	if cfg.Ext {
		opts = append(opts, hotswap.WithExtensionNewer(func() interface{} {
			e.begin("newext", nil)
			e.extN++
			var x any = &T0{fmt.Sprintf("ext%d", e.extN)}
			if k := cfg.ExtNil; k > 0 && e.extN%k == 0 {
				x = nil
			}
			e.exts = append(e.exts, x)
			return x
		}))
	}
	if cfg.CB {
		opts = append(opts, hotswap.WithReloadCallback(func(n, o *hotswap.PluginManager) error {
			return e.callback("cb0", n, o)
		}))
	}
	if len(cfg.Whitelist) > 0 {
		opts = append(opts, hotswap.WithWhitelist(cfg.Whitelist...))
	}
	e.model = &model{e: e, delay: freeDelay}
	e.mkSwapper = func() {
		if cfg.Static {
			opts = append(opts, hotswap.WithStaticPlugins(e.staticTable()))
		}
		e.sw = hotswap.NewPluginManagerSwapper(e.dirForm(0), opts...)
		if e.sw.Current() != nil {
			e.violate("there is a current manager before any load", "P15", "P01")
		}
		if e.sw.StaticLinkingMode() != cfg.Static {
			e.violate(fmt.Sprintf("StaticLinkingMode() is %v, want %v", !cfg.Static, cfg.Static), "P13")
		}
	}
	if !cfg.Static {
		e.mkSwapper()
	} else { // a table without plugins is a table, too
		z := hotswap.NewPluginManagerSwapper(e.dirForm(0), hotswap.WithLogger(e.lg), hotswap.WithStaticPlugins(map[string]*hotswap.StaticPlugin{}))
		var err error
		esc, _ := guard(func() { _, err = z.Reload(nil) })
		if !z.StaticLinkingMode() || err == nil || esc != nil || z.Current() != nil || z.ReloadCounter() != 0 {
			e.violate(fmt.Sprintf("with an empty static table StaticLinkingMode() is %v and Reload returned %v (panic: %v)", z.StaticLinkingMode(), err, esc), "P13")
		}
		junk := filepath.Join(e.dirs[0], "file.so")
		if err := os.WriteFile(junk, []byte("not a plugin"), 0644); err != nil {
			panic("HARNESS: " + err.Error())
		}
		esc, _ = guard(func() { _, err = z.LoadPlugins(nil) })
		if err != nil || esc != nil {
			e.violate(fmt.Sprintf("with an empty static table LoadPlugins returned %v (panic: %v)", err, esc), "P13")
		}
		_ = os.Remove(junk)
	}
	for i := range e.sc.Steps {
		if e.stop {
			break
		}
		e.step(i, &e.sc.Steps[i])
	}
	if e.sc.Profile == "P13" {
		e.sum = e.summary()
	}
	if !e.stop {
		e.epilogue()
	}
	// let every delayed release in this bubble finish
	time.Sleep(e.model.delay + time.Hour)
}

// dirForm is the i-th plugin directory, written in the form the case asks for.
func (e *engine) dirForm(i int) string {
	d := e.dirs[i]
	n := filepath.Base(d)
	switch e.sc.Cfg.DirForm {
	case "slash":
		return d + "/"
	case "slashes":
		return filepath.Dir(d) + "//" + n + "//"
	case "dot":
		return d + "/."
	case "dotdot":
		return d + "/../" + n
	case "relative":
		return "./" + n
	case "symlink":
		l := filepath.Join(e.base, fmt.Sprintf("link%d", i))
		if err := os.Symlink(d, l); err != nil && !os.IsExist(err) {
			panic("HARNESS: " + err.Error())
		}
		return l
	}
	return d
}

// staticTable makes static plugins of the files in the first directory.
func (e *engine) staticTable() map[string]*hotswap.StaticPlugin {
	m := map[string]*hotswap.StaticPlugin{}
	e.statics = map[*Build]*Inst{}
	for n, ent := range e.fs[0] {
		if ent.kind != "file" || ent.build == nil || !strings.HasSuffix(n, ".so") {
			continue
		}
		b := ent.build
		e.mu.Lock()
		in := e.newInst(b)
		e.mu.Unlock()
		in.static = true
		e.statics[b] = in
		f := e.fns(in)
		for _, x := range b.Missing {
			switch x {
			case "OnLoad":
				f.onLoad = nil
			case "OnInit":
				f.onInit = nil
			case "OnFree":
				f.onFree = nil
			case "Export":
				f.export = nil
			case "Import":
				f.imp = nil
			case "InvokeFunc":
				f.invoke = nil
			case "Reloadable":
				f.reloadable = nil
			case "HotswapLiveFuncs":
				f.liveFuncs = nil
			case "HotswapLiveTypes":
				f.liveTypes = nil
			}
		}
		name := strings.TrimSuffix(n, ".so")
		m[name] = &hotswap.StaticPlugin{Name: name, PluginFuncs: hotswap.NewPluginFuncs(
			f.export, f.liveFuncs, f.liveTypes, f.imp, f.invoke, f.onFree, f.onInit, f.onLoad, f.reloadable)}
	}
	return m
}

func (e *engine) callback(kind string, n, o *hotswap.PluginManager) error {
	ev := e.begin(kind, nil)
	ev.New, ev.Old = n, o
	st := e.model.step
	if n != nil {
		ev.VKeysF = keysOf(n.LiveFuncs)
		ev.VKeysT = keysOf(n.LiveTypes)
		ev.Params = []any{len(n.Plugins())}
	}
	if st != nil && st.CBSleep > 0 {
		time.Sleep(time.Duration(st.CBSleep) * time.Millisecond)
	}
	var f *Fault
	if st != nil {
		if kind == "cb0" {
			f = st.CB0
		} else {
			f = st.CB1
		}
	}
	ev.TEnd = e.now()
	if f == nil {
		ev.Done = true
		return nil
	}
	ev.Failed = true
	tag := fmt.Sprintf("FAULT-%s-%d", kind, ev.Att)
	if f.Kind == "err" {
		err, tagged := makeErr(f.Val, tag)
		if tagged {
			ev.Tag = tag
		}
		return err
	}
	if _, tagged := makePanic(f.Val, tag); tagged {
		ev.Tag = tag
	}
	raise(*f, tag)
	return nil
}

func (e *engine) step(i int, st *Step) {
	dirOK := e.gone[st.Dir] == "" && st.Dir < len(e.dirs)
	if st.Dir >= len(e.dirs) {
		return
	}
	fs := e.fs[st.Dir]
	path := filepath.Join(e.dirs[st.Dir], st.File)
	switch st.Op {
	case "put":
		if !dirOK || st.Build == nil {
			return
		}
		if ent := fs[st.File]; ent != nil && ent.kind != "file" && ent.kind != "junk" {
			return
		}
		data, b := e.register(st.Build)
		for n, ent := range fs { // two plugins never share a build
			if n != st.File && ent.build == b {
				return
			}
		}
		e.writeFile(st.Dir, st.File, st.Mode, data)
		fs[st.File] = &fileEnt{kind: "file", build: b, bytes: data}
		if len(data) > 60000 {
			e.Stats.BigFiles++
		}
	case "copy": // copy the current file to another directory / name, same bytes
		if !dirOK || st.Mgr >= len(e.dirs) || e.gone[st.Mgr] != "" {
			return
		}
		ent := e.fs[st.Mgr][st.File]
		if ent == nil || ent.kind != "file" || (fs[st.File] != nil && fs[st.File].kind != "file") {
			return
		}
		e.writeFile(st.Dir, st.File, st.Mode, ent.bytes)
		fs[st.File] = &fileEnt{kind: "file", build: ent.build, bytes: ent.bytes}
	case "renamecase":
		if !dirOK {
			return
		}
		ent := fs[st.File]
		if ent == nil || ent.kind != "file" || fs[st.Text] != nil {
			return
		}
		if err := os.Rename(path, filepath.Join(e.dirs[st.Dir], st.Text)); err != nil {
			panic("HARNESS: " + err.Error())
		}
		delete(fs, st.File)
		fs[st.Text] = ent
	case "touch":
		if dirOK && fs[st.File] != nil && fs[st.File].kind == "file" {
			t := time.Date(2001+i%20, 1, 1, 0, 0, i, 0, time.UTC)
			_ = os.Chtimes(path, t, t)
			if st.Mode == "rename" {
				e.writeFile(st.Dir, st.File, "rename", fs[st.File].bytes)
			}
		}
	case "del":
		if dirOK && fs[st.File] != nil {
			_ = os.RemoveAll(path)
			delete(fs, st.File)
		}
	case "junk": // a file that is not a plugin file
		if _, err := os.Lstat(path); err == nil && fs[st.File] == nil {
			return // the library's own
		}
		if dirOK && fs[st.File] == nil {
			data := []byte(st.Text)
			e.writeFile(st.Dir, st.File, "", data)
			fs[st.File] = &fileEnt{kind: "junk", bytes: data}
		}
	case "mkdir":
		if dirOK && fs[st.File] == nil {
			_ = os.MkdirAll(path, 0755)
			_ = os.WriteFile(filepath.Join(path, "inner.so"), []byte("junk"), 0644)
			fs[st.File] = &fileEnt{kind: "dir"}
		}
	case "dangling":
		if dirOK && fs[st.File] == nil {
			_ = os.Symlink(filepath.Join(e.base, "nowhere"), path)
			fs[st.File] = &fileEnt{kind: "dangling"}
		}
	case "setdir":
		e.curDir = st.Dir
		e.sw.ResetPluginDir(e.dirForm(st.Dir))
	case "breakdir":
		if !dirOK {
			return
		}
		_ = os.Rename(e.dirs[st.Dir], e.dirs[st.Dir]+".away")
		e.gone[st.Dir] = "missing"
		if st.Mode == "file" {
			_ = os.WriteFile(e.dirs[st.Dir], []byte("x"), 0644)
			e.gone[st.Dir] = "file"
		}
	case "fixdir":
		if e.gone[st.Dir] == "" {
			return
		}
		_ = os.RemoveAll(e.dirs[st.Dir])
		_ = os.Rename(e.dirs[st.Dir]+".away", e.dirs[st.Dir])
		delete(e.gone, st.Dir)
	case "load", "reload", "reloadcb":
		e.doLoad(st)
		synctest.Wait()
	case "advance":
		if st.Until == "second" {
			d := time.Second - time.Duration(time.Now().Nanosecond())
			time.Sleep(d)
		} else {
			time.Sleep(time.Duration(st.Ms) * time.Millisecond)
		}
		synctest.Wait()
		e.checkFrees()
	case "invoke":
		e.doInvoke(st)
	case "find":
		e.doFind(st)
	case "pollute":
		e.doPollute(st)
	default:
		panic("HARNESS: op " + st.Op)
	}
	if !e.stop {
		e.checkRetained(st.Op)
		e.checkCopies()
	}
}

func (e *engine) originals(dir int) map[string]string {
	m := map[string]string{}
	if e.gone[dir] != "" {
		return m
	}
	for n, ent := range e.fs[dir] {
		p := filepath.Join(e.dirs[dir], n)
		st, err := os.Lstat(p)
		if err != nil {
			m[n] = "missing"
			continue
		}
		s := fmt.Sprintf("%v %d %v", st.Mode(), st.ModTime().UnixNano(), ent.kind)
		if ent.kind == "file" || ent.kind == "junk" {
			data, _ := os.ReadFile(p)
			if bytes.Equal(data, ent.bytes) {
				s += " same"
			} else {
				s += fmt.Sprintf(" differs %x", sha1.Sum(data))
			}
		}
		m[n] = s
	}
	return m
}
