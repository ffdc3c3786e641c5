package rt

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
)

// Stats is what a worker process reports to the driver.
type Stats struct {
	Evaluations int
	NonTrivial  int
	Hashes      []uint64 // distinct non-trivial cases
	Labels      map[string]int
	Samples     []json.RawMessage
	BudgetHit   bool
	Violation   *Failure
}

// Failure is a violation and the case that shows it: the replay file.
type Failure struct {
	Property string
	Harness  string
	Message  string
	Case     json.RawMessage
}

type worker struct {
	prop     string
	harness  string
	out      string
	st       Stats
	seen     map[uint64]bool
	last     *Failure
	deadline time.Time
	caseAt   atomic.Int64 // unix nanos, 0 = none
	cpuAt    atomic.Int64
	curFile  string
	base     string
}

var w *worker

func cpuTime() time.Duration {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func envInt(name string, def int) int {
	if v := os.Getenv(name); v != "" {
		if n, err := strconv.Atoi(v); err == nil {
			return n
		}
	}
	return def
}

func TestMain(m *testing.M) {
	w = &worker{prop: os.Getenv("HS_PROP"), harness: os.Getenv("HS_HARNESS"), out: os.Getenv("HS_OUT"), seen: map[uint64]bool{}}
	w.st.Labels = map[string]int{}
	w.deadline = time.Now().Add(time.Duration(envInt("HS_BUDGET", 3600)) * time.Second)
	w.base = os.Getenv("HS_BASE")
	w.curFile = os.Getenv("HS_CUR")
	if w.base == "" {
		d, err := os.MkdirTemp("", "hsverif-")
		if err != nil {
			panic(err)
		}
		w.base = d
		defer os.RemoveAll(d)
	}
	go w.watchdog()
	code := m.Run()
	w.save()
	os.Exit(code)
}

func (w *worker) save() {
	if w.out == "" {
		return
	}
	for h := range w.seen {
		w.st.Hashes = append(w.st.Hashes, h)
	}
	sort.Slice(w.st.Hashes, func(i, j int) bool { return w.st.Hashes[i] < w.st.Hashes[j] })
	w.st.Violation = w.last
	data, _ := json.Marshal(&w.st)
	_ = os.WriteFile(w.out, data, 0644)
}

// watchdog looks at a case that makes no progress. A deadlock inside hotswap
// (every goroutine blocked, one of them in a lock taken by hotswap, no CPU
// used) and a case that burns minutes of CPU are violations; anything else
// ends the process with an error.
func (w *worker) watchdog() {
	stuck := 0
	var lastAt int64
	for {
		time.Sleep(2 * time.Second)
		at := w.caseAt.Load()
		if at == 0 || at != lastAt {
			lastAt, stuck = at, 0
			continue
		}
		cpu0 := cpuTime()
		d1 := dump()
		time.Sleep(3 * time.Second)
		cpu1 := cpuTime()
		d2 := dump()
		if w.caseAt.Load() != at {
			continue
		}
		stuck++
		if l := lockedInHotswap(d1); l != "" && l == lockedInHotswap(d2) && cpu1-cpu0 < 150*time.Millisecond && stuck >= 3 {
			w.hang("deadlock", "a call is blocked forever on a lock inside hotswap:\n"+l)
		}
		if used := cpu1 - time.Duration(w.cpuAt.Load()); used > 90*time.Second {
			w.hang("cpu", fmt.Sprintf("a call has not ended after %v of CPU time", used.Round(time.Second)))
		}
		if time.Since(time.Unix(0, at)) > 500*time.Second {
			fmt.Fprintln(os.Stderr, "HARNESS: case makes no progress, no verdict")
			fmt.Fprintln(os.Stderr, d2)
			os.Exit(4)
		}
	}
}

func dump() string {
	buf := make([]byte, 1<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

// lockedInHotswap returns the stack of a goroutine that hotswap code has put
// into a lock while no other goroutine is inside hotswap code and able to run.
func lockedInHotswap(d string) string {
	found := ""
	for _, g := range strings.Split(d, "\n\n") {
		if !strings.Contains(g, "edwingeng/hotswap.") {
			continue
		}
		head := g
		if i := strings.IndexByte(g, '\n'); i >= 0 {
			head = g[:i]
		}
		switch {
		case strings.Contains(head, "sync.Mutex.Lock") || strings.Contains(head, "sync.RWMutex") || strings.Contains(head, "semacquire"):
			found = g
		case strings.Contains(head, "running") || strings.Contains(head, "runnable") || strings.Contains(head, "syscall") || strings.Contains(head, "IO wait") || strings.Contains(head, "sleep"):
			return ""
		}
	}
	// strip addresses and ages, which differ between samples
	var out []string
	for i, l := range strings.Split(found, "\n") {
		if i == 0 {
			continue
		}
		if j := strings.LastIndex(l, "("); j > 0 && !strings.HasPrefix(l, "\t") {
			l = l[:j]
		}
		out = append(out, l)
	}
	return strings.Join(out, "\n")
}

func (w *worker) hang(kind, msg string) {
	data, _ := os.ReadFile(w.curFile)
	w.last = &Failure{Property: w.prop, Harness: w.harness, Message: kind + ": " + msg, Case: data}
	w.save()
	os.Exit(7)
}

func (w *worker) beginCase(v any) []byte {
	data, err := json.Marshal(v)
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	if w.curFile != "" {
		_ = os.WriteFile(w.curFile, data, 0644)
	}
	w.cpuAt.Store(int64(cpuTime()))
	w.caseAt.Store(time.Now().UnixNano())
	return data
}

func (w *worker) endCase() { w.caseAt.Store(0) }

// record counts a case.
func (w *worker) record(data []byte, nontrivial bool, labels map[string]int) {
	if w.last != nil { // shrinking a failure, not exploring
		return
	}
	w.st.Evaluations++
	for k, v := range labels {
		if v > 0 {
			w.st.Labels[k]++
		}
	}
	if !nontrivial {
		return
	}
	w.st.NonTrivial++
	h := fnv.New64a()
	_, _ = h.Write(data)
	if !w.seen[h.Sum64()] {
		w.seen[h.Sum64()] = true
		if len(w.st.Samples) < 2 && len(data) < 6000 || len(w.st.Samples) == 0 {
			w.st.Samples = append(w.st.Samples, append(json.RawMessage(nil), data...))
		}
	}
}

func (w *worker) over() bool {
	if w.last != nil {
		return false
	}
	if time.Now().After(w.deadline) {
		w.st.BudgetHit = true
		w.save()
		os.Exit(0)
	}
	return false
}

var caseN int

// runScenario runs one scenario in a fresh bubble and directory.
func runScenario(t *testing.T, sc *Scenario, prop string) ([]Violation, *CaseStats) {
	caseN++
	d := filepath.Join(w.base, fmt.Sprintf("c%d", caseN))
	if err := os.MkdirAll(d, 0755); err != nil {
		panic("HARNESS: " + err.Error())
	}
	defer os.RemoveAll(d)
	e := &engine{sc: sc, active: prop, base: d}
	defer e.closeFiles()
	synctest.Test(t, func(t *testing.T) { e.run() })
	if sc.Cfg.Static && len(e.viols) == 0 {
		// the same plugins from files must come to the same
		d2 := filepath.Join(d, "twin")
		if err := os.MkdirAll(d2, 0755); err != nil {
			panic("HARNESS: " + err.Error())
		}
		e2 := &engine{sc: sc.twin(), active: "-", base: d2}
		synctest.Test(t, func(t *testing.T) { e2.run() })
		if e.sum != e2.sum {
			e.viols = append(e.viols, Violation{[]string{"P13"}, fmt.Sprintf("static linking and dynamic loading of the same plugins differ.\nstatic:\n%s\ndynamic:\n%s", e.sum, e2.sum)})
		}
	}
	return e.viols, e.Stats
}

func TestScenario(t *testing.T) {
	if w.harness != "scenario" {
		t.Skip()
	}
	rapid.Check(t, func(rt *rapid.T) {
		sc := GenScenario(rt, w.prop)
		if w.over() {
			return
		}
		data := w.beginCase(sc)
		viols, st := runScenario(t, sc, w.prop)
		w.endCase()
		if len(viols) > 0 {
			w.last = &Failure{Property: w.prop, Harness: w.harness, Message: viols[0].Msg, Case: data}
			rt.Fatalf("%s: %s", w.prop, viols[0].Msg)
		}
		w.record(data, nontrivial(w.prop, st), labelsOf(st))
	})
}

func labelsOf(st *CaseStats) map[string]int {
	m := map[string]int{
		"success": st.OK, "failure": st.Failed, "nil-nil": st.NilNil, "carried-over": st.Carried, "dropped": st.Dropped,
		"freed-after-delay": st.FreedDelayed, "freed-on-failure": st.FreedFailed, "invoke": st.Invokes, "invoke-fault": st.InvokeFaults,
		"wired": st.Wired, "nil-wired": st.NilWired, "ignored-field": st.IgnoredField, "overlapping-delays": st.OverlapSuperseded,
		"big-file": st.BigFiles,
	}
	for k, v := range st.ReasonCounts {
		m["refused:"+k] = v
	}
	for k, v := range st.Labels {
		m[k] = v
	}
	if st.DepDepth >= 3 {
		m["depth>=3"] = 1
	}
	if st.MaxPlugins >= 6 {
		m["plugins>=6"] = 1
	}
	return m
}

func nontrivial(prop string, st *CaseStats) bool {
	switch prop {
	case "P01":
		return st.OK > 0 && st.Failed > 0
	case "P02":
		return st.OK > 0 && st.MaxPlugins >= 2 && (st.Failed > 0 || st.Carried > 0)
	case "P03":
		return st.DepDepth >= 2
	case "P04":
		return st.Wired > 0
	case "P05":
		n := 0
		for k, v := range st.ReasonCounts {
			switch k {
			case "unknown-dependency", "cycle", "export-not-assignable", "import-not-struct-pointer", "embedded-field", "non-reloadable-on-reloadable", "dependency-removed", "dependency-rebuilt":
				n += v
			}
		}
		return n > 0 || st.MaxDeps >= 2
	case "P06":
		return st.OK >= 2 && st.Carried > 0
	case "P07":
		return st.FreedDelayed > 0 && (st.Carried > 0 || st.FreedFailed > 0)
	case "P08":
		return st.LiveNames >= 2 && st.MaxPlugins >= 2
	case "P09":
		return st.InvokeFaults > 0
	case "P11":
		return st.OK+st.NilNil > 0 && st.Loads >= 2
	case "P12":
		return st.OK >= 2
	case "P13":
		return st.MaxDeps >= 1 || st.Failed > 0
	case "P15":
		return st.Retained >= 2
	}
	return st.OK > 0
}

// TestReplay runs one saved case, several times because hotswap iterates maps.
func TestReplay(t *testing.T) {
	f := os.Getenv("HS_REPLAY")
	if f == "" {
		t.Skip()
	}
	data, err := os.ReadFile(f)
	if err != nil {
		t.Fatal(err)
	}
	var fail Failure
	if err := json.Unmarshal(data, &fail); err != nil {
		t.Fatal(err)
	}
	w.prop, w.harness = fail.Property, fail.Harness
	tries := envInt("HS_TRIES", 30)
	for i := 0; i < tries; i++ {
		msg := replayOne(t, &fail)
		w.st.Evaluations++
		if msg != "" {
			w.last = &Failure{Property: fail.Property, Harness: fail.Harness, Message: msg, Case: fail.Case}
			t.Fatalf("%s: %s", fail.Property, msg)
		}
	}
}

func replayOne(t *testing.T, fail *Failure) string {
	switch fail.Harness {
	case "scenario":
		var sc Scenario
		if err := json.Unmarshal(fail.Case, &sc); err != nil {
			t.Fatal(err)
		}
		w.beginCase(&sc)
		viols, _ := runScenario(t, &sc, fail.Property)
		w.endCase()
		if len(viols) > 0 {
			return viols[0].Msg
		}
	default:
		if f := replayers[fail.Harness]; f != nil {
			return f(t, fail)
		}
		t.Fatalf("unknown harness %q", fail.Harness)
	}
	return ""
}

var replayers = map[string]func(t *testing.T, fail *Failure) string{}
