package rt

import (
	"crypto/sha1"
	"fmt"
	"sort"
	"strings"
	"unicode"

	"pgregory.net/rapid"
)

// Profile steers the scenario generator towards one property's hard cases.
type Profile struct {
	MaxPlugins  int
	MaxRounds   int
	Mistake     int // % of rounds that carry a mistake
	Kinds       []string
	DepPct      int
	NonReload   int
	Live        int // max live names per plugin
	NilExport   int
	Ignored     int // % of plugins with ignored/unexported fields
	Sleep       int // % of builds with sleeping hooks
	LongSleep   bool
	OnFreePanic int
	InvokeFault int
	Invoke      int // % of rounds followed by Invoke steps
	Find        int
	Pollute     int
	Edit        int // % of plugins edited per round
	ByteEdit    int // % of edits that change single bytes only
	Touch       int
	AddDel      int
	Big         int // % of builds with big files
	Junk        int
	Dirs        bool
	Whitelist   int
	OddNames    int
	CaseDup     int
	BreakDir    int
	Rollback    int
	Swap        int
	CB          int
	SameSecond  int
	OldMgr      bool
	Twins       int // % of contents that get a partner with the same short checksum
	Many        int // % of cases with very many builds of few plugins
	DirNames    int // % of cases with unusual plugin directory names and forms
	LoadOp      int // % of loads through LoadPlugins after the first
	Dense       bool
}

var mistakeAll = []string{"fault", "fault", "fault", "missing", "wrong", "badfile", "unknown", "cycle", "selfdep", "mismatch", "impkind", "anon", "nonrel", "nodeps-closure", "deldep", "duplive", "livenil", "cb", "dangling"}

func base() Profile {
	return Profile{MaxPlugins: 7, MaxRounds: 6, Mistake: 25, Kinds: mistakeAll, DepPct: 45, NonReload: 20, Live: 2, NilExport: 15,
		Ignored: 20, Invoke: 10, Edit: 35, ByteEdit: 20, Touch: 10, AddDel: 20, Junk: 5, OddNames: 25, CB: 30, SameSecond: 30, LoadOp: 15, DirNames: 10, Twins: 1}
}

// Profiles by property.
func ProfileFor(id string) Profile {
	p := base()
	switch id {
	case "P01":
		p.Mistake, p.MaxRounds, p.Sleep, p.CB, p.Invoke = 60, 8, 15, 50, 10
		p.BreakDir, p.InvokeFault = 8, 0
	case "P02":
		p.Mistake, p.CB, p.Sleep = 45, 60, 10
		p.Kinds = []string{"fault", "fault", "fault", "fault", "cb", "cb", "missing", "unknown", "cycle", "duplive", "nodeps-closure"}
	case "P03":
		p.MaxPlugins, p.DepPct, p.Mistake, p.Invoke = 14, 70, 25, 40
		p.Kinds = []string{"fault", "cb", "duplive"}
		p.Dense = true
	case "P04":
		p.MaxPlugins, p.DepPct, p.NilExport, p.Ignored, p.Mistake, p.MaxRounds = 8, 80, 30, 60, 8, 5
		p.OddNames = 50
	case "P05":
		p.MaxPlugins, p.DepPct, p.Mistake, p.NonReload = 10, 65, 60, 35
		p.Dense = true
		p.Kinds = []string{"unknown", "cycle", "cycle", "selfdep", "mismatch", "impkind", "anon", "nonrel", "nonrel", "nodeps-closure", "nodeps-closure", "nodeps-closure", "deldep", "deldep", "deldep", "mismatch"}
	case "P06":
		p.MaxPlugins, p.MaxRounds, p.Mistake, p.Edit, p.ByteEdit, p.Touch, p.AddDel, p.Big, p.Dirs = 9, 9, 10, 35, 50, 30, 40, 6, true
		p.NonReload, p.Rollback = 30, 8
		p.Twins = 12
	case "P07":
		p.MaxRounds, p.Mistake, p.Sleep, p.LongSleep, p.OnFreePanic, p.AddDel = 10, 30, 20, true, 15, 30
		p.MaxPlugins, p.Rollback, p.SameSecond = 6, 25, 30
	case "P08":
		p.Live, p.Mistake, p.Pollute, p.MaxPlugins = 5, 30, 35, 8
		p.Kinds = []string{"duplive", "duplive", "duplive", "livenil", "fault", "cb"}
	case "P09":
		p.Invoke, p.InvokeFault, p.Mistake, p.MaxRounds, p.MaxPlugins, p.OldMgr = 100, 45, 5, 4, 10, true
	case "P11":
		p.Junk, p.Whitelist, p.OddNames, p.CaseDup, p.BreakDir, p.Dirs, p.Mistake, p.AddDel = 60, 45, 60, 12, 12, true, 5, 60
		p.DepPct = 10
		p.DirNames = 50
	case "P12":
		p.Big, p.SameSecond, p.Edit, p.ByteEdit, p.Mistake, p.Swap, p.MaxPlugins, p.MaxRounds, p.Rollback, p.Dirs = 8, 70, 60, 50, 10, 6, 5, 8, 10, true
		p.Twins, p.Many = 15, 1
	case "P15":
		p.MaxRounds, p.OldMgr, p.Invoke, p.Find, p.Mistake, p.AddDel = 8, true, 40, 60, 20, 30
		p.OddNames = 50
	case "P10":
		p.Mistake = 35
	}
	return p
}

// pct is true with probability p percent. rapid's integers are biased towards
// small values, so it compares fair bits with the threshold, most significant
// first; all bits zero is false, which is what shrinking prefers.
func pct(t *rapid.T, p int, label string) bool {
	if p <= 0 {
		return false
	}
	if p >= 100 {
		return true
	}
	thr := (100 - p) * 1024 / 100
	for i := 9; i >= 0; i-- {
		u, w := rapid.Bool().Draw(t, label), thr>>i&1 == 1
		if u != w {
			return u
		}
	}
	return true
}

// rng draws uniformly from lo..hi, shrinking towards lo.
func rng(t *rapid.T, lo, hi int, label string) int {
	n := hi - lo + 1
	if n <= 1 {
		return lo
	}
	bits := 0
	for 1<<bits < n {
		bits++
	}
	u := 0
	for i := 0; i < bits+3; i++ {
		u <<= 1
		if rapid.Bool().Draw(t, label) {
			u |= 1
		}
	}
	return lo + u*n>>(bits+3)
}

func pick[T any](t *rapid.T, a []T, label string) T { return a[rng(t, 0, len(a)-1, label)] }

type gplug struct {
	name    string
	rank    int
	deps    []int
	export  string
	rel     bool
	lf, lt  []string
	content Content
	twin    *Content // other content with the same short checksum
	onDisk  bool
	last    *Build
	dropped bool
}

type gen struct {
	t       *rapid.T
	p       Profile
	sc      *Scenario
	pl      []*gplug
	ids     int
	dir     int
	hist    []Content
	bytes   map[[20]byte]bool
	nosleep bool
	huge    bool
	chain   bool
	twins   map[int]bool
	many    bool
}

var plainNames = []string{"arya", "snow", "stubborn", "Alpha", "beta", "Gamma2", "delta_x", "e", "Foo", "foobar", "zed", "Hodor", "ned", "Ygritte", "umber", "W"}
var oddNames = []string{"a-b", "c.d", "plug.so", "Дым", "Éclair", "日本", "9lives", "with space", "UPPER", "mIxEd", "ñandú", "_under", "x.y.z", "Ωmega", "λ", "ämter", "a+b", "İx", ".hid", "", "tmp", "x~"}

func identLike(s string) bool {
	for i, r := range s {
		if !(unicode.IsLetter(r) || r == '_' || i > 0 && unicode.IsDigit(r)) {
			return false
		}
	}
	return s != ""
}

func upperOK(r rune) bool {
	u := unicode.ToUpper(r)
	return unicode.IsUpper(u) && unicode.ToLower(u) == unicode.ToLower(r)
}

// dependable: a Go struct field can name this plugin.
func dependable(name string) bool {
	if !identLike(name) {
		return false
	}
	for _, r := range name {
		return upperOK(r)
	}
	return false
}

func (g *gen) fieldName(name string) string {
	rs := []rune(name)
	rs[0] = unicode.ToUpper(rs[0])
	if pct(g.t, 40, "case") {
		for i := 1; i < len(rs); i++ {
			if upperOK(rs[i]) && rapid.Bool().Draw(g.t, "up") {
				rs[i] = unicode.ToUpper(rs[i])
			} else if l := unicode.ToLower(rs[i]); strings.ToLower(string(rs[i])) == string(l) {
				rs[i] = l
			}
		}
	}
	if s := string(rs); strings.ToLower(s) == strings.ToLower(name) {
		return s
	}
	rs2 := []rune(name)
	rs2[0] = unicode.ToUpper(rs2[0])
	return string(rs2)
}

func (g *gen) newName() string {
	t := g.t
	for i := 0; ; i++ {
		var n string
		switch {
		case pct(t, g.p.OddNames, "odd"):
			if rapid.Bool().Draw(t, "rnd") {
				n = rapid.StringMatching(`[A-Za-z][A-Za-z0-9_.-]{0,5}[A-Za-z0-9]`).Draw(t, "name")
			} else {
				n = pick(t, oddNames, "name")
			}
		default:
			n = pick(t, plainNames, "name")
		}
		if i > 8 || g.huge {
			n = fmt.Sprintf("p%d", len(g.pl)*100+i)
		}
		ok := strings.ToLower(n) != "tmp"
		for _, x := range g.pl {
			if strings.EqualFold(x.name, n) || strings.ToLower(x.name) == strings.ToLower(n) {
				ok = false
			}
		}
		if ok {
			return n
		}
	}
}

func (g *gen) newContent() Content {
	t := g.t
	g.ids++
	c := Content{Seed: g.ids, Size: rng(t, 8, 40, "size")}
	if pct(t, g.p.Big, "big") {
		c.Size = pick(t, []int{511, 512, 4095, 4096, 4097, 32768, 65535, 65536, 65537, 200000, 1 << 20, 1<<20 + 1, 3 << 20}, "bigsize")
		if pct(t, 10, "bigger") {
			c.Size = pick(t, []int{4<<20 + 1, 6 << 20, 9 << 20, 17 << 20}, "biggersize")
		}
	}
	return c
}

// twinContents are pairs of seeds whose contents of the given size have the
// same short checksum: 32 bits of sha1 or md5, crc32, adler32, fnv, xxhash, and
// short checksums of the sha1 sum.
var twinContents = []struct{ size, a, b int }{
	{8, 113159, 218577}, {8, 184760, 233601}, // sha1, first 4 bytes
	{8, 156197, 167168}, {8, 228103, 294853}, // sha1, last 4 bytes
	{8, 101094, 177333}, {8, 102768, 183514}, // md5, first 4 bytes
	{8, 270258, 271850}, {8, 276659, 276670}, // crc32 of sha1
	{8, 157419, 262285}, {8, 272260, 280695}, // xxh32 of sha1
	{8, 100032, 100257}, {8, 100033, 100258}, // adler32
	{8, 303349, 781344}, {8, 303348, 781345}, // fnv32a
	{8, 593823, 818568}, {8, 593816, 818575}, // fnv32
	{8, 159471, 176351}, {8, 107695, 197839}, // fnv32a of sha1
	{24, 221340, 221916}, {24, 145080, 332630}, // crc32
	{24, 113624, 158365}, {24, 132490, 178975}, // xxh32
	{24, 115617, 121855}, {24, 255091, 262901}, // crc32 castagnoli
}

func (g *gen) twinContent(x *gplug) bool {
	if !pct(g.t, g.p.Twins, "twin") {
		return false
	}
	i := rng(g.t, 0, len(twinContents)-1, "which")
	if g.twins[i] {
		return false
	}
	if g.twins == nil {
		g.twins = map[int]bool{}
	}
	g.twins[i] = true
	w := twinContents[i]
	x.content = Content{Seed: w.a, Size: w.size}
	x.twin = &Content{Seed: w.b, Size: w.size}
	return true
}

func (g *gen) addPlugin() *gplug {
	t := g.t
	x := &gplug{name: g.newName(), rank: rng(t, 0, 1000, "rank"), rel: true}
	g.pl = append(g.pl, x)
	if !g.twinContent(x) {
		x.content = g.newContent()
	}
	g.reshape(len(g.pl) - 1)
	x.rel = !pct(t, g.p.NonReload, "nonrel")
	if !x.rel {
		for _, d := range x.deps {
			if g.pl[d].rel {
				x.rel = true
			}
		}
	}
	return x
}

// reshape draws dependencies, export and live names of a plugin afresh.
func (g *gen) reshape(i int) {
	t := g.t
	x := g.pl[i]
	if !g.chain {
		x.deps = nil
	}
	if g.chain {
	} else if g.huge || pct(t, g.p.DepPct, "hasdeps") {
		dense := g.huge || g.p.Dense && pct(t, 25, "dense")
		for j, y := range g.pl {
			if j == i || y.dropped || !dependable(y.name) {
				continue
			}
			if !x.rel && y.rel {
				continue
			}
			if (y.rank < x.rank || y.rank == x.rank && j < i) && (dense || pct(t, 40, "dep")) {
				x.deps = append(x.deps, j)
			}
		}
	}
	if pct(t, g.p.NilExport, "nilexp") {
		x.export = pick(t, nilExportKinds, "nilkind")
	} else {
		x.export = pick(t, exportKinds, "expkind")
	}
	x.lf, x.lt = nil, nil
	if g.p.Live > 0 {
		for k, n := 0, rng(t, 0, g.p.Live, "nlf"); k < n; k++ {
			x.lf = append(x.lf, fmt.Sprintf("live_%s_%d", x.name, k))
		}
		for k, n := 0, rng(t, 0, g.p.Live, "nlt"); k < n; k++ {
			x.lt = append(x.lt, fmt.Sprintf("Live_%s_%d", x.name, k))
		}
		if len(x.lf) > 0 && pct(t, 20, "samename") { // a function and a type may share a name
			x.lt = append(x.lt, x.lf[0])
		}
		if pct(t, 10, "caselive") && len(x.lf) > 0 { // names differing in case are different names
			x.lf = append(x.lf, strings.ToUpper(x.lf[0])+"_")
		}
		// names that other plugins use for something else, or in other letter case
		if pct(t, 20, "dualf") {
			x.lf = append(x.lf, fmt.Sprintf("dual_%d", i))
		}
		if pct(t, 20, "dualt") {
			x.lt = append(x.lt, fmt.Sprintf("dual_%d", i+1))
		}
		if pct(t, 15, "casef") {
			x.lf = append(x.lf, fmt.Sprintf("CaSe_%d", i), fmt.Sprintf("cAsE_%d", i+1))
		}
		if pct(t, 15, "caset") {
			x.lt = append(x.lt, fmt.Sprintf("CaSe_%d", i), fmt.Sprintf("cAsE_%d", i+1))
		}
		if pct(t, 10, "oddlive") {
			x.lf = append(x.lf, fmt.Sprintf("%s%d", pick(t, []string{"nil", "arg", "Дым ", " "}, "oddlf"), i))
			x.lt = append(x.lt, fmt.Sprintf("%s%d", pick(t, []string{"nil", "ſ", "\x00", "a.b/"}, "oddlt"), i))
		}
	}
}

var otherTags = []string{"", "", "", `json:"-"`, `hotswap:""`, `hotswap:"x"`, `hotswap:"--"`, `json:"a" hotswap:"opt"`, `hotswap:"-,"`, `hotswap:"opt,-"`, `hotswap:" -"`, `hotswap:"- "`, `Hotswap:"-"`, `json:"hotswap:-"`}

func (g *gen) build(i int) *Build {
	t := g.t
	x := g.pl[i]
	g.ids++
	b := &Build{ID: g.ids, Content: x.content, Reloadable: x.rel, Export: x.export, LF: x.lf, LT: x.lt}
	b.Import = Imp{Kind: "nil"}
	used := map[string]bool{}
	var fields []Fld
	for _, d := range x.deps {
		y := g.pl[d]
		f := Fld{Name: g.fieldName(y.name)}
		if isNilExport(y.export) {
			f.Kind = pick(t, allFieldKinds, "nilfk")
		} else {
			f.Kind = pick(t, accepts[y.export], "fk")
		}
		f.Tag = pick(t, otherTags, "tag")
		if used[f.Name] {
			continue
		}
		used[f.Name] = true
		fields = append(fields, f)
		if pct(t, 4, "twice") { // a second field for the same dependency
			g2 := Fld{Name: g.fieldName(y.name), Kind: f.Kind}
			if !used[g2.Name] {
				used[g2.Name] = true
				fields = append(fields, g2)
			}
		}
	}
	if pct(t, g.p.Ignored, "ignored") {
		for k, n := 0, rng(t, 1, 3, "nign"); k < n; k++ {
			f := Fld{Kind: pick(t, allFieldKinds, "ignk")}
			switch rng(t, 0, 5, "igntype") {
			case 0:
				f.Name, f.Tag = fmt.Sprintf("Nobody%d", k), `hotswap:"-"`
			case 1: // names a real plugin but is ignored
				if dependable(g.pl[k%len(g.pl)].name) {
					f.Name = g.fieldName(g.pl[k%len(g.pl)].name)
				} else {
					f.Name = "Nobody"
				}
				f.Tag = `json:"x" hotswap:"-"`
			case 2:
				f.Name = fmt.Sprintf("hidden%d", k)
			case 3: // unexported twin of a plugin name
				f.Name = strings.ToLower(g.pl[k%len(g.pl)].name)
				if !identLike(f.Name) || isExportedName(f.Name) {
					f.Name = "_x"
				}
			case 4:
				f.Name = pick(t, []string{"éclair", "дым", "_Foo", "日本", "ωmega", "äx"}, "uni")
			case 5:
				f.Name, f.Kind, f.Anon, f.Tag = "Emb", "Emb", true, `hotswap:"-"`
			}
			if used[f.Name] {
				continue
			}
			used[f.Name] = true
			pos := rng(t, 0, len(fields), "pos")
			fields = append(fields[:pos], append([]Fld{f}, fields[pos:]...)...)
		}
	}
	if len(fields) > 0 {
		b.Import = Imp{Kind: "ptr", Fields: fields}
	} else {
		b.Import.Kind = pick(t, []string{"nil", "nil", "typednil", "ptr"}, "impkind")
	}
	if pct(t, g.p.InvokeFault, "invfault") {
		b.setFault("invoke", g.fault(true))
	}
	if pct(t, g.p.OnFreePanic, "freepanic") {
		b.setFault("onfree", g.fault(false))
	}
	if g.p.Live > 0 && pct(t, 30, "bag") {
		b.Bag = true
	}
	if !g.nosleep && pct(t, g.p.Sleep, "sleeps") {
		h := pick(t, []string{"onload", "oninit", "export", "import", "onfree", "reloadable", "livefuncs"}, "slhook")
		ms := pick(t, []int{1, 300, 999, 1000, 2500}, "slms")
		if g.p.LongSleep && h != "onfree" && pct(t, 30, "long") {
			ms = pick(t, []int{14000, 15000, 20000, 61000, 400000}, "slong")
		}
		b.SleepMs = map[string]int{h: ms}
	}
	return b
}

func (b *Build) setFault(hook string, f Fault) {
	if b.Faults == nil {
		b.Faults = map[string]Fault{}
	}
	b.Faults[hook] = f
}

func (g *gen) fault(errOK bool) Fault {
	f := Fault{Kind: "panic", Val: rng(g.t, 0, 11, "pv")}
	if errOK && rapid.Bool().Draw(g.t, "iserr") {
		f.Kind = "err"
	}
	return f
}

func (g *gen) add(s Step) { g.sc.Steps = append(g.sc.Steps, s) }

func (g *gen) mode() string {
	return pick(g.t, []string{"inplace", "rename", "remove", "inplace+keep", "rename+keep", "inplace", "rename", "symlink"}, "wmode")
}

func (g *gen) put(i int, b *Build) {
	x := g.pl[i]
	x.last, x.onDisk = b, true
	g.hist = append(g.hist, b.Content)
	if g.bytes == nil {
		g.bytes = map[[20]byte]bool{}
	}
	g.bytes[sha1.Sum(renderContent(b.Content))] = true
	g.add(Step{Op: "put", Dir: g.dir, File: x.name + ".so", Build: b, Mode: g.mode()})
}

// newBytes gives the plugin new bytes: all new, or a small change.
func (g *gen) newBytes(i int) {
	t := g.t
	x := g.pl[i]
	if x.onDisk && x.twin != nil {
		x.content, x.twin = *x.twin, nil
		return
	}
	large := x.content.Size > 60000
	if x.onDisk && pct(t, g.p.ByteEdit, "byteedit") || x.onDisk && large && pct(t, 60, "bigedit") {
		m := Mut{Op: pick(t, []string{"flip", "flip", "flip", "append", "trunc"}, "mut"), X: byte(rng(t, 1, 255, "x"))}
		switch rng(t, 0, 3, "where") {
		case 0:
			m.Pos = rng(t, 0, x.content.Size, "mpos")
		case 1:
			m.Pos = -rng(t, 1, 9, "mtail")
		case 2:
			m.Pos = rng(t, 0, 9, "mhead")
		case 3:
			m.Pos = pick(t, []int{511, 512, 1023, 1024, 4095, 4096, 8191, 8192, 32768, 65535, 65536, 1<<20 - 1, 1 << 20}, "medge")
		}
		if large && pct(t, 60, "mmid") {
			m.Pos = x.content.Size/8*rng(t, 1, 7, "meighth") + rng(t, 0, 4096, "moff")
		}
		c := x.content
		c.Muts = append(append([]Mut(nil), c.Muts...), m)
		if h := sha1.Sum(renderContent(c)); !g.bytes[h] { // going back to earlier bytes is for "rollback"
			x.content = c
			return
		}
	}
	if !g.twinContent(x) {
		x.content = g.newContent()
	}
}

// rebuild rewrites plugin i and, unless told otherwise, all that depend on it.
func (g *gen) rebuild(set map[int]bool, closure bool) {
	if closure {
		for changed := true; changed; {
			changed = false
			for i, x := range g.pl {
				if set[i] || x.dropped {
					continue
				}
				for _, d := range x.deps {
					if set[d] && x.rel {
						set[i] = true
						changed = true
						break
					}
				}
			}
		}
	}
	for i, x := range g.pl {
		if set[i] && !x.dropped {
			g.newBytes(i)
		}
	}
	for i, x := range g.pl {
		if set[i] && !x.dropped {
			if x.rel || !x.onDisk {
				if x.onDisk && pct(g.t, 40, "reshape") {
					g.reshape(i)
				}
			}
		}
	}
	for i, x := range g.pl {
		if set[i] && !x.dropped {
			b := g.build(i)
			if !x.rel && x.onDisk && pct(g.t, 30, "brokenignored") {
				// a not reloadable plugin stays as loaded whatever its file becomes
				b.Bad = rapid.Bool().Draw(g.t, "bad")
				b.Missing = []string{"OnLoad"}
			}
			g.put(i, b)
		}
	}
}

func (g *gen) live() []int {
	var a []int
	for i, x := range g.pl {
		if !x.dropped {
			a = append(a, i)
		}
	}
	return a
}

func (g *gen) pickPlug(label string) int {
	a := g.live()
	if len(a) == 0 {
		return -1
	}
	return pick(g.t, a, label)
}

// mistake makes the next load fail; it returns a repair.
func (g *gen) mistake() (st *Step, repair func()) {
	t := g.t
	kind := pick(t, g.p.Kinds, "mistake")
	i := g.pickPlug("victim")
	if i < 0 {
		return nil, func() {}
	}
	if kind == "nodeps-closure" || kind == "deldep" { // the point is a plugin that others depend on
		var cand []int
		for _, c := range g.live() {
			for _, y := range g.pl {
				if !y.dropped && contains2(y.deps, c) && g.pl[c].rel {
					cand = append(cand, c)
					break
				}
			}
		}
		if len(cand) > 0 {
			i = pick(t, cand, "victim2")
		}
	}
	x := g.pl[i]
	fix := func() { g.rebuild(map[int]bool{i: true}, true) }
	fresh := func() *Build { g.newBytes(i); return g.build(i) }
	// closure of dependents must be rebuilt too, or the failure is another one
	dependents := func() {
		set := map[int]bool{}
		for j, y := range g.pl {
			if contains2(y.deps, i) && !y.dropped && y.rel {
				set[j] = true
			}
		}
		if len(set) > 0 {
			g.rebuild(set, true)
		}
	}
	switch kind {
	case "fault":
		b := fresh()
		h := pick(t, []string{"reloadable", "export", "import", "onload", "onload", "oninit", "oninit", "livefuncs", "livetypes"}, "hook")
		b.setFault(h, g.fault(h == "onload" || h == "oninit"))
		g.put(i, b)
		dependents()
	case "missing":
		b := fresh()
		n := rng(t, 1, 3, "nmiss")
		for k := 0; k < n; k++ {
			b.Missing = append(b.Missing, pick(t, allSymbols, "miss"))
		}
		g.put(i, b)
	case "wrong":
		b := fresh()
		b.Wrong = []string{pick(t, allSymbols, "wrong")}
		g.put(i, b)
	case "badfile":
		b := fresh()
		b.Bad = true
		if pct(t, 30, "empty") {
			b.Content = Content{Empty: true}
		}
		g.put(i, b)
	case "unknown":
		b := fresh()
		b.Import = Imp{Kind: "ptr", Fields: insertFld(t, b.Import.Fields, Fld{Name: pick(t, []string{"Nobody", "Missing_1", "Ärger"}, "unk"), Kind: "any", Tag: pick(t, otherTags, "tag")})}
		g.put(i, b)
		dependents()
	case "selfdep":
		if !dependable(x.name) {
			return nil, func() {}
		}
		b := fresh()
		k := "any"
		b.Import = Imp{Kind: "ptr", Fields: insertFld(t, b.Import.Fields, Fld{Name: g.fieldName(x.name), Kind: k})}
		g.put(i, b)
		dependents()
	case "cycle":
		// make something x (transitively) depends on import x
		if !dependable(x.name) {
			return nil, func() {}
		}
		seen := map[int]bool{}
		var walk func(j int)
		walk = func(j int) {
			for _, d := range g.pl[j].deps {
				if !seen[d] && !g.pl[d].dropped {
					seen[d] = true
					walk(d)
				}
			}
		}
		walk(i)
		var cand []int
		for j := range g.pl {
			if seen[j] && j != i {
				cand = append(cand, j)
			}
		}
		if len(cand) == 0 {
			return nil, func() {}
		}
		j := cand[rng(t, 0, len(cand)-1, "back")]
		g.newBytes(j)
		b := g.build(j)
		b.Import = Imp{Kind: "ptr", Fields: insertFld(t, b.Import.Fields, Fld{Name: g.fieldName(x.name), Kind: "any"})}
		g.put(j, b)
		set := map[int]bool{}
		for k, y := range g.pl {
			if contains2(y.deps, j) && !y.dropped && y.rel {
				set[k] = true
			}
		}
		g.rebuild(set, true)
		fix = func() { g.rebuild(map[int]bool{j: true}, true) }
	case "mismatch":
		if len(x.deps) == 0 {
			return nil, func() {}
		}
		b := fresh()
		if len(b.Import.Fields) == 0 {
			g.put(i, b)
			break
		}
		k := rng(t, 0, len(b.Import.Fields)-1, "mf")
		b.Import.Fields = append([]Fld(nil), b.Import.Fields...)
		if f := &b.Import.Fields[k]; !f.Anon {
			f.Kind = pick(t, allFieldKinds, "mk")
		}
		g.put(i, b)
		dependents()
	case "impkind":
		b := fresh()
		b.Import = Imp{Kind: pick(t, []string{"struct", "ptrint", "int", "map", "func"}, "ik")}
		g.put(i, b)
		dependents()
	case "anon":
		b := fresh()
		b.Import = Imp{Kind: "ptr", Fields: insertFld(t, b.Import.Fields, Fld{Name: "Emb", Kind: "Emb", Anon: true})}
		g.put(i, b)
		dependents()
	case "nonrel":
		// a new not reloadable plugin depending on a reloadable one
		if !x.rel || !dependable(x.name) {
			return nil, func() {}
		}
		y := g.addPlugin()
		yi := len(g.pl) - 1
		y.rel = false
		y.deps = []int{i}
		b := g.build(yi)
		b.Reloadable = false
		g.put(yi, b)
		fix = func() {
			y.rel = true
			if pct(t, 50, "nrfix") {
				y.rel, y.deps = false, nil
			}
			g.rebuild(map[int]bool{yi: true}, true)
		}
	case "nodeps-closure":
		g.rebuild(map[int]bool{i: true}, false)
	case "deldep":
		g.add(Step{Op: "del", Dir: g.dir, File: x.name + ".so"})
		x.dropped = true
		x.onDisk = false
		fix = func() {
			set := map[int]bool{}
			if pct(t, 50, "putback") {
				x.dropped = false
				set[i] = true
			}
			for j, y := range g.pl {
				if contains2(y.deps, i) && !y.dropped {
					if x.dropped {
						y.deps = remove2(y.deps, i)
					}
					set[j] = true
				}
			}
			g.rebuild(set, true)
		}
	case "duplive":
		j := g.pickPlug("other")
		if j == i || len(g.pl[j].lf)+len(g.pl[j].lt) == 0 {
			return nil, func() {}
		}
		b := fresh()
		y := g.pl[j]
		if len(y.lf) > 0 && (len(y.lt) == 0 || rapid.Bool().Draw(t, "dupf")) {
			b.LF = append(append([]string(nil), b.LF...), y.lf[rng(t, 0, len(y.lf)-1, "dupn")])
		} else {
			b.LT = append(append([]string(nil), b.LT...), y.lt[rng(t, 0, len(y.lt)-1, "dupn")])
		}
		g.put(i, b)
		dependents()
	case "livenil":
		b := fresh()
		if rapid.Bool().Draw(t, "lfnil") {
			b.LFNil, b.LF = true, nil
		} else {
			b.LTNil, b.LT = true, nil
		}
		g.put(i, b)
		dependents()
	case "cb":
		f := g.fault(true)
		st = &Step{}
		if g.sc.Cfg.CB && rapid.Bool().Draw(t, "which") {
			st.CB0 = &f
		} else {
			st.CB1 = &f
		}
		if pct(t, 70, "cbedit") {
			g.rebuild(map[int]bool{i: true}, true)
		}
		fix = func() {}
	case "dangling":
		n := "zz_dangling.so"
		g.add(Step{Op: "dangling", Dir: g.dir, File: n})
		fix = func() { g.add(Step{Op: "del", Dir: g.dir, File: n}) }
	}
	return st, fix
}

func insertFld(t *rapid.T, a []Fld, f Fld) []Fld {
	for _, x := range a {
		if x.Name == f.Name {
			return a
		}
	}
	pos := rng(t, 0, len(a), "fpos")
	out := append([]Fld(nil), a[:pos]...)
	out = append(out, f)
	return append(out, a[pos:]...)
}

func contains2(a []int, x int) bool {
	for _, v := range a {
		if v == x {
			return true
		}
	}
	return false
}

func remove2(a []int, x int) []int {
	var out []int
	for _, v := range a {
		if v != x {
			out = append(out, v)
		}
	}
	return out
}

func (g *gen) loadStep(first bool, m *Step) {
	t := g.t
	st := Step{}
	if m != nil {
		st = *m
	}
	switch {
	case st.CB1 != nil:
		st.Op = "reloadcb"
	case first:
		st.Op = pick(t, []string{"load", "load", "load", "reload", "reloadcb"}, "op")
	case pct(t, g.p.LoadOp, "loadop"):
		st.Op = "load"
	default:
		st.Op = pick(t, []string{"reload", "reload", "reloadcb"}, "op")
	}
	st.NilData = pct(t, 20, "nildata")
	if !g.nosleep && pct(t, g.p.Sleep/2, "cbsleep") {
		st.CBSleep = pick(t, []int{10, 1000, 16000}, "cbs")
	}
	g.add(st)
}

func (g *gen) advance() {
	t := g.t
	if pct(t, g.p.SameSecond, "samesec") {
		if pct(t, 50, "tiny") {
			g.add(Step{Op: "advance", Ms: int64(rng(t, 0, 400, "tinyms"))})
		}
		return
	}
	d := int64(300000)
	if g.sc.Cfg.FreeDelayMs != nil {
		d = *g.sc.Cfg.FreeDelayMs
	}
	if d < 15000 {
		d = 15000
	}
	ms := pick(t, []int64{1000, 5000, 14999, 15000, 15001, 21000, d - 1, d, d + 1, d + 6000, d / 2, 2 * d, 3600000}, "adv")
	g.add(Step{Op: "advance", Ms: ms})
}

func (g *gen) misc() {
	t := g.t
	p := g.p
	if pct(t, p.Junk, "junk") {
		for k, n := 0, rng(t, 1, 4, "njunk"); k < n; k++ {
			switch rng(t, 0, 3, "junkkind") {
			case 0:
				g.add(Step{Op: "mkdir", Dir: g.dir, File: pick(t, []string{"sub", "sub.so", "lib.so.d", "nested.so"}, "jd")})
			default:
				n := pick(t, []string{"README", "a.sox", "b.so.bak", "c.SO", "so", "d.so~", "libx.so.1", ".hidden", "e.So", "f.so ", "notes.txt", "gso", "x.go"}, "jf")
				g.add(Step{Op: "junk", Dir: g.dir, File: n, Text: "junk"})
			}
		}
	}
	if pct(t, p.Touch, "touch") {
		if i := g.pickPlug("tp"); i >= 0 {
			g.add(Step{Op: "touch", Dir: g.dir, File: g.pl[i].name + ".so", Mode: g.mode()})
		}
	}
	if pct(t, p.CaseDup, "casedup") {
		if i := g.pickPlug("cd"); i >= 0 {
			x := g.pl[i]
			alt := strings.ToUpper(x.name)
			if alt == x.name {
				alt = strings.ToLower(x.name)
			}
			if alt != x.name && strings.ToLower(alt) == strings.ToLower(x.name) {
				if rapid.Bool().Draw(t, "rename") {
					g.add(Step{Op: "renamecase", Dir: g.dir, File: x.name + ".so", Text: alt + ".so"})
					x.name = alt
				} else {
					g.ids++
					g.add(Step{Op: "put", Dir: g.dir, File: alt + ".so", Build: &Build{ID: g.ids, Content: g.newContent(), Reloadable: true, Export: "nil", Import: Imp{Kind: "nil"}}})
					if pct(t, 70, "undo") {
						g.add(Step{Op: "reload"})
						g.add(Step{Op: "del", Dir: g.dir, File: alt + ".so"})
					}
				}
			}
		}
	}
	if pct(t, p.BreakDir, "breakdir") {
		g.add(Step{Op: "breakdir", Dir: g.dir, Mode: pick(t, []string{"missing", "file"}, "bd")})
		g.loadStep(false, nil)
		g.add(Step{Op: "fixdir", Dir: g.dir})
	}
	if pct(t, p.BreakDir/2, "emptied") { // everything is taken away for a while
		for _, i := range g.live() {
			if x := g.pl[i]; x.onDisk {
				g.add(Step{Op: "del", Dir: g.dir, File: x.name + ".so"})
			}
		}
		g.loadStep(false, nil)
		for _, i := range g.live() {
			if x := g.pl[i]; x.onDisk {
				g.add(Step{Op: "put", Dir: g.dir, File: x.name + ".so", Build: x.last, Mode: "rename"})
			}
		}
	}
	if p.Dirs && pct(t, 15, "setdir") {
		to := (g.dir + 1) % g.sc.Cfg.Dirs
		if to != g.dir {
			// move everything over: the same bytes must count as unchanged
			for _, i := range g.live() {
				if pct(t, 85, "carry") {
					g.add(Step{Op: "copy", Dir: to, Mgr: g.dir, File: g.pl[i].name + ".so", Mode: "rename"})
				}
			}
			g.dir = to
			g.add(Step{Op: "setdir", Dir: to})
			if pct(t, 10, "tmpblocked2") {
				g.add(Step{Op: "junk", Dir: g.dir, File: "tmp", Text: "not a directory"})
				g.loadStep(false, nil)
				g.add(Step{Op: "del", Dir: g.dir, File: "tmp"})
			}
		}
	}
	if pct(t, p.Rollback, "rollback") && len(g.hist) > 0 {
		if i := g.pickPlug("rb"); i >= 0 && g.pl[i].rel {
			// same bytes as an earlier build of the same plugin
			c := g.hist[rng(t, 0, len(g.hist)-1, "rbc")]
			g.ids++
			g.add(Step{Op: "put", Dir: g.dir, File: g.pl[i].name + ".so", Build: &Build{ID: g.ids, Content: c, Export: "nil", Import: Imp{Kind: "nil"}}})
		}
	}
}

func (g *gen) post() {
	t := g.t
	p := g.p
	old := 0
	if p.OldMgr {
		old = 5
	}
	if pct(t, p.Invoke, "invoke") {
		for k, n := 0, rng(t, 1, 3, "ninv"); k < n; k++ {
			g.add(Step{Op: "invoke", Mgr: rng(t, 0, old, "imgr"), Backward: rapid.Bool().Draw(t, "back"),
				Nest: max(0, rng(t, -9, 4, "nest")), Name: pick(t, []string{"live", "", "tick", "名"}, "iname"), Params: rapid.SliceOfN(rapid.IntRange(0, 9), 0, 4).Draw(t, "par")})
		}
	}
	if pct(t, p.Find, "find") {
		for k, n := 0, rng(t, 1, 3, "nfind"); k < n; k++ {
			nm := pick(t, []string{"nobody", "", "tmp", ".so"}, "fnone")
			if i := g.pickPlug("fp"); i >= 0 && pct(t, 75, "exists") {
				nm = g.pl[i].name
				switch rng(t, 0, 3, "fcase") {
				case 1:
					if u := strings.ToUpper(nm); strings.ToLower(u) == strings.ToLower(nm) {
						nm = u
					}
				case 2:
					nm = strings.ToLower(nm)
				case 3:
					nm += ".so"
				}
			}
			g.add(Step{Op: "find", Mgr: rng(t, 0, old, "fmgr"), Name: nm})
		}
	}
	if pct(t, p.Pollute, "pollute") {
		n := pick(t, []string{"polluted", "live_arya_0", "Live_snow_0"}, "pname")
		g.add(Step{Op: "pollute", Mgr: rng(t, 0, 3, "pmgr"), Name: n, Backward: rapid.Bool().Draw(t, "pdel")})
	}
}

var dirNames = []string{"plug[1]", "[a-c]", "a*b", "x?y", "with space", " lead", "日本", "%d%s", "plugins.so", "tmp", ".hidden", "back\\slash", "a,b:c", "~", "$HOME", "{a,b}", "..x", "-v", "UP", "x.so.d", "*.so"}

// GenScenario draws a scenario.
func GenScenario(t *rapid.T, id string) *Scenario {
	if id == "P13" {
		return genStatic(t)
	}
	p := ProfileFor(id)
	if id == "P07" && !pct(t, 35, "rollbacks") {
		p.Rollback = 0
	}
	sc := &Scenario{Profile: id}
	g := &gen{t: t, p: p, sc: sc}
	delays := []int64{-5000, 0, 1000, 14999, 15000, 15001, 16000, 20000, 60000, 3600000, 30 * 86400000}
	if !pct(t, 30, "defdelay") {
		d := pick(t, delays, "delay")
		if pct(t, 30, "rnddelay") {
			d = rapid.Int64Range(0, 1000000).Draw(t, "delayms")
		}
		sc.Cfg.FreeDelayMs = &d
	}
	sc.Cfg.Ext = pct(t, 50, "ext")
	if sc.Cfg.Ext && pct(t, 25, "extnil") {
		sc.Cfg.ExtNil = rng(t, 1, 3, "extnth")
	}
	sc.Cfg.CB = pct(t, p.CB, "cb")
	sc.Cfg.Dirs = 1
	if p.Dirs {
		sc.Cfg.Dirs = 2
	}
	if pct(t, p.DirNames, "dirnames") {
		for i := 0; i < sc.Cfg.Dirs; i++ {
			sc.Cfg.DirNames = append(sc.Cfg.DirNames, pick(t, dirNames, "dirname")+[]string{"", "2"}[i])
		}
		sc.Cfg.DirForm = pick(t, []string{"", "", "slash", "slashes", "dot", "dotdot", "relative", "relative", "symlink"}, "dirform")
	}
	if p.Rollback > 0 {
		g.nosleep = true
	}
	n := rng(t, 1, p.MaxPlugins, "nplugins")
	if n == 1 && pct(t, 90, "notone") {
		n = 2 + rng(t, 0, p.MaxPlugins-2, "n2")
	}
	if p.Dense && pct(t, 2, "huge") { // a large graph with nearly every edge there can be
		g.huge = true
		n = rng(t, 20, 36, "nhuge")
		g.p.OddNames, g.p.NonReload, g.p.MaxRounds = 0, 0, 2
		p = g.p
	}
	if pct(t, p.Many, "many") { // very many builds of one or two plugins, mostly within a second
		n = rng(t, 1, 2, "nmany")
		g.p.MaxRounds, g.p.SameSecond, g.p.Edit, g.p.Mistake, g.p.Sleep = 160, 97, 100, 0, 0
		g.p.AddDel, g.p.Junk, g.p.Touch, g.p.Swap, g.p.Big, g.p.ByteEdit, g.p.NonReload, g.p.DepPct = 0, 0, 0, 0, 0, 0, 0, 0
		g.p.Invoke, g.p.Live, g.p.OddNames = 0, 0, 0
		g.many = true
		p = g.p
	}
	if !g.huge && p.Dense && pct(t, 3, "chain") { // one long chain of dependencies
		g.huge, g.chain = true, true
		n = rng(t, 6, 40, "nchain")
		g.p.OddNames, g.p.NonReload, g.p.MaxRounds = 0, 0, 2
		p = g.p
	}
	for i := 0; i < n; i++ {
		g.addPlugin()
	}
	if g.chain {
		order := make([]int, n)
		for i := range order {
			order[i] = i
		}
		switch how := rng(t, 0, 3, "chainorder"); how {
		case 0:
			order = rapid.Permutation(order).Draw(t, "order")
		default: // mostly, the order of the names is the wrong way round
			sort.Slice(order, func(i, j int) bool {
				a, b := g.pl[order[i]].name, g.pl[order[j]].name
				return how == 1 && a < b || how != 1 && a > b
			})
		}
		for k, i := range order {
			g.pl[i].rank = k
			if k > 0 {
				g.pl[i].deps = []int{order[k-1]}
			}
		}
	}
	if pct(t, p.Whitelist, "wl") {
		for _, x := range g.pl {
			if pct(t, 60, "wlin") {
				sc.Cfg.Whitelist = append(sc.Cfg.Whitelist, x.name)
				if pct(t, 10, "wldup") {
					sc.Cfg.Whitelist = append(sc.Cfg.Whitelist, x.name)
				}
			}
		}
		if pct(t, 10, "wlmissing") {
			sc.Cfg.Whitelist = append(sc.Cfg.Whitelist, pick(t, []string{"nobody", "ARYA", "arya.so", ""}, "wlm"))
		}
	}
	if pct(t, p.Junk/2+3, "emptyfirst") {
		g.loadStep(true, nil)
	}
	all := map[int]bool{}
	for i := range g.pl {
		all[i] = true
	}
	g.rebuild(all, false)
	if pct(t, 2, "tmpblocked") { // nowhere to put the private copies
		g.add(Step{Op: "junk", Dir: g.dir, File: "tmp", Text: "not a directory"})
		g.loadStep(true, nil)
		g.add(Step{Op: "del", Dir: g.dir, File: "tmp"})
	}
	rounds := rng(t, 1, p.MaxRounds, "rounds")
	if g.many && rounds < 80 {
		rounds += 80
	}
	if rounds == 1 && pct(t, 80, "more") {
		rounds = rng(t, 2, p.MaxRounds, "rounds2")
	}
	for r := 0; r < rounds; r++ {
		if r > 0 {
			set := map[int]bool{}
			for _, i := range g.live() {
				if pct(t, p.Edit, "edit") {
					set[i] = true
				}
			}
			if pct(t, p.AddDel, "adddel") {
				if rapid.Bool().Draw(t, "add") || len(g.live()) == 0 {
					g.addPlugin()
					set[len(g.pl)-1] = true
				} else if i := g.pickPlug("del"); i >= 0 {
					// drop it together with its uses
					x := g.pl[i]
					ok := true
					for j, y := range g.pl {
						if contains2(y.deps, i) && !y.dropped {
							if !y.rel {
								ok = false
								break
							}
							_ = j
						}
					}
					if ok {
						for j, y := range g.pl {
							if contains2(y.deps, i) && !y.dropped {
								y.deps = remove2(y.deps, i)
								set[j] = true
							}
						}
						delete(set, i)
						x.dropped, x.onDisk = true, false
						g.add(Step{Op: "del", Dir: g.dir, File: x.name + ".so"})
					}
				}
			}
			g.rebuild(set, true)
		}
		g.misc()
		if p.Swap > 0 && pct(t, p.Swap, "swap") {
			// the last act: a hook rewrites another plugin's file during the load
			i, j := g.pickPlug("swapper"), g.pickPlug("swapped")
			if i >= 0 && i != j {
				g.newBytes(i)
				b := g.build(i)
				g.newBytes(j)
				nb := g.build(j)
				b.Swap = &Swap{Hook: pick(t, []string{"reloadable", "export", "import", "onload"}, "swh"), File: g.pl[j].name + ".so", Build: nb}
				g.put(i, b)
				g.loadStep(r == 0, nil)
				break
			}
		}
		if pct(t, p.Mistake, "doMistake") {
			m, fix := g.mistake()
			g.loadStep(r == 0, m)
			if pct(t, 30, "advfail") {
				g.advance()
			}
			if pct(t, 25, "again") {
				g.loadStep(false, m)
			}
			fix()
			if pct(t, 80, "retry") {
				g.loadStep(false, nil)
			}
		} else {
			g.loadStep(r == 0, nil)
		}
		g.advance()
		g.post()
	}
	return sc
}
