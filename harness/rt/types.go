// Package rt drives the runtime part of hotswap (loading, reloading, freeing)
// with generated scenarios, inside a synctest bubble with a virtual clock and
// a stand-in for the dynamic linker, and judges it against a reference model.
//
// A scenario is plain data: everything random is drawn before the run, and
// the same JSON can be replayed without the generator.
package rt

// Fault makes a hook fail.
type Fault struct {
	Kind string // "err" or "panic"
	Val  int    // which kind of panic value
}

// Fld is one field of a generated Import() struct.
type Fld struct {
	Name string
	Kind string // key of fieldTypes
	Tag  string `json:",omitempty"`
	Anon bool   `json:",omitempty"`
}

// Imp says what Import() returns.
type Imp struct {
	Kind   string // "nil", "typednil", "ptr", "struct", "ptrint", "int", "map", "func"
	Fields []Fld  `json:",omitempty"`
}

// Mut changes the bytes of a generated file.
type Mut struct {
	Op  string // "flip", "trunc", "append"
	Pos int
	X   byte
}

// Content describes the bytes of a plugin file.
type Content struct {
	Seed int
	Size int
	Muts []Mut `json:",omitempty"`

	Empty bool `json:",omitempty"`
}

// Build is one build of a plugin: its bytes and how its functions behave.
type Build struct {
	ID         int
	Content    Content
	Bad        bool `json:",omitempty"` // bytes the linker cannot load
	Reloadable bool
	Export     string // key of exportKinds
	Import     Imp
	LF, LT     []string         `json:",omitempty"`
	LFNil      bool             `json:",omitempty"`
	LTNil      bool             `json:",omitempty"`
	Missing    []string         `json:",omitempty"`
	Wrong      []string         `json:",omitempty"`
	Faults     map[string]Fault `json:",omitempty"`
	SleepMs    map[string]int   `json:",omitempty"`
	Pauses     map[string]int   `json:",omitempty"` // real pauses, microseconds
	Bag        bool             `json:",omitempty"` // OnInit writes into the data bag
	Swap       *Swap            `json:",omitempty"` // a hook of this build rewrites another file
}

// Swap rewrites another plugin's file from inside a hook.
type Swap struct {
	Hook  string
	File  string
	Build *Build
}

// Step is one step of a scenario.
type Step struct {
	Op string
	// put / del / touch / junk / mkdir / symlink / setdir ...
	Dir   int    `json:",omitempty"`
	File  string `json:",omitempty"`
	Build *Build `json:",omitempty"`
	Mode  string `json:",omitempty"` // how to write: "rewrite", "rename", "inplace"
	Text  string `json:",omitempty"`
	// load / reload / reloadcb
	CB0, CB1     *Fault `json:",omitempty"`
	CBSleep      int    `json:",omitempty"`
	NilData      bool   `json:",omitempty"`
	Ms           int64  `json:",omitempty"` // advance
	Mgr          int    `json:",omitempty"` // which retained manager (0 = current, k = k-th retained)
	Backward     bool   `json:",omitempty"`
	Nest         int    `json:",omitempty"` // the n-th plugin invoked calls InvokeEach itself
	Name         string `json:",omitempty"`
	Params       []int  `json:",omitempty"`
	Until        string `json:",omitempty"` // "second": advance to the next full second
	NoWantRetain bool   `json:",omitempty"`
}

// Config holds the swapper options.
type Config struct {
	FreeDelayMs *int64   `json:",omitempty"`
	Ext         bool     `json:",omitempty"`
	ExtNil      int      `json:",omitempty"` // every n-th extension object is nil
	CB          bool     `json:",omitempty"`
	Whitelist   []string `json:",omitempty"`
	Dirs        int
	DirNames    []string `json:",omitempty"`
	DirForm     string   `json:",omitempty"`
	Static      bool     `json:",omitempty"`
}

// Scenario is one generated case.
type Scenario struct {
	Profile string
	Cfg     Config
	Steps   []Step
}
