package rt

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"plugin"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/edwingeng/hotswap"
	"pgregory.net/rapid"
)

// P14: Plugin.Lookup against a hand-written table of what may be assigned.

// PT0 is a named pointer type.
type PT0 *T0

var lookupTypes = map[string]reflect.Type{
	"T0":   reflect.TypeOf(T0{}),
	"T1":   reflect.TypeOf(T1{}),
	"PT0":  reflect.TypeOf(PT0(nil)),
	"fn2":  reflect.TypeOf((func(int, ...string) (int, error))(nil)),
	"iarr":  reflect.TypeOf([2]int{}),
	"bool": reflect.TypeOf(false),
}

var varTypes = []string{"*T0", "*T1", "VT", "func", "FN", "map", "NM", "MyInt", "int", "str", "chan", "rchan", "slice", "I", "J", "any", "T0", "T1", "PT0", "fn2", "iarr", "bool"}

func init() {
	for k, v := range fieldTypes {
		if k != "Emb" && k != "emb" {
			lookupTypes[k] = v
		}
	}
	replayers["lookup"] = func(t *testing.T, fail *Failure) string {
		var c LookupCase
		if err := json.Unmarshal(fail.Case, &c); err != nil {
			t.Fatal(err)
		}
		w.beginCase(&c)
		defer w.endCase()
		msg, _ := runLookup(&c)
		return msg
	}
}

// valueTo lists the targets that can take a value of a type.
var valueTo = map[string][]string{
	"*T0": {"*T0", "PT0", "I", "any"}, "*T1": {"*T1", "I", "J", "any"}, "VT": {"VT", "any"},
	"func": {"func", "FN", "any"}, "FN": {"FN", "func", "any"}, "map": {"map", "NM", "any"}, "NM": {"NM", "map", "any"},
	"MyInt": {"MyInt", "any"}, "int": {"int", "any"}, "str": {"str", "any"}, "chan": {"chan", "rchan", "any"}, "rchan": {"rchan", "any"},
	"slice": {"slice", "any"}, "I": {"I", "any"}, "J": {"J", "any"}, "any": {"any"}, "T0": {"T0", "any"}, "T1": {"T1", "any"},
	"PT0": {"PT0", "*T0", "any"}, "fn2": {"fn2", "any"}, "iarr": {"iarr", "any"}, "bool": {"bool", "any"},
}

// pointerTo lists the targets that can take the address of a variable.
func pointerTo(typ, target string) bool {
	switch {
	case target == "any":
		return true
	case target == "&"+typ: // *T
		return true
	case typ == "T0":
		return target == "*T0" || target == "PT0" || target == "I"
	case typ == "T1":
		return target == "*T1" || target == "I" || target == "J"
	}
	return false
}

func targetType(k string) reflect.Type {
	if k[0] == '&' {
		return reflect.PointerTo(targetType(k[1:]))
	}
	return lookupTypes[k]
}

type LSym struct {
	Name string
	Func bool // a function of type "func" or "fn2", else a variable
	Type string
	Nil  bool
}

type LOp struct {
	Op     string // "lookup", "set"
	Sym    int    // index, -1: Name
	Name   string
	Target string // "var" (pointer to a variable of Type), "nil", "typednil", "nonptr", "named"
	Type   string
	Val    int
}

type LookupCase struct {
	Static bool
	Syms   []LSym
	Ops    []LOp
}

func lookupValue(typ string, n int) reflect.Value {
	tag := fmt.Sprintf("v%d", n)
	switch typ {
	case "T0":
		return reflect.ValueOf(T0{tag})
	case "T1":
		return reflect.ValueOf(T1{Tag: tag, X: [3]int{n}})
	case "PT0":
		return reflect.ValueOf(PT0(&T0{tag}))
	case "fn2":
		return reflect.ValueOf(func(a int, _ ...string) (int, error) { return a + n, nil })
	case "iarr":
		return reflect.ValueOf([2]int{n, 1})
	case "bool":
		return reflect.ValueOf(n%2 == 0)
	case "I", "any":
		return reflect.ValueOf(&T0{tag})
	case "J":
		return reflect.ValueOf(&T1{Tag: tag})
	case "rchan":
		return reflect.ValueOf((<-chan string)(make(chan string, n%9+1)))
	}
	return reflect.ValueOf(makeExport(typ, tag, n))
}

func sameLookup(a, b reflect.Value) bool {
	if a.Type() != b.Type() {
		return false
	}
	if a.Kind() == reflect.Func {
		return a.Pointer() == b.Pointer() && a.IsNil() == b.IsNil() && sameFn(a, b)
	}
	return sameValue(a.Interface(), b.Interface())
}

func sameFn(a, b reflect.Value) bool {
	if a.IsNil() {
		return true
	}
	var in []reflect.Value
	if a.Type().NumIn() > 0 {
		in = []reflect.Value{reflect.ValueOf(5)}
	}
	return a.Call(in)[0].Interface() == b.Call(in)[0].Interface()
}

func genLookup(t *rapid.T) *LookupCase {
	c := &LookupCase{Static: pct(t, 10, "static")}
	used := map[string]bool{}
	for i, n := 0, rng(t, 1, 6, "nsyms"); i < n; i++ {
		s := LSym{Name: pick(t, []string{"Foo", "Bar", "OnEvent", "V", "Дым", "x", "with space", "a.b", "Long_Name_9", "Z"}, "sname")}
		if used[s.Name] {
			continue
		}
		used[s.Name] = true
		if pct(t, 35, "isfunc") {
			s.Func, s.Type = true, pick(t, []string{"func", "fn2"}, "ftype")
		} else {
			s.Type = pick(t, varTypes, "vtype")
			s.Nil = pct(t, 20, "nilval")
		}
		c.Syms = append(c.Syms, s)
	}
	for i, n := 0, rng(t, 1, 14, "nops"); i < n; i++ {
		o := LOp{Op: "lookup", Sym: rng(t, 0, len(c.Syms)-1, "sym"), Target: "var"}
		s := c.Syms[o.Sym]
		switch rng(t, 0, 9, "okind") {
		case 0:
			o.Op, o.Val = "set", rng(t, 0, 99, "val")
		case 1:
			o.Sym, o.Name = -1, pick(t, []string{"", "", "Missing", "onload", "foo", "FOO", "OnLoa", "x ", "OnLoad2"}, "noname")
			o.Type = pick(t, varTypes, "ntype")
		case 2:
			o.Target = pick(t, []string{"nil", "typednil", "nonptr", "nonptrnil"}, "bad")
			o.Type = pick(t, varTypes, "btype")
		case 3:
			o.Target, o.Type = "named", "T0"
		case 4:
			o.Type = "&" + s.Type
			if pct(t, 25, "ptrptr") {
				o.Type = "&&" + s.Type
			}
		case 5, 6:
			o.Type = pick(t, varTypes, "anytype")
			if pct(t, 30, "anyptr") {
				o.Type = "&" + o.Type
			}
		default:
			o.Type = pick(t, valueTo[s.Type], "fit")
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func lookupFuncs() *pluginFns {
	e := &engine{sc: &Scenario{}, start: time.Now()}
	return e.fns(&Inst{B: &Build{Export: "nil", Import: Imp{Kind: "nil"}}, LF: map[string]any{}, LT: map[string]func() any{}})
}

func runLookup(c *LookupCase) (msg string, labels map[string]int) {
	labels = map[string]int{}
	vars := make([]reflect.Value, len(c.Syms)) // pointers
	funcs := make([]reflect.Value, len(c.Syms))
	f := lookupFuncs()
	syms := map[string]any{
		"OnLoad": f.onLoad, "OnInit": f.onInit, "OnFree": f.onFree, "Export": f.export, "Import": f.imp,
		"InvokeFunc": f.invoke, "Reloadable": f.reloadable, "HotswapLiveFuncs": f.liveFuncs, "HotswapLiveTypes": f.liveTypes,
	}
	for i, s := range c.Syms {
		if s.Func {
			funcs[i] = lookupValue(s.Type, i)
			syms[s.Name] = funcs[i].Interface()
			continue
		}
		vars[i] = reflect.New(lookupTypes[s.Type])
		if !s.Nil {
			vars[i].Elem().Set(lookupValue(s.Type, i))
		}
		syms[s.Name] = vars[i].Interface()
	}
	caseN++
	dir := filepath.Join(w.base, fmt.Sprintf("l%d", caseN))
	if err := os.MkdirAll(dir, 0755); err != nil {
		panic("HARNESS: " + err.Error())
	}
	defer os.RemoveAll(dir)
	if err := os.WriteFile(filepath.Join(dir, "arya.so"), []byte("x"), 0644); err != nil {
		panic("HARNESS: " + err.Error())
	}
	plugin.FakeOpen = func(string) (*plugin.Plugin, error) { return plugin.FakeNew("pp", syms), nil }
	opts := []hotswap.Option{hotswap.WithLogger(&logger{&engine{sc: &Scenario{}, start: time.Now()}})}
	if c.Static {
		opts = append(opts, hotswap.WithStaticPlugins(map[string]*hotswap.StaticPlugin{"arya": {Name: "arya", PluginFuncs: hotswap.NewPluginFuncs(
			f.export, f.liveFuncs, f.liveTypes, f.imp, f.invoke, f.onFree, f.onInit, f.onLoad, f.reloadable)}}))
	}
	sw := hotswap.NewPluginManagerSwapper(dir, opts...)
	if _, err := sw.LoadPlugins(nil); err != nil {
		return "", labels // not this property's business
	}
	pl := sw.Current().FindPlugin("arya")
	if pl == nil {
		return "", labels
	}
	for k, o := range c.Ops {
		if o.Op == "set" {
			if vars[o.Sym].IsValid() {
				vars[o.Sym].Elem().Set(lookupValue(c.Syms[o.Sym].Type, 100+o.Val))
			}
			continue
		}
		name := o.Name
		if o.Sym >= 0 {
			name = c.Syms[o.Sym].Name
		}
		var out any
		var holder reflect.Value // pointer whose element is the target
		switch o.Target {
		case "var":
			holder = reflect.New(targetType(o.Type))
			if o.Type[0] == '&' {
				holder.Elem().Set(reflect.New(targetType(o.Type[1:])))
			} else {
				holder.Elem().Set(lookupValue(o.Type, 900))
			}
			out = holder.Interface()
		case "named":
			p := &T0{"sentinel"}
			holder = reflect.ValueOf(p)
			out = PT0(p)
		case "nil":
		case "typednil":
			out = reflect.Zero(reflect.PointerTo(lookupTypes[o.Type])).Interface()
		case "nonptr":
			v := lookupValue(o.Type, 900)
			for v.Kind() == reflect.Pointer {
				v = v.Elem()
			}
			out = v.Interface()
		case "nonptrnil":
			out = pickNil(k)
		}
		var before reflect.Value
		if holder.IsValid() {
			before = reflect.New(holder.Type().Elem()).Elem()
			before.Set(holder.Elem())
		}
		var err error
		escaped, stack := guard(func() { err = pl.Lookup(name, out) })
		what := fmt.Sprintf("op %d: Lookup(%q, %T) on a plugin with symbols %+v (static %v)", k, name, out, c.Syms, c.Static)
		if escaped != nil {
			return fmt.Sprintf("%s panicked: %v\n%s", what, escaped, stack), labels
		}
		if err != nil && holder.IsValid() && !sameLookup(holder.Elem(), before) {
			return fmt.Sprintf("%s failed (%v) but changed the target", what, err), labels
		}
		switch {
		case c.Static || o.Target == "nil" || o.Target == "typednil" || o.Target == "nonptr" || o.Target == "nonptrnil" || name == "":
			labels["invalid"]++
			if err == nil {
				return what + " returned no error", labels
			}
			if !c.Static && o.Sym >= 0 && errors.Is(err, hotswap.ErrNotExist) {
				return what + " says the symbol does not exist", labels
			}
			if name == "" && errors.Is(err, hotswap.ErrNotExist) {
				return what + " says the symbol does not exist", labels
			}
		case o.Sym < 0 && !declared(c, name):
			labels["missing"]++
			if err == nil || !errors.Is(err, hotswap.ErrNotExist) {
				return fmt.Sprintf("%s returned %v, want ErrNotExist", what, err), labels
			}
		case o.Sym < 0:
		default:
			s := c.Syms[o.Sym]
			o.Type = strings.ReplaceAll(strings.ReplaceAll(o.Type, "&T0", "*T0"), "&T1", "*T1") // one type, two spellings
			fits := contains(valueTo[s.Type], o.Type)
			asPtr := !s.Func && pointerTo(s.Type, o.Type)
			if s.Func && contains([]string{"any"}, o.Type) {
				fits = true
			}
			if !fits && !asPtr {
				labels["mismatch"]++
				if err == nil {
					return fmt.Sprintf("%s succeeded although the symbol cannot be assigned", what), labels
				}
				if errors.Is(err, hotswap.ErrNotExist) {
					return what + " says the symbol does not exist", labels
				}
				continue
			}
			if err != nil {
				return fmt.Sprintf("%s failed although the symbol can be assigned: %v", what, err), labels
			}
			got := holder.Elem()
			var want reflect.Value
			switch {
			case s.Func:
				want = funcs[o.Sym]
				labels["func"]++
			case asPtr:
				want = vars[o.Sym]
				labels["var-pointer"]++
			default:
				want = vars[o.Sym].Elem()
				labels["var-value"]++
			}
			conv := reflect.New(got.Type()).Elem()
			conv.Set(want)
			if got.Kind() == reflect.Interface {
				if got.IsNil() != conv.IsNil() || !got.IsNil() && !sameLookup(got.Elem(), conv.Elem()) {
					return fmt.Sprintf("%s stored %v, want %v", what, got, conv), labels
				}
			} else if !sameLookup(got, conv) {
				return fmt.Sprintf("%s stored %v, want %v", what, got, conv), labels
			}
		}
	}
	return "", labels
}

func declared(c *LookupCase, name string) bool {
	for _, s := range c.Syms {
		if s.Name == name {
			return true
		}
	}
	return contains(allSymbols, name)
}

func pickNil(k int) any {
	return []any{map[string]int(nil), (func())(nil), (chan int)(nil), []string(nil)}[k%4]
}

func TestLookup(t *testing.T) {
	if w.harness != "lookup" {
		t.Skip()
	}
	rapid.Check(t, func(rt *rapid.T) {
		c := genLookup(rt)
		if w.over() {
			return
		}
		data := w.beginCase(c)
		msg, labels := runLookup(c)
		w.endCase()
		if msg != "" {
			w.last = &Failure{Property: w.prop, Harness: w.harness, Message: msg, Case: data}
			rt.Fatalf("%s: %s", w.prop, msg)
		}
		kinds := 0
		for _, v := range labels {
			if v > 0 {
				kinds++
			}
		}
		w.record(data, kinds >= 2, labels)
	})
}
